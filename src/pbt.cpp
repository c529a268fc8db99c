// Engine of the checks: see pbt.h
#include "pbt.h"
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <exception>
#include <fstream>
#include <iostream>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "MerlinException.h"

namespace pbt
{
std::vector<Law>& laws()
{
	static std::vector<Law> l;
	return l;
}

static std::string g_scratch;
std::string scratch_dir()
{
	return g_scratch;
}

static double now()
{
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + 1e-9 * t.tv_nsec;
}

enum Status
{
	PASS = 0, FAIL = 1, DISCARD = 2, CRASH = 3, HANG = 4
};
struct Result
{
	Status st = PASS;
	std::string msg;
	std::vector<uint64_t> rec;
	std::string desc;
	bool nontriv = false;
	std::map<std::string, uint64_t> labels;
	std::vector<std::string> known;
};

static Result run_law(const Law& law, Gen& g)
{
	Result r;
	Ctx c;
	try
	{
		law.fn(g, c);
	}
	catch(const Failure& f)
	{
		r.st = FAIL;
		r.msg = f.msg;
	}
	catch(const Discard&)
	{
		r.st = DISCARD;
	}
	catch(const MerlinException& e)
	{
		r.st = FAIL;
		r.msg = std::string("uncaught MerlinException: ") + e.Msg();
	}
	catch(const std::exception& e)
	{
		r.st = FAIL;
		r.msg = std::string("uncaught std::exception: ") + e.what();
	}
	catch(const char* e)
	{
		r.st = FAIL;
		r.msg = std::string("uncaught const char*: ") + e;
	}
	catch(...)
	{
		r.st = FAIL;
		r.msg = "uncaught exception of unknown type";
	}
	r.rec = g.rec;
	r.desc = c.desc.str();
	r.nontriv = c.nontriv;
	r.labels = c.labels;
	r.known = c.known_hits;
	return r;
}

static void rm_rf_contents(const std::string& d)
{
	DIR* dir = opendir(d.c_str());
	if(!dir)
	{
		return;
	}
	while(dirent* e = readdir(dir))
	{
		std::string n = e->d_name;
		if(n == "." || n == "..")
		{
			continue;
		}
		std::string p = d + "/" + n;
		struct stat st;
		if(lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
		{
			rm_rf_contents(p);
			rmdir(p.c_str());
		}
		else
		{
			unlink(p.c_str());
		}
	}
	closedir(dir);
}

// ---- serialisation helpers (length-prefixed text over pipes)
static void wr(int fd, const void* p, size_t n)
{
	const char* c = static_cast<const char*>(p);
	while(n)
	{
		ssize_t k = write(fd, c, n);
		if(k < 0)
		{
			if(errno == EINTR)
			{
				continue;
			}
			_exit(98);
		}
		c += k;
		n -= k;
	}
}
struct Buf
{
	std::string s;
	void u(uint64_t v)
	{
		s.append(reinterpret_cast<char*>(&v), 8);
	}
	void str(const std::string& t)
	{
		u(t.size());
		s += t;
	}
};
struct Rd
{
	const std::string& s;
	size_t p = 0;
	bool ok = true;
	explicit Rd(const std::string& x) :
		s(x)
	{
	}
	uint64_t u()
	{
		if(p + 8 > s.size())
		{
			ok = false;
			return 0;
		}
		uint64_t v;
		memcpy(&v, s.data() + p, 8);
		p += 8;
		return v;
	}
	std::string str()
	{
		uint64_t n = u();
		if(!ok || p + n > s.size())
		{
			ok = false;
			return "";
		}
		std::string r = s.substr(p, n);
		p += n;
		return r;
	}
};

static std::string base_scratch;
static int g_timeout = 40;

static void child_setup(const std::string& dir)
{
	g_scratch = dir;
	mkdir(dir.c_str(), 0700);
	if(chdir(dir.c_str()) != 0)
	{
		_exit(97);
	}
	int nul = open("/dev/null", O_RDWR);
	dup2(nul, 0);
	dup2(nul, 1);
	int err = open((dir + "/stderr.txt").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
	dup2(err < 0 ? nul : err, 2);
}

// The end of the worker's stderr (sanitizer reports, messages before exit)
static std::string stderr_tail(const std::string& dir)
{
	std::ifstream f((dir + "/stderr.txt").c_str());
	std::stringstream ss;
	ss << f.rdbuf();
	std::string s = ss.str();
	size_t p = s.find("ERROR: AddressSanitizer");
	if(p == std::string::npos)
	{
		p = s.find("runtime error:");
		if(p != std::string::npos)
		{
			size_t q = s.rfind('\n', p);
			p = q == std::string::npos ? 0 : q + 1;
		}
	}
	if(p != std::string::npos)
	{
		return s.substr(p, 1500);
	}
	return s.size() > 600 ? s.substr(s.size() - 600) : s;
}

static std::string status_text(int st)
{
	std::ostringstream o;
	if(WIFSIGNALED(st))
	{
		o << "process killed by signal " << WTERMSIG(st);
	}
	else
	{
		o << "process ended with exit code " << WEXITSTATUS(st);
	}
	return o.str();
}

// A case together with the cases the same worker ran before it (for failures that need state
// left behind by earlier cases)
struct History
{
	uint64_t seed = 0, idx = 0, stride = 1, total = 0;
};
static uint64_t case_seed(uint64_t seed, const Law& l, uint64_t idx)
{
	uint64_t s = seed * 0x9E3779B97F4A7C15ULL + hash_str(l.name) + idx * 0xD1B54A32D192ED03ULL;
	splitmix(s);
	return splitmix(s);
}
static int case_size(uint64_t idx, uint64_t total)
{
	// 0..100 over the first half of the run, then full size
	uint64_t h = total / 2 + 1;
	return idx >= h ? 100 : (int) (100 * idx / h);
}

// Run one case in a fresh child. Used for replay and shrinking.
static Result isolated(const Law& law, const std::vector<uint64_t>& seq, int size, const History* hist = nullptr)
{
	int fd[2];
	Result r;
	if(pipe(fd) != 0)
	{
		r.st = CRASH;
		return r;
	}
	std::string dir = base_scratch + "/iso";
	mkdir(dir.c_str(), 0700);
	rm_rf_contents(dir);
	pid_t pid = fork();
	if(pid == 0)
	{
		close(fd[0]);
		child_setup(dir);
		Result x;
		if(hist)
		{
			for(uint64_t i = hist->idx % hist->stride; i <= hist->idx; i += hist->stride)
			{
				Gen g(case_seed(hist->seed, law, i), case_size(i, hist->total));
				x = run_law(law, g);
			}
		}
		else
		{
			Gen g(seq, size);
			x = run_law(law, g);
		}
		Buf b;
		b.u(0x600DF00D);
		b.u(x.st);
		b.str(x.msg);
		b.str(x.desc);
		b.u(x.rec.size());
		for(uint64_t v : x.rec)
		{
			b.u(v);
		}
		wr(fd[1], b.s.data(), b.s.size());
		_exit(0);
	}
	close(fd[1]);
	std::string data;
	double t0 = now();
	bool hang = false;
	while(true)
	{
		pollfd p = {fd[0], POLLIN, 0};
		int k = poll(&p, 1, 500);
		if(k > 0)
		{
			char buf[65536];
			ssize_t n = read(fd[0], buf, sizeof buf);
			if(n <= 0)
			{
				break;
			}
			data.append(buf, n);
		}
		if(now() - t0 > g_timeout)
		{
			kill(pid, SIGKILL);
			hang = true;
			break;
		}
	}
	close(fd[0]);
	int st;
	waitpid(pid, &st, 0);
	Rd d(data);
	if(d.u() == 0x600DF00D && d.ok)
	{
		r.st = (Status) d.u();
		r.msg = d.str();
		r.desc = d.str();
		uint64_t n = d.u();
		for(uint64_t i = 0; i < n && d.ok; ++i)
		{
			r.rec.push_back(d.u());
		}
		if(d.ok)
		{
			return r;
		}
	}
	r.rec = seq;
	if(hang)
	{
		r.st = HANG;
		std::ostringstream o;
		o << "no result after " << g_timeout << " s (hang)";
		r.msg = o.str();
	}
	else
	{
		r.st = CRASH;
		r.msg = status_text(st) + " | " + stderr_tail(dir);
	}
	return r;
}

ChildResult in_child(const std::function<void (std::string&)>& f, int timeout_s)
{
	ChildResult cr{false, 0, ""};
	int fd[2];
	if(pipe(fd) != 0)
	{
		throw Discard();
	}
	pid_t pid = fork();
	if(pid == 0)
	{
		close(fd[0]);
		std::string s;
		f(s);
		wr(fd[1], s.data(), s.size());
		_exit(0);
	}
	close(fd[1]);
	double t0 = now();
	while(true)
	{
		pollfd p = {fd[0], POLLIN, 0};
		int k = poll(&p, 1, 500);
		if(k > 0)
		{
			char buf[65536];
			ssize_t n = read(fd[0], buf, sizeof buf);
			if(n <= 0)
			{
				break;
			}
			cr.out.append(buf, n);
		}
		if(now() - t0 > timeout_s)
		{
			kill(pid, SIGKILL);
			break;
		}
	}
	close(fd[0]);
	int st;
	waitpid(pid, &st, 0);
	if(WIFEXITED(st))
	{
		cr.exited = true;
		cr.code = WEXITSTATUS(st);
	}
	else
	{
		cr.code = WTERMSIG(st);
	}
	return cr;
}

// ---- shrinking
static bool bad(const Result& r)
{
	return r.st == FAIL || r.st == CRASH || r.st == HANG;
}

static Result shrink(const Law& law, Result best, int size, double budget)
{
	if(best.st == HANG)
	{
		return best;
	}
	double t0 = now();
	int tries = 0;
	auto better = [&](const std::vector<uint64_t>& cand) -> bool {
			if(now() - t0 > budget || tries > 3000)
			{
				return false;
			}
			++tries;
			Result r = isolated(law, cand, size);
			if(bad(r) && r.st == best.st)
			{
				const std::vector<uint64_t>& s = r.st == CRASH ? cand : r.rec;
				if(s.size() < best.rec.size() || (s.size() == best.rec.size() && s < best.rec))
				{
					best = r;
					best.rec = s;
					return true;
				}
			}
			return false;
		};
	bool progress = true;
	while(progress && now() - t0 < budget && tries < 3000)
	{
		progress = false;
		// delete blocks
		for(size_t k = std::max<size_t>(1, best.rec.size() / 2); k >= 1; k /= 2)
		{
			for(size_t i = 0; i + k <= best.rec.size();)
			{
				std::vector<uint64_t> cnd(best.rec);
				cnd.erase(cnd.begin() + i, cnd.begin() + i + k);
				if(better(cnd))
				{
					progress = true;
				}
				else
				{
					i += k;
				}
				if(now() - t0 > budget || tries > 3000)
				{
					break;
				}
			}
			if(k == 1)
			{
				break;
			}
		}
		// zero blocks
		for(size_t k = std::max<size_t>(1, best.rec.size() / 2); k > 1; k /= 2)
		{
			for(size_t i = 0; i + k <= best.rec.size(); i += k)
			{
				std::vector<uint64_t> cnd(best.rec);
				std::fill(cnd.begin() + i, cnd.begin() + i + k, 0);
				if(cnd != best.rec && better(cnd))
				{
					progress = true;
				}
			}
		}
		// lower single values
		for(size_t i = 0; i < best.rec.size(); ++i)
		{
			if(best.rec[i] == 0)
			{
				continue;
			}
			std::vector<uint64_t> cnd(best.rec);
			cnd[i] = 0;
			if(better(cnd))
			{
				progress = true;
				continue;
			}
			// keep the leading bits only (rounder reals), then bisect
			for(int keep = 1; keep <= 12 && i < best.rec.size(); keep += 3)
			{
				uint64_t v = best.rec[i];
				int msb = 63 - __builtin_clzll(v | 1);
				if(msb < keep)
				{
					break;
				}
				uint64_t m = v & ~((1ULL << (msb - keep + 1)) - 1);
				if(m == v)
				{
					break;
				}
				cnd = best.rec;
				cnd[i] = m;
				if(better(cnd))
				{
					progress = true;
					break;
				}
			}
			uint64_t lo = 0, hi = i < best.rec.size() ? best.rec[i] : 0;
			for(int it = 0; it < 8 && lo + 1 < hi; ++it)
			{
				uint64_t mid = lo + (hi - lo) / 2;
				cnd = best.rec;
				if(i >= cnd.size())
				{
					break;
				}
				cnd[i] = mid;
				if(better(cnd))
				{
					progress = true;
					hi = mid;
				}
				else
				{
					lo = mid;
				}
			}
			if(now() - t0 > budget)
			{
				break;
			}
		}
	}
	return best;
}

// ---- JSON output
static std::string js(const std::string& s)
{
	std::string o = "\"";
	for(unsigned char ch : s)
	{
		if(ch == '"' || ch == '\\')
		{
			o += '\\';
			o += ch;
		}
		else if(ch == '\n')
		{
			o += "\\n";
		}
		else if(ch < 0x20 || ch >= 0x7f)
		{
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", ch);
			o += b;
		}
		else
		{
			o += ch;
		}
	}
	return o + "\"";
}

struct LawStats
{
	uint64_t runs = 0, nontriv = 0, discards = 0;
	std::map<std::string, uint64_t> labels;
	std::set<uint64_t> distinct;
	std::vector<std::string> samples;
};

struct Shared
{
	volatile uint64_t law;
	volatile uint64_t idx;
	volatile uint64_t beat;     // increments per case
};

struct Fail
{
	size_t law;
	uint64_t idx;
	Result r;
};
}

using namespace pbt;

int main(int argc, char** argv)
{
	std::string tier = "quick", out, replay, only, repdir = ".", known_file;
	uint64_t seed = 1;
	int jobs = 8;
	double scale = 1;
	for(int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		auto next = [&]() {
				return std::string(i + 1 < argc ? argv[++i] : "");
			};
		if(a == "--tier")
			tier = next();
		else if(a == "--seed")
			seed = strtoull(next().c_str(), nullptr, 0);
		else if(a == "--out")
			out = next();
		else if(a == "--replay")
			replay = next();
		else if(a == "--law")
			only = next();
		else if(a == "--jobs")
			jobs = atoi(next().c_str());
		else if(a == "--scale")
			scale = atof(next().c_str());
		else if(a == "--replay-dir")
			repdir = next();
		else if(a == "--scratch")
			base_scratch = next();
		else if(a == "--timeout")
			g_timeout = atoi(next().c_str());
		else
		{
			fprintf(stderr, "unknown argument %s\n", a.c_str());
			return 2;
		}
	}
	if(base_scratch.empty())
	{
		char t[] = "/tmp/pbtXXXXXX";
		if(!mkdtemp(t))
		{
			return 2;
		}
		base_scratch = t;
	}
	double t_start = now();
	signal(SIGPIPE, SIG_IGN);

	if(!replay.empty())
	{
		std::ifstream f(replay.c_str());
		std::string word, lawname;
		int size = 100;
		std::vector<uint64_t> seq;
		History h;
		while(f >> word)
		{
			if(word == "law")
				f >> lawname;
			else if(word == "size")
				f >> size;
			else if(word == "history")
				f >> h.seed >> h.idx >> h.stride >> h.total;
			else if(word == "seq")
			{
				size_t n;
				f >> n;
				seq.resize(n);
				for(auto& v : seq)
				{
					f >> v;
				}
			}
			else
			{
				std::string rest;
				getline(f, rest);
			}
		}
		const History* hp = h.stride > 0 && h.total > 0 ? &h : nullptr;
		for(const Law& l : laws())
		{
			if(l.name == lawname)
			{
				Result r = isolated(l, seq, size, hp);
				printf("law    : %s (%s)\ncase   : %s\nresult : %s%s%s\n", l.name.c_str(), l.text.c_str(),
					r.desc.c_str(), bad(r) ? "FAILS: " : (r.st == DISCARD ? "discarded" : "passes"), r.msg.c_str(), "");
				rm_rf_contents(base_scratch);
				rmdir(base_scratch.c_str());
				if(bad(r))
				{
					printf("VIOLATION property=%s replay=%s\n", info.id, replay.c_str());
				}
				return bad(r) ? 1 : 0;
			}
		}
		fprintf(stderr, "law %s not found\n", lawname.c_str());
		return 2;
	}

	struct Task
	{
		size_t law;
		uint64_t n;
	};
	std::vector<Task> tasks;
	for(size_t i = 0; i < laws().size(); ++i)
	{
		const Law& l = laws()[i];
		if(!only.empty() && l.name != only)
		{
			continue;
		}
		uint64_t n = (uint64_t) std::max(1.0, scale * (tier == "thorough" ? l.thorough : l.quick));
		tasks.push_back(Task{i, n});
	}

	Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * jobs, PROT_READ | PROT_WRITE,
		MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	std::vector<LawStats> stats(laws().size());
	std::vector<Fail> fails;
	std::set<size_t> failed_laws;
	std::set<std::string> known;

	// Every worker w runs, for each task in order, the cases with idx % jobs == w and reports at the end of each task.
	struct Worker
	{
		pid_t pid = 0;
		int fd = -1;
		std::string data;
		size_t task = 0;        // next position if restarted
		uint64_t idx = 0;
		double last = 0;
		uint64_t beat = 0;
		bool done = false;
	};
	std::vector<Worker> W(jobs);
	auto start = [&](int w) {
			int fd[2];
			if(pipe(fd) != 0)
			{
				exit(2);
			}
			Worker& k = W[w];
			std::string dir = base_scratch + "/w" + std::to_string(w);
			mkdir(dir.c_str(), 0700);
			rm_rf_contents(dir);
			fflush(stdout);
			fflush(stderr);
			pid_t pid = fork();
			if(pid == 0)
			{
				close(fd[0]);
				for(int o = 0; o < jobs; ++o)
				{
					if(W[o].fd >= 0)
					{
						close(W[o].fd);
					}
				}
				child_setup(dir);
				uint64_t i0 = k.idx;
				for(size_t t = k.task; t < tasks.size(); ++t, i0 = w)
				{
					const Law& l = laws()[tasks[t].law];
					bool lawfailed = failed_laws.count(tasks[t].law) > 0;
					LawStats s;
					int since = 0;
					auto flush = [&]() {
							Buf b;
							b.u('S');
							b.u(tasks[t].law);
							b.u(s.runs);
							b.u(s.nontriv);
							b.u(s.discards);
							b.u(s.labels.size());
							for(auto& x : s.labels)
							{
								b.str(x.first);
								b.u(x.second);
							}
							b.u(s.distinct.size());
							for(uint64_t h : s.distinct)
							{
								b.u(h);
							}
							b.u(s.samples.size());
							for(auto& x : s.samples)
							{
								b.str(x);
							}
							Buf f;
							f.u(b.s.size());
							f.s += b.s;
							wr(fd[1], f.s.data(), f.s.size());
							s = LawStats();
							since = 0;
						};
					for(uint64_t i = i0; i < tasks[t].n && !lawfailed; i += jobs)
					{
						sh[w].law = t;
						sh[w].idx = i;
						sh[w].beat = sh[w].beat + 1;
						Gen g(case_seed(seed, l, i), case_size(i, tasks[t].n));
						Result r = run_law(l, g);
						for(auto& kn : r.known)
						{
							Buf b;
							b.u('K');
							b.str(kn);
							Buf f;
							f.u(b.s.size());
							f.s += b.s;
							wr(fd[1], f.s.data(), f.s.size());
						}
						if(r.st == DISCARD)
						{
							s.discards++;
							continue;
						}
						s.runs++;
						for(auto& x : r.labels)
						{
							s.labels[x.first] += x.second;
						}
						if(r.nontriv)
						{
							s.nontriv++;
							s.distinct.insert(hash_bytes(r.rec.data(), r.rec.size() * 8));
							if(s.samples.size() < 2 && !r.desc.empty() && i > tasks[t].n / 8)
							{
								s.samples.push_back(r.desc.substr(0, 400));
							}
						}
						if(r.st == FAIL)
						{
							Buf b;
							b.u('F');
							b.u(tasks[t].law);
							b.u(i);
							b.str(r.msg);
							b.str(r.desc);
							b.u(r.rec.size());
							for(uint64_t v : r.rec)
							{
								b.u(v);
							}
							Buf f;
							f.u(b.s.size());
							f.s += b.s;
							wr(fd[1], f.s.data(), f.s.size());
							break;    // one failure per worker and law is enough
						}
						if(++since >= 2000)
						{
							flush();
						}
					}
					flush();
				}
				Buf f;
				f.u(8);
				f.u('E');
				wr(fd[1], f.s.data(), f.s.size());
				_exit(0);
			}
			close(fd[1]);
			k.pid = pid;
			k.fd = fd[0];
			k.data.clear();
			k.last = now();
			k.beat = sh[w].beat;
		};
	for(int w = 0; w < jobs; ++w)
	{
		W[w].idx = w;
		start(w);
	}
	auto handle = [&](int w) {
			Worker& k = W[w];
			while(k.data.size() >= 8)
			{
				uint64_t n;
				memcpy(&n, k.data.data(), 8);
				if(k.data.size() < 8 + n)
				{
					break;
				}
				std::string msg = k.data.substr(8, n);
				k.data.erase(0, 8 + n);
				Rd d(msg);
				uint64_t type = d.u();
				if(type == 'E')
				{
					k.done = true;
				}
				else if(type == 'K')
				{
					known.insert(d.str());
				}
				else if(type == 'S')
				{
					LawStats& s = stats[d.u()];
					s.runs += d.u();
					s.nontriv += d.u();
					s.discards += d.u();
					uint64_t m = d.u();
					for(uint64_t i = 0; i < m; ++i)
					{
						std::string nm = d.str();
						s.labels[nm] += d.u();
					}
					m = d.u();
					for(uint64_t i = 0; i < m; ++i)
					{
						s.distinct.insert(d.u());
					}
					m = d.u();
					for(uint64_t i = 0; i < m; ++i)
					{
						std::string x = d.str();
						if(s.samples.size() < 2)
						{
							s.samples.push_back(x);
						}
					}
				}
				else if(type == 'F')
				{
					Fail f;
					f.law = d.u();
					f.idx = d.u();
					f.r.st = FAIL;
					f.r.msg = d.str();
					f.r.desc = d.str();
					uint64_t m = d.u();
					for(uint64_t i = 0; i < m; ++i)
					{
						f.r.rec.push_back(d.u());
					}
					fails.push_back(f);
					failed_laws.insert(f.law);
				}
			}
		};
	while(true)
	{
		std::vector<pollfd> pf;
		std::vector<int> who;
		for(int w = 0; w < jobs; ++w)
		{
			if(W[w].fd >= 0)
			{
				pf.push_back(pollfd{W[w].fd, POLLIN, 0});
				who.push_back(w);
			}
		}
		if(pf.empty())
		{
			break;
		}
		poll(pf.data(), pf.size(), 500);
		for(size_t q = 0; q < pf.size(); ++q)
		{
			int w = who[q];
			Worker& k = W[w];
			if(pf[q].revents)
			{
				char buf[65536];
				ssize_t n = read(k.fd, buf, sizeof buf);
				if(n > 0)
				{
					k.data.append(buf, n);
					handle(w);
					continue;
				}
				// end of file: worker ended
				close(k.fd);
				k.fd = -1;
				int st;
				waitpid(k.pid, &st, 0);
				if(k.done)
				{
					continue;
				}
				size_t t = sh[w].law;
				uint64_t idx = sh[w].idx;
				const Law& l = laws()[tasks[t].law];
				Fail f;
				f.law = tasks[t].law;
				f.idx = idx;
				f.r.st = CRASH;
				f.r.msg = status_text(st) + " | " + stderr_tail(base_scratch + "/w" + std::to_string(w));
				// recover the choice sequence by regenerating: the isolated run records it when it survives;
				// when it crashes we pass a pre-expanded random tape.
				(void) l;
				fails.push_back(f);
				failed_laws.insert(f.law);
				k.task = t + 1;
				k.idx = w;
				if(k.task < tasks.size())
				{
					start(w);
				}
			}
			else
			{
				if(sh[w].beat != k.beat)
				{
					k.beat = sh[w].beat;
					k.last = now();
				}
				else if(now() - k.last > g_timeout)
				{
					kill(k.pid, SIGKILL);
					close(k.fd);
					k.fd = -1;
					int st;
					waitpid(k.pid, &st, 0);
					Fail f;
					size_t t = sh[w].law;
					f.law = tasks[t].law;
					f.idx = sh[w].idx;
					f.r.st = HANG;
					f.r.msg = "hang";
					fails.push_back(f);
					failed_laws.insert(f.law);
					k.task = t + 1;
					k.idx = w;
					if(k.task < tasks.size())
					{
						start(w);
					}
				}
			}
		}
	}

	// ---- confirm, shrink and report failures: the first failing index of each law
	std::vector<std::string> vio;
	int flaky = 0;
	std::map<size_t, Fail> first;
	for(const Fail& f : fails)
	{
		auto it = first.find(f.law);
		if(it == first.end() || f.idx < it->second.idx)
		{
			first[f.law] = f;
		}
	}
	for(auto& kv : first)
	{
		Fail f = kv.second;
		const Law& l = laws()[f.law];
		uint64_t total = 0;
		for(auto& t : tasks)
		{
			if(t.law == f.law)
			{
				total = t.n;
			}
		}
		int size = case_size(f.idx, total);
		if(f.r.rec.empty() && f.r.st != FAIL)
		{
			// The case crashed or hung: re-record its choices from a child through shared memory.
			size_t cap = 400002;
			uint64_t* tape = static_cast<uint64_t*>(mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED
				| MAP_ANONYMOUS, -1, 0));
			std::string dir = base_scratch + "/rec";
			mkdir(dir.c_str(), 0700);
			pid_t pid = fork();
			if(pid == 0)
			{
				child_setup(dir);
				Gen g(case_seed(seed, l, f.idx), size);
				g.tape = tape;
				alarm(g_timeout);
				run_law(l, g);
				_exit(0);
			}
			int st;
			waitpid(pid, &st, 0);
			f.r.rec.assign(tape + 1, tape + 1 + tape[0]);
			munmap(tape, cap * 8);
		}
		int bads = 0;
		Result last;
		for(int i = 0; i < 3; ++i)
		{
			Result r = isolated(l, f.r.rec, size);
			if(bad(r))
			{
				++bads;
				last = r;
			}
			if(r.st == HANG)     // slow to confirm: once is enough
			{
				bads = 3;
				break;
			}
		}
		History hist;
		bool use_hist = false;
		if(bads == 0)
		{
			// perhaps it needs what earlier cases of the same worker left behind
			hist.seed = seed;
			hist.idx = f.idx;
			hist.stride = jobs;
			hist.total = total;
			for(int i = 0; i < 3; ++i)
			{
				Result r = isolated(l, f.r.rec, size, &hist);
				if(bad(r))
				{
					++bads;
					last = r;
				}
			}
			use_hist = bads == 3;
		}
		if(bads < 3)
		{
			++flaky;
			fprintf(stderr, "NOTE: law %s case %llu failed once but only %d/3 replays failed: %s\n", l.name.c_str(),
				(unsigned long long) f.idx, bads, f.r.msg.c_str());
			continue;
		}
		last.rec = f.r.rec;
		Result s = use_hist ? last : shrink(l, last, size, 60.0);
		if(s.desc.empty())
		{
			s.desc = last.desc;
		}
		uint64_t h = hash_bytes(s.rec.data(), s.rec.size() * 8, hash_str(l.name));
		char hx[32];
		snprintf(hx, sizeof hx, "%016llx", (unsigned long long) h);
		std::string path = repdir + "/" + info.id + "-" + l.name + "-" + hx + ".replay";
		std::ofstream o(path.c_str());
		o << "property " << info.id << "\nlaw " << l.name << "\nsize " << size << "\n";
		auto oneline = [](std::string x) {
				std::replace(x.begin(), x.end(), '\n', ' ');
				return x;
			};
		o << "case " << oneline(s.desc) << "\nfailure " << oneline(s.msg) << "\n";
		o << "seed " << seed << " index " << f.idx << "\n";
		if(use_hist)
		{
			o << "history " << hist.seed << ' ' << hist.idx << ' ' << hist.stride << ' ' << hist.total << "\n";
		}
		o << "seq " << s.rec.size();
		for(uint64_t v : s.rec)
		{
			o << ' ' << v;
		}
		o << "\n";
		o.close();
		printf("law %s violated: %s\n  case: %s\n  failure: %s\n", l.name.c_str(), l.text.c_str(), s.desc.c_str(),
			s.msg.c_str());
		printf("VIOLATION property=%s replay=%s\n", info.id, path.c_str());
		vio.push_back(path);
	}

	// ---- summary
	uint64_t runs = 0, nt = 0, dist = 0, disc = 0;
	for(auto& s : stats)
	{
		runs += s.runs;
		nt += s.nontriv;
		dist += s.distinct.size();
		disc += s.discards;
	}
	for(auto& t : tasks)
	{
		LawStats& s = stats[t.law];
		printf("  %-28s runs %-8llu nontrivial(distinct) %-8zu discarded %-6llu", laws()[t.law].name.c_str(),
			(unsigned long long) s.runs, s.distinct.size(), (unsigned long long) s.discards);
		for(auto& x : s.labels)
		{
			printf(" %s=%llu", x.first.c_str(), (unsigned long long) x.second);
		}
		printf("\n");
	}
	if(!out.empty())
	{
		std::ofstream o(out.c_str());
		o << "{\n \"property\": " << js(info.id) << ",\n \"tier\": " << js(tier) << ",\n \"seed\": " << seed
		  << ",\n \"evaluations\": " << runs << ",\n \"distinct_nontrivial\": " << dist << ",\n \"discarded\": " << disc
		  << ",\n \"rule\": " << js(info.rule) << ",\n \"assumptions\": " << js(info.assumptions) << ",\n \"wall_s\": "
		  << (now() - t_start) << ",\n \"flaky\": " << flaky << ",\n \"known\": [";
		bool fst = true;
		for(auto& k : known)
		{
			o << (fst ? "" : ", ") << js(k);
			fst = false;
		}
		o << "],\n \"violations\": [";
		for(size_t i = 0; i < vio.size(); ++i)
		{
			o << (i ? ", " : "") << js(vio[i]);
		}
		o << "],\n \"laws\": [\n";
		for(size_t q = 0; q < tasks.size(); ++q)
		{
			LawStats& s = stats[tasks[q].law];
			const Law& l = laws()[tasks[q].law];
			o << "  {\"law\": " << js(l.name) << ", \"text\": " << js(l.text) << ", \"runs\": " << s.runs
			  << ", \"nontrivial\": " << s.nontriv << ", \"distinct\": " << s.distinct.size() << ", \"discarded\": "
			  << s.discards << ", \"labels\": {";
			bool f1 = true;
			for(auto& x : s.labels)
			{
				o << (f1 ? "" : ", ") << js(x.first) << ": " << x.second;
				f1 = false;
			}
			o << "}, \"samples\": [";
			for(size_t i = 0; i < s.samples.size(); ++i)
			{
				o << (i ? ", " : "") << js(s.samples[i]);
			}
			o << "]}" << (q + 1 < tasks.size() ? "," : "") << "\n";
		}
		o << " ]\n}\n";
	}
	rm_rf_contents(base_scratch);
	rmdir(base_scratch.c_str());
	if(!vio.empty())
	{
		return 1;
	}
	return 0;
}

// sanitizer defaults: the library leaks by design, so leak detection is off
extern "C" const char* __asan_default_options()
{
	return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1";
}
extern "C" const char* __ubsan_default_options()
{
	return "print_stacktrace=0:halt_on_error=1:exitcode=78";
}
