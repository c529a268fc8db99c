// pbt.h - a small property-based testing engine used by every check in /verif.
//
// A test case is a *choice sequence*: a vector of bounded integers.  Generators draw
// from it (Gen::u, Gen::real, ...), so a case can be replayed exactly from the recorded sequence
// and shrunk by deleting / lowering choices (the Hypothesis approach).  All randomness of a
// run is a pure function of (VERIF_SEED, law name, case index).
//
// Laws are run in forked workers, so crashes, sanitizer reports, calls of exit() and hangs
// inside the code under test are attributed to the case that caused them, replayed and shrunk
// like any other failure.
#ifndef PBT_H
#define PBT_H
#include <cstdlib>
#include <cstdint>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>

namespace pbt
{

inline uint64_t splitmix(uint64_t& s)
{
	uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
	return z ^ (z >> 31);
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
	const unsigned char* c = static_cast<const unsigned char*>(p);
	for(size_t i = 0; i < n; ++i)
	{
		h ^= c[i];
		h *= 1099511628211ULL;
	}
	return h;
}
inline uint64_t hash_str(const std::string& s)
{
	return hash_bytes(s.data(), s.size());
}

struct Failure
{
	std::string msg;
};
struct Discard
{
};

class Gen
{
public:
	Gen(uint64_t seed, int size_) :
		size(size_), state(seed), replaying(false)
	{
	}
	Gen(const std::vector<uint64_t>& seq, int size_) :
		size(size_), state(0), replaying(true), in(seq)
	{
	}
	int size;                      // 0..100, grows over the run
	std::vector<uint64_t> rec;     // recorded choices
	uint64_t* tape = nullptr;      // optional copy of rec in shared memory (survives a crash)

	// uniform integer in [0, bound] ; shrinks to 0
	uint64_t raw(uint64_t bound)
	{
		uint64_t v;
		if(replaying)
		{
			v = pos < in.size() ? in[pos] : 0;
			++pos;
			if(v > bound)
			{
				v = bound;
			}
		}
		else
		{
			uint64_t r = splitmix(state);
			if(bound == UINT64_MAX)
			{
				v = r;
			}
			else
			{
				v = (uint64_t) (((unsigned __int128) r * (bound + 1)) >> 64);
			}
		}
		rec.push_back(v);
		if(tape && rec.size() < 400000)
		{
			tape[rec.size()] = v;
			tape[0] = rec.size();
		}
		if(rec.size() > 400000)
		{
			throw Discard();
		}
		return v;
	}
	int i(int lo, int hi)          // shrinks to lo
	{
		return lo + (int) raw((uint64_t) ((int64_t) hi - lo));
	}
	bool b()
	{
		return raw(1) != 0;
	}
	// true with probability num/den, shrinks to false
	bool chance(int num, int den)
	{
		return (int) raw(den - 1) >= den - num;
	}
	// a length that scales with size: lo .. lo+(hi-lo)*size/100
	int len(int lo, int hi)
	{
		int h = lo + (int) ((int64_t) (hi - lo) * std::max(size, 5) / 100);
		if(h < lo)
		{
			h = lo;
		}
		return i(lo, h);
	}
	// uniform real in [0,1) with 2^-40 resolution
	double unit()
	{
		return (double) raw((1ULL << 40) - 1) / (double) (1ULL << 40);
	}
	double real(double lo, double hi)
	{
		return lo + (hi - lo) * unit();
	}
	// sign-symmetric magnitude, shrinks to 0
	double sym(double m)
	{
		double v = m * unit();
		return b() ? -v : v;
	}
	// log-uniform magnitude in [lo,hi]
	double logu(double lo, double hi)
	{
		return lo * std::pow(hi / lo, unit());
	}
	double slogu(double lo, double hi)
	{
		double v = logu(lo, hi);
		return b() ? -v : v;
	}
	// mixture: 0, a nice number or a random value in +-m
	double coord(double m)
	{
		switch(raw(9))
		{
		case 0:
			return 0.0;
		case 1:
			return m * (double) i(-4, 4) / 4.0;
		case 2:
			return slogu(m * 1e-9, m);
		default:
			return sym(m);
		}
	}
	template<class T> const T& pick(const std::vector<T>& v)
	{
		return v[raw(v.size() - 1)];
	}
	template<class T> T pick(std::initializer_list<T> l)
	{
		return *(l.begin() + raw(l.size() - 1));
	}
	std::string str(const std::string& alphabet, int lo, int hi)
	{
		std::string s;
		int n = i(lo, hi);
		for(int k = 0; k < n; ++k)
		{
			s += alphabet[raw(alphabet.size() - 1)];
		}
		return s;
	}
private:
	uint64_t state;
	bool replaying;
	std::vector<uint64_t> in;
	size_t pos = 0;
};

class Ctx
{
public:
	std::map<std::string, uint64_t> labels;
	std::ostringstream desc;
	bool nontriv = false;
	bool want_desc = false;
	std::vector<std::string> known_hits;

	// true if the finding is listed in known_findings.txt: the case shows it and is not judged further in that respect
	bool known(const std::string& kf)
	{
		const char* e = getenv("VERIF_KNOWN");
		std::istringstream is(e ? e : "");
		std::string w;
		while(is >> w)
			if(w == kf)
			{
				known_hits.push_back(kf);
				return true;
			}
		return false;
	}
	void label(const std::string& l)
	{
		labels[l]++;
	}
	void label(bool c, const std::string& l)
	{
		if(c)
		{
			labels[l]++;
		}
	}
	void nontrivial(bool c = true)
	{
		nontriv = nontriv || c;
	}
	void fail(const std::string& m)
	{
		throw Failure{m};
	}
	void check(bool ok, const std::string& m)
	{
		if(!ok)
		{
			throw Failure{m};
		}
	}
	void discard()
	{
		throw Discard();
	}
	// |a-b| <= atol + rtol*max(|a|,|b|); NaN never passes; equal infinities do
	static bool close(double a, double b, double rtol, double atol)
	{
		if(a == b)
		{
			return true;
		}
		if(!std::isfinite(a) || !std::isfinite(b))
		{
			return false;
		}
		return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
	}
	void near(double a, double b, double rtol, double atol, const std::string& what)
	{
		if(!close(a, b, rtol, atol))
		{
			std::ostringstream s;
			s.precision(17);
			s << what << ": got " << a << " expected " << b << " (diff " << (a - b) << ", rtol " << rtol << ", atol "
			  << atol << ")";
			throw Failure{s.str()};
		}
	}
	void same(double a, double b, const std::string& what)   // bitwise-ish equality (NaN == NaN)
	{
		if(!(a == b || (std::isnan(a) && std::isnan(b))))
		{
			std::ostringstream s;
			s.precision(17);
			s << what << ": got " << a << " expected exactly " << b << " (diff " << (a - b) << ")";
			throw Failure{s.str()};
		}
	}
	template<class A, class B>
	void eq(const A& a, const B& b, const std::string& what)
	{
		if(!(a == b))
		{
			std::ostringstream s;
			s.precision(17);
			s << what << ": got " << a << " expected " << b;
			throw Failure{s.str()};
		}
	}
};

typedef std::function<void (Gen&, Ctx&)> LawFn;
struct Law
{
	std::string name;
	std::string text;   // the law in words
	int quick;          // cases in the quick tier
	int thorough;       // cases in the thorough tier
	LawFn fn;
};
std::vector<Law>& laws();
struct Register
{
	Register(const char* name, const char* text, int quick, int thorough, LawFn fn)
	{
		laws().push_back(Law{name, text, quick, thorough, fn});
	}
};
// The non-triviality rule, the property id and the assumptions, defined once per check.
struct Info
{
	const char* id;
	const char* rule;
	const char* assumptions;
};
extern Info info;

// Outcome of running f in a child process (for code that may call exit/abort legitimately)
struct ChildResult
{
	bool exited;        // normal exit
	int code;           // exit code / signal
	std::string out;    // what f wrote to the result string
};
ChildResult in_child(const std::function<void (std::string&)>& f, int timeout_s = 60);

// does f throw an E (other exceptions pass)?
template<class E, class F> bool throws(F f)
{
	try
	{
		f();
	}
	catch(E&)
	{
		return true;
	}
	return false;
}

std::string scratch_dir();   // a private directory, the cwd of the worker
}

#define PBT_CAT2(a, b) a ## b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define LAW(name, quick, thorough, text) \
	static void law_ ## name(pbt::Gen& g, pbt::Ctx& c); \
	static pbt::Register PBT_CAT(reg_, name)(#name, text, quick, thorough, law_ ## name); \
	static void law_ ## name(pbt::Gen& g, pbt::Ctx& c)
#endif
