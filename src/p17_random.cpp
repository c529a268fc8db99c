// P17: random numbers are reproducible and follow the requested distributions.
#include "pbt.h"
#include <iostream>
#include <map>
#include "RandomNG.h"
#include "LandauDistribution.h"
#include "PSTypes.h"
#include "MultiNormal.h"
using pbt::Gen;
using pbt::Ctx;
typedef long double LD;

pbt::Info pbt::info = {"P17",
	"Any seeds and lists of seeds, interleavings of up to 60 requests for every kind of variate, resets, changes of the seed and local "
	"generators, and samples of 300 to 3000 variates of any parameters. Non-trivial: at least five requests, or a sample that is not "
	"constant.",
	"Samples are judged at a significance of about 1e-9 per comparison (Kolmogorov-Smirnov distance, mean, correlation); the Landau "
	"quantiles to 5e-5 of the probability of the nearer tail."};

namespace
{
typedef std::vector<std::uint32_t> Seeds;
Seeds seeds(Gen& g)
{
	Seeds s(g.len(1, 5));
	for(auto& x : s)
		x = g.pick({0ull, 1ull, 0xffffffffull, (unsigned long long) g.i(0, 100), (unsigned long long) g.raw(0xffffffffull)});
	return s;
}
struct Req
{
	int kind;
	double a, b, c;
};
Req request(Gen& g)
{
	Req r;
	r.kind = g.i(0, 5);
	r.a = g.coord(10);
	r.b = g.pick({0.0, 1.0, g.logu(1e-6, 1e6)});
	r.c = g.pick({0.0, 1.0, g.logu(0.05, 10), -g.logu(0.05, 10)});
	return r;
}
double run(const Req& r)
{
	switch(r.kind)
	{
	case 0:
		return RandomNG::normal(r.a, r.b);
	case 1:
		return RandomNG::normal(r.a, r.b, r.c);
	case 2:
		return RandomNG::uniform(r.a, r.a + r.b);
	case 3:
		return RandomNG::poisson(r.b);
	case 4:
		return RandomNG::landau();
	default:
		return double(RandomNG::getGenerator()());
	}
}
void limits(Ctx& c, const Req& r, double x)
{
	double ar = 1e-12 * std::abs(r.a);
	switch(r.kind)
	{
	case 0:
		if(r.b == 0)
			c.eq(x, r.a, "a normal variate without variance is the mean");
		break;
	case 1:
		if(r.b == 0)
			c.eq(x, r.a, "a cut normal variate without variance is the mean");
		else if(r.c != 0)
			c.check(std::abs(x - r.a) <= std::abs(r.c) * std::sqrt(r.b) * (1 + 1e-12) + ar, "a cut normal variate is within the cut-off");
		break;
	case 2:
		c.check(x >= r.a - ar && x <= r.a + r.b + ar, "a uniform variate is in the interval");
		break;
	case 3:
		c.check(x >= 0 && x == std::floor(x), "a Poisson variate is a natural number");
		if(r.b == 0)
			c.eq(x, 0.0, "Poisson variate of mean zero");
		break;
	}
	c.check(std::isfinite(x), "a variate is finite");
}
double Phi(double x)
{
	return 0.5 * std::erfc(-x / std::sqrt(2.0));
}
// sup distance between the sample and a distribution function, times sqrt(n)
template<class F> double ks(std::vector<double> v, F f, double ignore = 0)
{
	std::sort(v.begin(), v.end());
	double d = 0, n = v.size();
	for(size_t i = 0; i < v.size(); ++i)
	{
		double p = f(v[i]);
		d = std::max(d, std::max(p - i / n, (i + 1) / n - p));
	}
	return std::max(0.0, d - ignore) * std::sqrt(n);
}
const double KS = 3.3;     // 2 exp(-2 x^2) = 7e-10

// 1 - distribution function of the Landau density, by quadrature
LD landau_tail(LD x)
{
	const LD pi = 3.14159265358979323846264338327950288L;
	// integrate exp(-t ln t - x t) sin(pi t) / (pi t), substituting t = u^2
	LD tmax = x < 0 ? std::exp(-x) * 3 + 20 : x > 50 ? 60 / x : 40 / (x + 1) + 3;
	if(tmax > 60)
		tmax = 60;
	LD umax = std::sqrt(tmax);
	int n = 6000;
	LD h = umax / n, s = 0;
	for(int i = 0; i <= n; ++i)
	{
		LD u = i * h, t = u * u, f;
		if(t == 0)
			f = 0;      // 2u * 1 at u=0
		else
			f = 2 * u * std::exp(-t * std::log(t) - x * t) * std::sin(pi * t) / (pi * t);
		s += f * (i == 0 || i == n ? 1 : i % 2 ? 4 : 2);
	}
	return s * h / 3;
}
// a source of numbers that makes uniform_real_distribution return about r
struct Fixed
{
	typedef std::uint64_t result_type;
	std::uint64_t v;
	static constexpr result_type min()
	{
		return 0;
	}
	static constexpr result_type max()
	{
		return ~0ull;
	}
	result_type operator()()
	{
		return v;
	}
};
}

// must come first: in the first case of a process nothing has been seeded
LAW(unseeded, 200, 1000, "the generator works without a seed, and names hash to the same number each time")
{
	std::string a = g.str("abcXYZ_0189 .", 0, 12), b = g.str("abcXYZ_0189 .", 0, 12);
	c.nontrivial(a != b);
	RandomNG::getGenerator()();     // in the first case nothing has been seeded
	double u = RandomNG::uniform(0, 1);
	c.check(u >= 0 && u <= 1, "numbers without a seed");
	c.check(!RandomNG::getSeed().empty(), "seeds are chosen when none are given");
	c.eq(hash_string(a), hash_string(std::string(a.c_str())), "equal names");
	if(a != b)
		c.check(hash_string(a) != hash_string(b), "different names");
}

LAW(history, 6000, 150000, "the numbers are a function of the seeds; resets repeat them, local generators are independent")
{
	Seeds s = seeds(g);
	int n = g.len(1, 60);
	c.nontrivial(n >= 5);
	std::vector<Req> reqs;
	for(int i = 0; i < n; ++i)
		reqs.push_back(request(g));
	auto play = [&](bool check)
	{
		std::vector<double> v;
		for(auto& r : reqs)
		{
			v.push_back(run(r));
			if(check)
				limits(c, r, v.back());
		}
		return v;
	};
	auto start = [&](const Seeds& x, int how)
	{
		if(x.size() == 1 && (how & 1))
			(how & 2) ? RandomNG::init(x[0]) : RandomNG::reset(x[0]);
		else
			(how & 2) ? RandomNG::init(x) : RandomNG::reset(x);
	};
	start(s, g.i(0, 3));
	c.check(RandomNG::getSeed() == s, "getSeed returns the seeds given");
	auto v1 = play(true);
	// reset repeats
	RandomNG::reset();
	c.check(play(false) == v1, "reset repeats the sequence");
	c.check(RandomNG::getSeed() == s, "reset keeps the seed");
	// other seeds, requests and local generators in between
	Seeds s2 = seeds(g);
	std::map<size_t, std::vector<std::uint64_t> > local;
	std::vector<size_t> names;
	for(int i = g.i(1, 3); i > 0; --i)
	{
		size_t h = g.b() ? hash_string(g.pick({std::string("A"), std::string("Process"), std::string("")})) : g.raw(5);
		names.push_back(h);
	}
	start(s2, g.i(0, 3));
	// reference streams for seed s2
	for(size_t h : names)
	{
		RandomNG::resetLocalGenerator(h);
		std::mt19937_64& gen = RandomNG::getLocalGenerator(h);
		std::vector<std::uint64_t> x;
		for(int i = 0; i < 5; ++i)
			x.push_back(gen());
		local[h] = x;
	}
	auto w = play(false);
	if(s2 != s)
	{
		int free = 0;
		for(auto& r : reqs)
			free += r.kind == 5;
		bool same = true;
		for(size_t i = 0; i < reqs.size(); ++i)
			if(reqs[i].kind == 5)
				same = same && w[i] == v1[i];
		if(free)
			c.check(!same, "different seeds give different numbers");
	}
	start(s, g.i(0, 3));
	std::map<size_t, int> used;
	std::vector<double> v3;
	for(auto& r : reqs)
	{
		if(g.chance(1, 3))     // a local request in between
			RandomNG::getLocalGenerator(g.pick(names))();
		if(g.chance(1, 10))
			RandomNG::resetLocalGenerator(g.pick(names));
		v3.push_back(run(r));
	}
	c.check(v3 == v1, "local generators do not disturb the sequence");
	// local streams depend on seeds and name only
	start(s2, g.i(0, 3));
	bool again = g.b();
	for(int i = 0; i < 20; ++i)
	{
		size_t h = g.pick(names);
		if(again && g.chance(1, 6))
		{
			RandomNG::resetLocalGenerator(h);
			used[h] = 0;
		}
		if(g.chance(1, 3))
			run(request(g));
		if(g.chance(1, 12))
		{
			RandomNG::reset();
			used.clear();
			c.label("reset with local generators");
		}
		if(used[h] < 5)
		{
			std::uint64_t x = RandomNG::getLocalGenerator(h)();
			c.eq(x, local[h][used[h]], "number " + std::to_string(used[h]) + " of a local generator");
			++used[h];
		}
	}
	for(auto& p : local)
		for(auto& q : local)
			if(p.first != q.first)
				c.check(p.second != q.second, "local generators of different names differ");
	RandomNG::init(s2);
	std::vector<std::uint64_t> m;
	for(int i = 0; i < 5; ++i)
		m.push_back(RandomNG::getGenerator()());
	for(auto& p : local)
		c.check(p.second != m, "a local generator differs from the main one");
}

LAW(normal, 300, 12000, "normal variates, with and without cut-off, follow their distribution")
{
	RandomNG::init(std::uint32_t(g.raw(0xffffffffull)));
	double mean = g.pick({0.0, 1.0, g.slogu(1e-6, 1e6)}), var = g.pick({1.0, g.logu(1e-12, 1e12), g.logu(0.01, 100)});
	bool cut = g.b();
	double k = g.pick({1.0, 3.0, g.logu(0.02, 6)}) * (g.chance(1, 4) ? -1 : 1);
	if(std::abs(mean) > 1e6 * std::sqrt(var))
		mean = 0;
	int n = g.i(300, 3000);
	std::vector<double> v(n);
	for(auto& x : v)
		x = cut ? RandomNG::normal(mean, var, k) : RandomNG::normal(mean, var);
	c.nontrivial(true);
	c.label(cut ? "cut" : "no cut");
	double sd = std::sqrt(var), a = std::abs(k);
	auto F = [&](double x)
	{
		double z = (x - mean) / sd;
		if(!cut)
			return Phi(z);
		return (Phi(z) - Phi(-a)) / (Phi(a) - Phi(-a));
	};
	double d = ks(v, F, 1e-6);
	c.desc << "n=" << n;
	c.check(d < KS, "distance from the distribution " + std::to_string(d));
	// neighbours are independent
	double s = 0;
	for(int i = 1; i < n; ++i)
		s += (F(v[i]) - 0.5) * (F(v[i - 1]) - 0.5) * 12;
	c.check(std::abs(s) < 6.5 * std::sqrt(n), "neighbouring variates are uncorrelated");
	if(cut)
		for(double x : v)
			c.check(std::abs(x - mean) <= a * sd * (1 + 1e-12) + 1e-12 * std::abs(mean), "within the cut-off");
}

LAW(uniform, 300, 12000, "uniform variates follow their distribution")
{
	RandomNG::init(std::uint32_t(g.raw(0xffffffffull)));
	double lo = g.pick({0.0, -1.0, g.slogu(1e-6, 1e6)}), w = g.pick({1.0, 2.0, g.logu(1e-9, 1e9)});
	if(w < 1e-6 * std::abs(lo))
		lo = 0;
	int n = g.i(300, 3000);
	std::vector<double> v(n);
	for(auto& x : v)
		x = RandomNG::uniform(lo, lo + w);
	c.nontrivial(true);
	auto F = [&](double x) { return (x - lo) / w; };
	double d = ks(v, F, 1e-6);
	c.check(d < KS, "distance from the distribution " + std::to_string(d));
	double s = 0;
	for(int i = 1; i < n; ++i)
		s += (F(v[i]) - 0.5) * (F(v[i - 1]) - 0.5) * 12;
	c.check(std::abs(s) < 6.5 * std::sqrt(n), "neighbouring variates are uncorrelated");
	for(double x : v)
		c.check(x >= lo - 1e-12 * std::abs(lo) && x <= lo + w + 1e-12 * (std::abs(lo) + w), "in the interval");
}

LAW(poisson, 300, 12000, "Poisson variates follow their distribution")
{
	RandomNG::init(std::uint32_t(g.raw(0xffffffffull)));
	double u = g.pick({1.0, g.logu(1e-3, 1), g.logu(0.5, 20), g.logu(10, 300), g.logu(100, 1e5)});
	int n = g.i(300, 2000);
	std::vector<double> v(n);
	double sum = 0;
	for(auto& x : v)
	{
		x = RandomNG::poisson(u);
		c.check(x >= 0 && x == std::floor(x), "a natural number");
		sum += x;
	}
	c.nontrivial(true);
	c.label(u < 12 ? "small mean" : "large mean");
	double z = (sum - n * u) / std::sqrt(n * u);
	if(n * u > 30)
		c.check(std::abs(z) < 6.5, "mean, " + std::to_string(z) + " standard errors off");
	else
		c.check(sum < n * u + 6.5 * std::sqrt(n * u) + 25, "mean of rare events");
	if(u > 500)
	{
		double d = ks(v, [&](double x) { return Phi((x - u) / std::sqrt(u)); }, 0.5 / std::sqrt(u));
		c.check(d < KS, "distance from the normal limit");
		return;
	}
	std::sort(v.begin(), v.end());
	double d = 0, F = 0, p = std::exp(-u);
	if(p == 0)
		c.discard();
	size_t i = 0;
	for(int k = 0; k <= v.back(); ++k)
	{
		F += p;
		p *= u / (k + 1);
		while(i < v.size() && v[i] <= k)
			++i;
		d = std::max(d, std::abs(F - double(i) / n));
	}
	c.check(d * std::sqrt(n) < KS, "distance from the distribution");
}

LAW(landau, 150, 4000, "Landau variates follow their distribution")
{
	RandomNG::init(std::uint32_t(g.raw(0xffffffffull)));
	int n = g.i(100, 400);
	c.nontrivial(true);
	std::vector<double> v(n);
	for(auto& x : v)
		x = RandomNG::landau();
	double d = ks(v, [](double x) { return x > 1e4 ? 1 - 1 / x : x < -3.5 ? 0 : (double) (1 - landau_tail(x)); }, 1e-4);
	c.check(d < KS, "distance from the distribution " + std::to_string(d));
}

LAW(landau_quantile, 3000, 60000, "the Landau quantile function is the inverse of the distribution function")
{
	double r;
	switch(g.i(0, 4))
	{
	case 0:
		r = g.unit();
		break;
	case 1:
		r = 1 - g.logu(1e-6, 0.03);
		break;
	case 2:
		r = g.logu(1e-4, 0.1);
		break;
	case 3:
		r = g.i(1, 999) * 1e-3 + g.pick({0.0, 1e-9, -1e-9, 1e-6, -1e-6});
		break;
	default:
		r = 0.005 + 0.99 * g.unit();
	}
	if(r < 1e-4)
		r = 1e-4;
	if(r > 1 - 1e-6)
		r = 1 - 1e-6;
	Fixed f;
	f.v = std::uint64_t(r * 18446744073709551616.0);
	std::uniform_real_distribution<double> u(0, 1);
	double rr = u(f);
	c.near(rr, r, 1e-12, 0, "harness: the uniform variate asked for");
	landau_distribution<double> l;
	double x = l(f);
	c.nontrivial(r > 0 && r < 1);
	LD t = landau_tail(x);
	double tol = std::min(2e-5, r < 0.5 ? 2e-4 * r : 5e-5 * (1 - r));
	c.near((double) (1 - t), r, 0, tol, "distribution function at the quantile of " + std::to_string(r));
	Fixed f2;
	f2.v = f.v + std::uint64_t(1e-6 * 18446744073709551616.0);
	if(f2.v > f.v && r < 1 - 1e-4)
		c.check(l(f2) >= x - 1e-5 * (1 + std::abs(x)), "quantiles grow");
}

namespace
{
template<int N> void multi(Gen& g, Ctx& c)
{
	// A A^T, with rows of very different size
	std::vector<std::vector<double> > A(N, std::vector<double>(N)), C(N, std::vector<double>(N));
	std::vector<double> m(N), sd(N);
	bool diag = g.chance(1, 5);
	c.desc << "N=" << N << " A:";
	for(int i = 0; i < N; ++i)
	{
		double scale = g.logu(1e-9, 1e3);
		for(int j = 0; j < N; ++j)
			A[i][j] = scale * (diag ? i == j : g.pick({0.0, 1.0, g.sym(1)}));
		A[i][i] += scale * 0.3;
		for(double& x : A[i])
			c.desc << " " << x;
		m[i] = g.pick({0.0, scale, scale * g.sym(1e3)});
		c.desc << " mean " << m[i] << ";";
	}
	int big = g.i(0, 2);
	RealMatrix M(N + big, N + big);
	for(int i = 0; i < N + big; ++i)
		for(int j = 0; j < N + big; ++j)
			M(i, j) = 0.1;
	RealVector mu(N + big);
	TCovMtrx<double, N> T;
	for(int i = 0; i < N; ++i)
	{
		for(int j = 0; j < N; ++j)
		{
			for(int k = 0; k < N; ++k)
				C[i][j] += A[i][k] * A[j][k];
			M(i, j) = C[i][j];
			if(j <= i)
				T(i, j) = C[i][j];
		}
		mu(i) = m[i];
		sd[i] = std::sqrt(C[i][i]);
	}
	std::uint32_t seed = std::uint32_t(g.raw(0xffffffffull));
	int how = g.i(0, 1), n = g.i(400, 1500);
	c.desc << (how ? " packed" : " matrix") << " n=" << n;
	std::unique_ptr<MultiNormal<N> > gen(how ? new MultiNormal<N>(T, mu) : new MultiNormal<N>(M, mu));
	RandomNG::init(seed);
	std::vector<std::vector<double> > x(n, std::vector<double>(N));
	for(auto& v : x)
	{
		RealVector r = gen->GetRandVec();
		c.eq((int) r.size(), N, "dimension");
		for(int i = 0; i < N; ++i)
			v[i] = r(i);
	}
	// the other constructor is the same generator
	std::unique_ptr<MultiNormal<N> > gen2(how ? new MultiNormal<N>(M, mu) : new MultiNormal<N>(T, mu));
	RandomNG::init(seed);
	RealVector r = gen2->GetRandVec();
	for(int i = 0; i < N; ++i)
		c.near(r(i), x[0][i], 1e-9, 1e-12 * sd[i], "matrix and packed covariance");
	c.nontrivial(true);
	// any combination of the variables is normal with the variance that follows from the covariance
	for(int t = 0; t < 4; ++t)
	{
		std::vector<double> w(N);
		int only = t < 2 ? g.i(0, N - 1) : -1;
		double var = 0, mean = 0;
		for(int i = 0; i < N; ++i)
			w[i] = (only < 0 ? g.sym(1) : i == only) / sd[i];
		for(int i = 0; i < N; ++i)
		{
			mean += w[i] * m[i];
			for(int j = 0; j < N; ++j)
				var += w[i] * w[j] * C[i][j];
		}
		if(var < 1e-6)
			continue;
		std::vector<double> y(n);
		for(int k = 0; k < n; ++k)
		{
			for(int i = 0; i < N; ++i)
				y[k] += w[i] * (x[k][i] - m[i]);
			y[k] /= std::sqrt(var);
		}
		double s = 0;
		for(int k = 1; k < n; ++k)
			s += y[k] * y[k - 1];
		c.check(std::abs(s) < 6.5 * std::sqrt(n) + 40, "successive vectors are independent");
		double d = ks(y, [](double z) { return Phi(z); }, 1e-6);
		c.check(d < KS, "distance of a combination of the variables from its distribution " + std::to_string(d));
	}
}
}

LAW(multinormal, 400, 12000, "normal vectors have the requested means and covariances")
{
	switch(g.i(0, 4))
	{
	case 0: return multi<1>(g, c);
	case 1: return multi<2>(g, c);
	case 2: return multi<3>(g, c);
	case 3: return multi<4>(g, c);
	default: return multi<6>(g, c);
	}
}
