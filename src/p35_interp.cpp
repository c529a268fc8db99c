// P35: interpolation reproduces its data and the polynomials of its order.
#include "pbt.h"
#include <iostream>
#include <memory>
#include "Interpolation.h"
using namespace pbt;
pbt::Info pbt::info = {"P35", "at least three data points and a query strictly between two of them",
	"Abscissae are distinct and within [-2,2], so that monomial coefficients are well conditioned; at least two points."};

namespace
{
struct Quiet
{
	std::ostringstream sink;
	std::streambuf* old;
	Quiet() : old(std::cout.rdbuf(sink.rdbuf())) {}
	~Quiet() { std::cout.rdbuf(old); }
};
double poly(const std::vector<double>& p, double x)
{
	double s = 0;
	for(size_t i = p.size(); i-- > 0;)
		s = s * x + p[i];
	return s;
}
std::vector<double> abscissae(Gen& g, int n)
{
	std::vector<double> x;
	double at = -2;
	for(int i = 0; i < n; ++i)
	{
		at += 4.0 / n * g.real(0.3, 1);
		x.push_back(at);
	}
	return x;
}
std::unique_ptr<Interpolation> make(Gen& g, const std::vector<double>& x, const std::vector<double>& y, int order, bool arrays)
{
	std::vector<size_t> p(x.size());
	for(size_t i = 0; i < p.size(); ++i)
		p[i] = i;
	if(g.chance(1, 2))
		for(size_t i = p.size(); i > 1; --i)
			std::swap(p[i - 1], p[g.raw(i - 1)]);
	std::vector<double> a, b;
	for(size_t i : p)
	{
		a.push_back(x[i]);
		b.push_back(y[i]);
	}
	return std::unique_ptr<Interpolation>(arrays ? new Interpolation(a.data(), b.data(), a.size(), order) : new Interpolation(a, b, order));
}
}

LAW(arbitrary, 4000, 200000,
	"with points of arbitrary spacing, in any order and either calling form, interpolation passes through every point, reproduces polynomials up to its order, does not depend on earlier calls, and refuses arguments outside the range")
{
	Quiet q;
	int n = g.i(2, 14), order = g.i(1, 6), k = std::min(order, n - 1);
	bool arrays = g.b(), exact = g.b();
	c.desc << n << " points, order " << order << (arrays ? " arrays" : " vectors") << (exact ? " polynomial" : " values");
	c.nontrivial(n > 2);
	c.label(k == n - 1, "one polynomial");
	c.label(order > n - 1, "order reduced");
	std::vector<double> x = abscissae(g, n), y, p;
	for(int i = g.i(0, k); i >= 0; --i)
		p.push_back(g.coord(3));
	for(double v : x)
		y.push_back(exact ? poly(p, v) : g.coord(10));
	double big = 1;
	for(double v : y)
		big = std::max(big, std::fabs(v));
	std::unique_ptr<Interpolation> f = make(g, x, y, order, arrays), h = make(g, x, y, order, !arrays);
	double tol = 1e-9 * big * std::pow(4.0, k);
	for(int m = 0; m < 30; ++m)
	{
		if(g.chance(1, 3))
		{
			int i = g.i(0, n - 1);
			c.near((*f)(x[i]), y[i], 0, tol, "value at point " + std::to_string(i));
			continue;
		}
		double v = g.chance(1, 8) ? g.pick({x.front() - g.logu(1e-9, 10), x.back() + g.logu(1e-9, 10)}) : g.real(x.front(), x.back());
		bool out = v < x.front() || v > x.back();
		double err = -1, r = 0;
		bool thrown = throws<Interpolation::BadRange>([&]() { r = g.b() ? (*f)(v) : f->itsMethod->ValueAt(v, &err); });
		c.check(thrown == out, out ? "no BadRange outside the range" : "BadRange inside the range");
		if(out)
			continue;
		if(exact)
			c.near(r, poly(p, v), 0, tol, "polynomial");
		if(k == 1)
		{
			size_t i = std::upper_bound(x.begin(), x.end(), v) - x.begin();
			i = std::min(std::max<size_t>(i, 1), x.size() - 1);
			double t = (v - x[i - 1]) / (x[i] - x[i - 1]);
			c.near(r, y[i - 1] + t * (y[i] - y[i - 1]), 1e-11, 1e-11 * big, "linear interpolation");
		}
		c.near((*h)(v), r, 0, tol, "the other object at its own history");
		if(k > 1)
		{
			std::unique_ptr<Interpolation> fresh = make(g, x, y, order, arrays);
			c.near((*fresh)(v), r, 0, tol, "a fresh object");
		}
	}
}

LAW(local, 2000, 100000,
	"moving one point changes an interpolation of the given order only within order + 1 intervals of it")
{
	Quiet q;
	int order = g.i(1, 4), n = g.i(2 * order + 4, 24), j = g.i(0, n - 1);
	std::vector<double> x = abscissae(g, n), y;
	for(int i = 0; i < n; ++i)
		y.push_back(g.coord(10));
	std::vector<double> z = y;
	z[j] += g.slogu(0.1, 10);
	c.desc << n << " points, order " << order << " moved " << j;
	c.nontrivial();
	std::unique_ptr<Interpolation> a = make(g, x, y, order, false), b = make(g, x, z, order, false);
	for(int m = 0; m < 30; ++m)
	{
		int i = g.i(0, n - 2);
		double v = x[i] + g.unit() * (x[i + 1] - x[i]);
		if(i + 1 + order + 1 < j || j + order + 2 < i)
			c.near((*b)(v), (*a)(v), 0, 1e-9 * std::pow(4.0, order) * 20, "far from the point");
	}
}

LAW(equal, 3000, 150000,
	"with equally spaced points interpolation is linear between neighbours, passes through every point including the last, and continues the end intervals outside")
{
	int n = g.i(2, 20);
	double x0 = g.coord(5), dx = g.logu(1e-3, 3);
	if(g.chance(1, 3))
		dx = 1.0 / g.i(1, 1000);
	std::vector<double> y;
	for(int i = 0; i < n; ++i)
		y.push_back(g.coord(10));
	Interpolation f(y, x0, dx, g.i(1, 3));
	c.desc << n << " points from " << x0 << " by " << dx;
	c.nontrivial(n > 2);
	double big = 10, tol = 1e-9 * big * (1 + std::fabs(x0) / dx);
	for(int m = 0; m < 30; ++m)
	{
		double t = g.chance(1, 3) ? g.i(0, n - 1) : g.chance(1, 4) ? g.real(-2, n + 1) : g.real(0, n - 1);
		double v = t == n - 1 && g.b() ? x0 + (n - 1) * dx : x0 + t * dx;
		int i = std::min(std::max((int) std::floor(t), 0), n - 2);
		c.near(f(v), y[i] + (t - i) * (y[i + 1] - y[i]), 0, tol, "value at " + std::to_string(t));
	}
}
