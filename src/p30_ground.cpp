// P30: ground motion gives the supports displacements with the prescribed correlation, and they move exactly what they carry.
#include "mlib.h"
#include "geo.h"
#include <random>
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "SupportStructure.h"
#include "SequenceFrame.h"
#include "ComponentFrame.h"
#include "AcceleratorSupport.h"
#include "ATL2D.h"
#include "SimpleATL.h"
#include "RandomNG.h"
#include <fstream>
#include <unistd.h>
using namespace ml;

pbt::Info pbt::info = {"P30",
	"Lists of 1-10 supports at any places in the plane (lines, clusters, coincident, behind the origin), any A, reference point, mode, "
	"vibration, seed and sequence of up to 400 steps, resets and reseedings; the eigensystem written to files and read back; models of "
	"up to 12 elements on girders and mounts, also nested. Non-trivial: at least two supports that move.",
	"Displacements are whitened by the prescribed covariance and judged as standard normal numbers at about 1e-9; only vertical motion "
	"is modelled by the code. Whether a vibration may be combined with the increment mode of ATL2D is not specified and not generated. "
	"The lengths of girders do not change with the offsets, so only offsets across straight girders are judged here (P06 has bent ones)."};

namespace
{
struct Sup
{
	std::vector<std::unique_ptr<AcceleratorSupport> > s;
	std::vector<double> arc, x, z;
	AcceleratorSupportList list;
};
void supports(Gen& g, Ctx& c, Sup& o, int lo = 1)
{
	int n = g.len(lo, 10);
	int shape = g.i(0, 3);
	double size = g.pick({1.0, 100.0, 1e4});
	for(int i = 0; i < n; ++i)
	{
		double x, z, s = size * (g.chance(1, 5) ? g.sym(1) : g.unit());
		if(i && g.chance(1, 10))
			s = o.arc[g.raw(i - 1)];
		if(shape == 0)       // a line along z
			x = 0, z = s;
		else if(shape == 1)  // a ring
			x = size * (1 - std::cos(2 * pi * s / size)), z = size * std::sin(2 * pi * s / size);
		else
			x = size * g.sym(1), z = size * g.sym(1);
		if(i && g.chance(1, 12))
		{
			int k = g.raw(i - 1);
			x = o.x[k];
			z = o.z[k];
		}
		o.s.emplace_back(new AcceleratorSupport);
		o.s.back()->SetPosition(s, x, z);
		o.arc.push_back(s);
		o.x.push_back(x);
		o.z.push_back(z);
		o.list.push_back(o.s.back().get());
		c.desc << s << "(" << x << "," << z << ") ";
	}
}
std::vector<double> heights(const Sup& s)
{
	std::vector<double> y;
	for(auto& p : s.s)
		y.push_back(p->GetOffset().y);
	return y;
}
// standard normal numbers, collected over a case
struct Normals
{
	std::vector<double> z;
	void judge(Ctx& c, const std::string& what)
	{
		size_t n = z.size();
		if(n < 50)
			return;
		double m = 0, v = 0, co = 0;
		for(size_t i = 0; i < n; ++i)
		{
			m += z[i] / n;
			v += z[i] * z[i] / n;
			if(i)
				co += z[i] * z[i - 1] / n;
		}
		c.near(m, 0, 0, 6.2 / std::sqrt(n), what + ": mean of the normalised displacements");
		c.near(v, 1, 0, 6.5 * std::sqrt(2.0 / n) + 40.0 / n, what + ": variance of the normalised displacements");
		c.near(co, 0, 0, 6.5 / std::sqrt(n) + 40.0 / n, what + ": correlation of consecutive normalised displacements");
		std::sort(z.begin(), z.end());
		double d = 0;
		for(size_t i = 0; i < n; ++i)
		{
			double F = 0.5 * std::erfc(-z[i] / std::sqrt(2.0));
			d = std::max(d, std::max(std::fabs(F - double(i) / n), std::fabs(F - double(i + 1) / n)));
		}
		c.check(d < 3.3 / std::sqrt(n), what + ": distribution of the normalised displacements");
	}
};
typedef std::vector<std::vector<double> > Mat;
// Cholesky factor of C with pivots below tol treated as dependent (row of zeros in the new direction)
struct Chol
{
	Mat L;
	std::vector<bool> indep;
	Chol(const Mat& C, double tol)
	{
		size_t n = C.size();
		L.assign(n, std::vector<double>(n, 0));
		indep.assign(n, false);
		for(size_t j = 0; j < n; ++j)
		{
			double d = C[j][j];
			for(size_t k = 0; k < j; ++k)
				d -= L[j][k] * L[j][k];
			indep[j] = d > tol;
			if(!indep[j])
				continue;
			L[j][j] = std::sqrt(d);
			for(size_t i = j + 1; i < n; ++i)
			{
				double s = C[i][j];
				for(size_t k = 0; k < j; ++k)
					s -= L[i][k] * L[j][k];
				L[i][j] = s / L[j][j];
			}
		}
	}
	// the normals behind y; the dependent ones are returned as residuals
	void whiten(std::vector<double> y, std::vector<double>& z, double& resid) const
	{
		resid = 0;
		for(size_t j = 0; j < y.size(); ++j)
		{
			if(!indep[j])
			{
				resid = std::max(resid, std::fabs(y[j]));
				continue;
			}
			double t = y[j] / L[j][j];
			z.push_back(t);
			for(size_t i = j; i < y.size(); ++i)
				y[i] -= L[i][j] * t;
		}
	}
};
double dist(double a, double b, double c, double d)
{
	return std::hypot(a - c, b - d);
}
// the covariance of the displacements for unit A*T: Brownian in distance, pinned at the reference point
Mat covariance(const Sup& s, double rx, double rz)
{
	size_t n = s.s.size();
	Mat C(n, std::vector<double>(n));
	for(size_t i = 0; i < n; ++i)
		for(size_t j = 0; j < n; ++j)
			C[i][j] = (dist(s.x[i], s.z[i], rx, rz) + dist(s.x[j], s.z[j], rx, rz) - dist(s.x[i], s.z[i], s.x[j], s.z[j])) / 2;
	return C;
}
double scale(const Mat& C)
{
	double m = 1e-300;
	for(auto& r : C)
		for(double x : r)
			m = std::max(m, std::fabs(x));
	return m;
}
}

LAW(atl2d, 4000, 15000, "the displacements of any two supports differ by A*T times their distance in the mean square, and grow with time as stated")
{
	Sup s;
	supports(g, c, s);
	size_t n = s.s.size();
	double rx = 0, rz = 0;
	switch(g.i(0, 2))
	{
	case 0:
		rx = s.x[0];
		rz = s.z[0];
		break;
	case 1:
		rx = g.sym(1000);
		rz = g.sym(1000);
	}
	double A = g.logu(1e-18, 1e-3), vib = 0;
	bool inc = g.b();
	RandomNG::init(g.i(0, 1000));
	bool def = rx == 0 && rz == 0 && g.b();
	std::unique_ptr<ATL2D> atl(def ? new ATL2D(A, s.list) : new ATL2D(A, s.list, Point2D(rx, rz)));
	if(g.b())
		c.check(atl->SetATLMode(inc ? ATL2D::increment : ATL2D::absolute), "mode");
	else
		inc = false;
	if(!inc && g.chance(1, 3))
	{
		vib = std::sqrt(A) * g.logu(1e-2, 1e3);
		c.check(atl->SetVibration(vib), "vibration in the absolute mode");
	}
	if(inc)
		c.check(!atl->SetVibration(1), "vibration in the increment mode is refused");
	c.desc << "ref " << rx << "," << rz << " A=" << A << (inc ? " increment" : " absolute") << " vibration " << vib;
	Mat C = covariance(s, rx, rz);
	double sc = scale(C);
	Chol ch(C, 1e-9 * sc);
	int steps = g.i(1, 400);
	double t = 0;
	std::vector<double> y0(n, 0);
	Normals z;
	double dt0 = g.logu(1e-3, 1e6);
	bool horizontal = inc && g.b();
	// many first steps after a reset, in which the start of the clock shows
	bool fresh = g.chance(1, 3);
	if(horizontal)
		for(auto& p : s.s)
			p->SetOffset(1e-5, 0, -2e-5);
	bool moved = false;
	for(int k = 0; k < steps; ++k)
	{
		double dt = g.chance(1, 20) ? 0 : dt0 * (g.chance(1, 4) ? g.real(0.1, 5) : 1);
		if(fresh ? g.b() : g.chance(1, 60))
		{
			atl->Reset();
			t = 0;
			horizontal = false;
			std::fill(y0.begin(), y0.end(), 0);
			c.eq(atl->GetTime(), 0.0, "time after a reset");
			for(double y : heights(s))
				c.eq(y, 0.0, "offset after a reset");
		}
		t += dt;
		c.near(atl->DoStep(dt), t, 1e-12, 0, "returned time");
		c.near(atl->GetTime(), t, 1e-12, 0, "time");
		std::vector<double> y = heights(s), d(n);
		double T = inc ? dt : t, norm = std::sqrt(A * T);
		for(size_t i = 0; i < n; ++i)
		{
			c.check(std::isfinite(y[i]), "support " + std::to_string(i) + " is at " + std::to_string(y[i]));
			d[i] = inc ? y[i] - y0[i] : y[i];
			c.eq(s.s[i]->GetOffset().x, horizontal ? 1e-5 : 0.0, "horizontal offset");
			c.eq(s.s[i]->GetOffset().z, horizontal ? -2e-5 : 0.0, "longitudinal offset");
			moved |= d[i] != 0;
		}
		double big = 0;
		for(double v : y)
			big = std::max(big, std::fabs(v));
		y0 = y;
		if(vib > 0)
		{
			// independent noise on top of the motion
			Mat N = C;
			for(size_t i = 0; i < n; ++i)
				for(size_t j = 0; j < n; ++j)
					N[i][j] = C[i][j] * A * T + (i == j ? vib * vib : 0);
			double r;
			Chol(N, 0).whiten(d, z.z, r);
			continue;
		}
		if(T == 0)
		{
			for(double v : d)
				c.eq(v, 0.0, "motion without time");
			continue;
		}
		for(double& v : d)
			v /= norm;
		double r;
		std::vector<double> w;
		ch.whiten(d, w, r);
		// rounding of the sums limits what small steps can tell
		if(big * 1e-16 / norm < 1e-6 * std::sqrt(1e-9 * sc))
			z.z.insert(z.z.end(), w.begin(), w.end());
		c.check(r <= 1e-3 * std::sqrt(sc) + big * 1e-14 / norm, "supports whose motion is determined by the others (coincident, at the reference)");
	}
	z.judge(c, "ATL2D");
	c.nontrivial(moved && n > 1);
}

LAW(simple, 4000, 15000, "successive supports move apart by A*T times their distance along the line, vibration is added once")
{
	Sup s;
	supports(g, c, s);
	size_t n = s.s.size();
	double A = g.logu(1e-18, 1e-3), vib = g.chance(1, 3) ? std::sqrt(A) * g.logu(1e-2, 1e3) : 0;
	RandomNG::init(g.i(0, 1000));
	c.desc << "A=" << A << " vibration " << vib;
	std::unique_ptr<SimpleATL> atl(vib == 0 && g.b() ? new SimpleATL(A, s.list) : new SimpleATL(A, s.list, vib));
	std::vector<size_t> order(n);
	for(size_t i = 0; i < n; ++i)
		order[i] = i;
	std::stable_sort(order.begin(), order.end(), [&](size_t a, size_t b)
		{
			return s.arc[a] < s.arc[b];
		});
	int steps = g.i(1, 400);
	double t = 0, dt0 = g.logu(1e-3, 1e6);
	Normals z;
	std::vector<double> y0(n, 0);
	bool moved = false;
	for(int k = 0; k < steps; ++k)
	{
		double dt = g.chance(1, 20) ? 0 : dt0 * (g.chance(1, 4) ? g.real(0.1, 5) : 1);
		if(g.chance(1, 60))
		{
			atl->Reset();
			t = 0;
			std::fill(y0.begin(), y0.end(), 0);
			for(double y : heights(s))
				c.eq(y, 0.0, "offset after a reset");
		}
		t += dt;
		c.near(atl->DoStep(dt), t, 1e-12, 0, "returned time");
		c.near(atl->GetTime(), t, 1e-12, 0, "time");
		std::vector<double> y = heights(s);
		double last = 0;
		for(size_t i = 0; i < n; ++i)
		{
			size_t a = order[i];
			c.check(std::isfinite(y[a]), "support " + std::to_string(a) + " is at " + std::to_string(y[a]));
			moved |= y[a] != 0;
			if(vib > 0)
				continue;
			// the growth of the difference to the support before (the first two need not be judged where the origin is between them)
			double ds = i ? s.arc[a] - s.arc[order[i - 1]] : std::fabs(s.arc[a]);
			double d = y[a] - y0[a] - last, sig = std::sqrt(A * dt * ds);
			last = y[a] - y0[a];
			if(sig == 0)
				c.near(d, 0, 0, 1e-14 * std::fabs(y[a]), "supports at one place, or no time");
			else if(std::fabs(y[a]) * 1e-16 < 1e-6 * sig)
				z.z.push_back(d / sig);
		}
		if(vib > 0)
		{
			// the covariance of the heights, which have the motion since the reset and the noise of this step
			Mat N(n, std::vector<double>(n));
			double o = std::fabs(s.arc[order[0]]);
			for(size_t i = 0; i < n; ++i)
				for(size_t j = 0; j < n; ++j)
					N[i][j] = A * t * (o + std::min(s.arc[i], s.arc[j]) - s.arc[order[0]]) + (i == j ? vib * vib : 0);
			double r;
			std::vector<double> w;
			Chol(N, 0).whiten(y, w, r);
			// the motions are correlated from step to step: one step in a sequence between resets
			if(k == steps - 1)
				z.z = w;
		}
		y0 = y;
	}
	z.judge(c, "SimpleATL");
	c.nontrivial(moved && n > 1);
}

LAW(vibration, 600, 4000, "the vibration of SimpleATL is drawn afresh in each step and has the size given")
{
	Sup s;
	supports(g, c, s);
	double vib = g.logu(1e-9, 1e-3);
	RandomNG::init(g.i(0, 1000));
	SimpleATL atl(0, s.list, vib);
	c.desc << "vibration " << vib;
	Normals z;
	for(int k = g.i(5, 300); k > 0; --k)
	{
		atl.DoStep(g.chance(1, 5) ? 0 : 1);
		for(double y : heights(s))
			z.z.push_back(y / vib);
	}
	z.judge(c, "vibration");
	c.nontrivial(s.s.size() > 1);
}

LAW(seeds, 4000, 20000, "the motion is reproducible from the seed and scales with A and time")
{
	Sup s;
	supports(g, c, s);
	bool simple = g.b(), inc = g.b();
	unsigned seed = g.i(0, 5), other = g.i(6, 1000);
	int steps = g.i(1, 8);
	double A = g.logu(1e-12, 1e-3), f = g.pick({1.0, 4.0, 0.25}), ft = g.pick({1.0, 9.0});
	c.desc << (simple ? "simple " : inc ? "increment " : "absolute ") << "seed " << seed << " A=" << A << " x" << f << " time x" << ft;
	RandomNG::init(g.i(0, 1000));
	std::vector<double> h[3];
	auto go = [&](auto& atl, std::vector<double>& out, double fac)
		{
			for(int k = 0; k < steps; ++k)
			{
				atl.DoStep((k + 1) * fac);
				for(double y : heights(s))
					out.push_back(y);
			}
		};
	auto all = [&](auto make)
		{
			auto a = make(A);
			c.eq(a->GetRandomSeed(), 0u, "initial seed");
			a->SetRandomSeed(seed);
			c.eq(a->GetRandomSeed(), seed, "seed");
			go(*a, h[0], 1);
			a->Reset();
			if(g.b())
				a->ResetRandomSeed();
			else
				a->SetRandomSeed(seed);
			a.reset();
			for(auto& p : s.s)
				p->Reset();
			auto b = make(A * f);
			b->SetRandomSeed(seed);
			if(g.b())
			{
				b->DoStep(3);
				b->Reset();
				b->ResetRandomSeed();
			}
			go(*b, h[1], ft);
			b->Reset();
			b->SetRandomSeed(other);
			go(*b, h[2], ft);
		};
	if(simple)
		all([&](double a) { return std::unique_ptr<SimpleATL>(new SimpleATL(a, s.list)); });
	else
		all([&](double a)
			{
				std::unique_ptr<ATL2D> p(new ATL2D(a, s.list));
				p->SetATLMode(inc ? ATL2D::increment : ATL2D::absolute);
				return p;
			});
	double big = 0;
	for(double y : h[0])
		big = std::max(big, std::fabs(y));
	bool differ = false;
	for(size_t i = 0; i < h[0].size(); ++i)
	{
		c.near(h[1][i], h[0][i] * std::sqrt(f * ft), 0, 1e-12 * big * std::sqrt(f * ft), "the same seed, A and time scaled");
		differ |= std::fabs(h[2][i] - h[1][i]) > 1e-9 * big;
	}
	c.check(differ || big == 0, "another seed gives another motion");
	c.nontrivial(big > 0 && s.s.size() > 1);
}

LAW(files, 3000, 20000, "the eigensystem is that of the covariance, and survives its files; offsets are recorded for every support")
{
	Sup s;
	supports(g, c, s);
	size_t n = s.s.size();
	double rx = g.b() ? 0 : g.sym(100), rz = g.b() ? 0 : g.sym(100), A = g.logu(1e-10, 1e-3);
	c.desc << "ref " << rx << "," << rz << " A=" << A;
	RandomNG::init(g.i(0, 1000));
	ATL2D atl(A, s.list, Point2D(rx, rz));
	Mat C = covariance(s, rx, rz);
	double sc = scale(C);
	{
		std::ofstream v("evec"), w("eval");
		atl.RecordEigenSystem(&v, &w);
	}
	{
		std::ifstream v("evec"), w("eval");
		Mat E(n, std::vector<double>(n));
		std::vector<double> l(n);
		for(auto& r : E)
			for(double& x : r)
				c.check(bool(v >> x), "eigenvectors are complete");
		for(double& x : l)
			c.check(bool(w >> x), "eigenvalues are complete");
		for(size_t i = 0; i < n; ++i)
			for(size_t j = 0; j < n; ++j)
			{
				double a = 0;
				for(size_t k = 0; k < n; ++k)
					a += E[i][k] * l[k] * E[j][k];
				c.near(a, C[i][j], 0, 3e-5 * n * sc, "covariance of the eigensystem");
			}
	}
	std::vector<double> y[2];
	atl.SetATLMode(ATL2D::increment);
	atl.SetRandomSeed(3);
	atl.DoStep(2);
	y[0] = heights(s);
	std::ostringstream os;
	os.precision(9);
	auto fl = os.flags();
	atl.RecordOffsets(os);
	c.check(os.precision() == 9 && os.flags() == fl, "the format of the stream is restored");
	std::istringstream is(os.str());
	for(size_t i = 0; i < n; ++i)
	{
		double t, a, x, z, h;
		c.check(bool(is >> t >> a >> x >> z >> h), "five columns");
		c.near(t, 2, 1e-4, 0, "time");
		c.near(a, s.arc[i], 1e-4, 0, "arc");
		c.near(x, s.x[i], 1e-4, 0, "x");
		c.near(z, s.z[i], 1e-4, 0, "z");
		c.near(h, y[0][i], 1e-4, 0, "offset");
	}
	std::string rest;
	c.check(!(is >> rest), "one line for each support");
	for(auto& p : s.s)
		p->Reset();
	{
		std::ifstream v("evec"), w("eval");
		ATL2D again(A, s.list, Point2D(rx, rz), &v, &w);
		again.SetATLMode(ATL2D::increment);
		again.SetRandomSeed(3);
		again.DoStep(2);
	}
	y[1] = heights(s);
	unlink("evec");
	unlink("eval");
	for(size_t i = 0; i < n; ++i)
		// six digits are written, small eigenvalues are inaccurate
		c.near(y[1][i], y[0][i], 0, std::sqrt(2 * A * sc) * 1e-3, "motion after reading the eigensystem from files");
	SimpleATL sa(A, s.list);
	sa.DoStep(1);
	std::ostringstream so;
	sa.RecordOffsets(so);
	std::istringstream si(so.str());
	std::vector<double> rec, want;
	double x, h, z;
	while(si >> x >> h >> z)
	{
		c.eq(x, 0.0, "x offset");
		c.eq(z, 0.0, "z offset");
		rec.push_back(h);
	}
	std::vector<double> now = heights(s);
	std::vector<size_t> order(n);
	for(size_t i = 0; i < n; ++i)
		order[i] = i;
	std::stable_sort(order.begin(), order.end(), [&](size_t a, size_t b)
		{
			return s.arc[a] < s.arc[b];
		});
	c.eq(rec.size(), n, "records of SimpleATL");
	for(size_t i = 0; i < n; ++i)
		c.near(rec[i], now[order[i]], 1e-4, 0, "recorded offset along the line");
	c.nontrivial(n > 1 && now.back() != 0);
}

// elements on girders, mounts and frames within each other, on a straight line
namespace
{
struct Carrier
{
	int kind = 0;                  // 0 frame, 1 mount, 2 girder
	SupportStructure* s = nullptr;
	double a = 0, b = 0;           // ends
	int first = -1;                // first support in the list
};
struct Item
{
	AcceleratorComponent* c;
	double a, b;
	std::vector<int> on;
};
struct Rig
{
	std::vector<Carrier> car;
	std::vector<Item> item;
	std::vector<int> open, bysup;
	double s = 0;
	int nsup = 0;
};
void fill(Gen& g, Ctx& c, AcceleratorModelConstructor& m, Rig& r, int n, int depth)
{
	for(int k = 0; k < n; ++k)
		if(depth < 3 && g.chance(1, 2))
		{
			Carrier x;
			x.kind = g.pick({0, 1, 2, 2});
			x.a = r.s;
			std::string name = "F" + std::to_string(r.car.size());
			SequenceFrame* f;
			if(x.kind == 0)
				f = new SequenceFrame(name);
			else
				f = x.s = x.kind == 1 ? static_cast<SupportStructure*>(new SimpleMount(name)) : new GirderMount(name);
			if(x.kind)
			{
				x.first = r.nsup;
				r.nsup += x.kind;
			}
			int id = r.car.size();
			r.car.push_back(x);
			r.open.push_back(id);
			c.desc << (x.kind == 0 ? "frame[ " : x.kind == 1 ? "mount[ " : "girder[ ");
			m.NewFrame(f);
			fill(g, c, m, r, g.i(1, 3), depth + 1);
			m.EndFrame();
			c.desc << "] ";
			r.open.pop_back();
			r.car[id].b = r.s;
		}
		else
		{
			double L = g.real(0.3, 3);
			std::string name = "E" + std::to_string(r.item.size());
			AcceleratorComponent* e = g.b() ? static_cast<AcceleratorComponent*>(new Drift(name, L)) : new Quadrupole(name, L, 1);
			m.AppendComponent(*e);
			r.item.push_back({e, r.s, r.s + L, r.open});
			r.s += L;
			c.desc << L << " ";
		}
}
struct Middles: public FrameTraverser
{
	std::map<const AcceleratorComponent*, Transform3D> at;
	void ActOn(LatticeFrame* f) override
	{
		if(auto* x = dynamic_cast<ComponentFrame*>(f))
			at[&x->GetComponent()] = x->GetPhysicalTransform();
	}
};
}

LAW(carry, 4000, 60000, "elements move by the interpolated offsets of everything that carries them, and no other element moves")
{
	AcceleratorModelConstructor mc;
	mc.NewModel();
	Rig r;
	fill(g, c, mc, r, g.i(1, 4), 0);
	std::unique_ptr<AcceleratorModel> m(mc.GetModel());
	AcceleratorSupportList sup;
	c.eq(m->GetAcceleratorSupports(sup), (size_t) r.nsup, "number of supports");
	c.eq(sup.size(), (size_t) r.nsup, "list of supports");
	// where they stand
	for(auto& x : r.car)
		if(x.kind == 1)
			c.near(sup[x.first]->GetArcPosition(), (x.a + x.b) / 2, 0, 1e-11, "position of a mount");
		else if(x.kind == 2)
		{
			c.near(sup[x.first]->GetArcPosition(), x.a, 0, 1e-11, "position of the first support of a girder");
			c.near(sup[x.first + 1]->GetArcPosition(), x.b, 0, 1e-11, "position of the second support of a girder");
		}
	Middles before;
	m->GetGlobalFrame().Traverse(before);
	RandomNG::init(g.i(0, 1000));
	std::unique_ptr<ATL2D> atl;
	std::unique_ptr<SimpleATL> sim;
	if(r.nsup && g.b())
	{
		atl.reset(new ATL2D(1e-12, sup));
		atl->SetATLMode(g.b() ? ATL2D::increment : ATL2D::absolute);
	}
	else if(r.nsup)
		sim.reset(new SimpleATL(1e-12, sup));
	std::vector<std::array<double, 2> > off(r.nsup, std::array<double, 2>{0, 0});
	int changes = 0;
	for(int k = r.nsup ? g.i(0, 5) : 0; k > 0; --k)
	{
		int i = g.raw(r.nsup - 1);
		double dx = g.coord(1e-5), dy = g.coord(1e-5);
		switch(g.i(0, 4))
		{
		case 0:
			sup[i]->SetOffset(dx, dy, 0);
			off[i] = {{dx, dy}};
			break;
		case 1:
			sup[i]->IncrementOffset(dx, dy, 0);
			off[i][0] += dx;
			off[i][1] += dy;
			break;
		case 2:
			sup[i]->Reset();
			off[i] = {{0, 0}};
			break;
		case 3:
			if(atl)
				atl->DoStep(g.real(0.1, 10));
			else
				sim->DoStep(g.real(0.1, 10));
			for(int j = 0; j < r.nsup; ++j)
				off[j] = {{sup[j]->GetOffset().x, sup[j]->GetOffset().y}};
			break;
		default:
			if(atl)
				atl->Reset();
			else
				sim->Reset();
			for(auto& o : off)
				o = {{0, 0}};
		}
		++changes;
		if(g.chance(1, 3))
		{
			// states in between are seen too
			Middles t;
			m->GetGlobalFrame().Traverse(t);
		}
	}
	for(int j = 0; j < r.nsup; ++j)
	{
		c.near(sup[j]->GetOffset().x, off[j][0], 0, 1e-18, "offset");
		c.near(sup[j]->GetOffset().y, off[j][1], 0, 1e-18, "offset");
	}
	Middles after;
	m->GetGlobalFrame().Traverse(after);
	bool any = false;
	for(auto& e : r.item)
	{
		double s = (e.a + e.b) / 2, want[2] = {0, 0}, slope[2] = {0, 0};
		for(int id : e.on)
		{
			const Carrier& x = r.car[id];
			for(int d = 0; d < 2; ++d)
				if(x.kind == 1)
					want[d] += off[x.first][d];
				else if(x.kind == 2)
				{
					double u = (s - x.a) / (x.b - x.a);
					want[d] += (1 - u) * off[x.first][d] + u * off[x.first + 1][d];
					slope[d] += (off[x.first + 1][d] - off[x.first][d]) / (x.b - x.a);
				}
		}
		auto& t0 = before.at.at(e.c);
		auto& t = after.at.at(e.c);
		bool none = want[0] == 0 && want[1] == 0 && slope[0] == 0 && slope[1] == 0;
		any |= !none;
		// offsets of 1e-5 tilt by less than 1e-3 and move along by second order
		double tol = none ? 1e-13 : 3e-8;
		c.near(t.X().x - t0.X().x, want[0], 0, tol, e.c->GetName() + " moves in x");
		c.near(t.X().y - t0.X().y, want[1], 0, tol, e.c->GetName() + " moves in y");
		c.near(t.X().z - t0.X().z, 0, 0, tol, e.c->GetName() + " moves in z");
		// direction of its axis
		Vector3D z = t.R().inv()(Vector3D(0, 0, 1));
		c.near(z.x, slope[0], 0, tol, e.c->GetName() + " turns in x");
		c.near(z.y, slope[1], 0, tol, e.c->GetName() + " turns in y");
	}
	c.nontrivial(any && changes > 0);
}
