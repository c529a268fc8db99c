// P25: wakefields act causally, linearly in charge, and conserve the total momentum change.
// Reference: direct summation of the wakes of the slices ahead (behind for CSR), after a binning of our own.
#include "mlib.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "WakeFieldProcess.h"
#include "WakePotentials.h"
#include "CollimatorWakeProcess.h"
#include "CollimatorWakePotentials.h"
#include "CouplerWakeFieldProcess.h"
#include "CombinedWakeRF.h"
#include "ResistiveWakePotentials.h"
#include "CollimatorTable.h"
#include "CollimatorPotentialModels.h"
#include "ParticleBunchUtilities.h"
#include "TWRFStructure.h"
#include "Collimator.h"
#include <fstream>
#include <iostream>
using namespace ml;

pbt::Info pbt::info = {"P25",
	"Bunches of up to 200 particles of any position, length, charge and momentum, with up to 1500 slices, cut at any number of standard "
	"deviations; wakes that oscillate, decay, grow and jump; elements with plain, CSR, collimator and coupler wakes in lines with several "
	"wake processes and divided steps. Non-trivial: a particle is kicked.",
	"Particles are not on the boundary of a slice; a cut leaves at least one particle; bunches without length are not generated."};

namespace
{
const double QE = 1.602176634e-19;
struct Silent
{
	std::ostringstream s;
	std::streambuf* old;
	std::streambuf* olde;
	Silent() : old(std::cout.rdbuf(s.rdbuf())), olde(std::cerr.rdbuf(s.rdbuf())) {}
	~Silent() { std::cout.rdbuf(old); std::cerr.rdbuf(olde); }
};
// a function of the distance, with its own parameters
struct Fn
{
	int kind = 0;
	double A = 0, s = 1;
	double operator()(double z) const
	{
		switch(kind)
		{
		case 0:
			return A * std::exp(-z / s);
		case 1:
			return A * std::cos(z / s);
		case 2:
			return A * std::sin(z / s);
		case 3:
			return z < s ? A : 0;
		case 4:
			return A * z / s;
		case 5:
			return A / std::sqrt(0.1 + std::fabs(z) / s);
		case 6:
			return A;
		default:
			return 0;
		}
	}
};
Fn fn(Gen& g, double scale, double amp)
{
	Fn f;
	f.kind = g.i(0, 7);
	f.A = g.chance(1, 3) ? amp : amp * g.slogu(1e-3, 1e3);
	f.s = scale * g.logu(0.1, 10);
	return f;
}
const double BAD = 1e300;   // an argument that the model excludes
struct Wake: public WakePotentials
{
	Fn l, t;
	bool isCSR;
	Wake(Fn a, Fn b, bool C) : l(a), t(b), isCSR(C) { csr = C; }
	double Wlong(double z) const override
	{
		// CSR: the charges behind
		return (isCSR ? z < 0 : z > 0) ? l(std::fabs(z)) : BAD;
	}
	double Wtrans(double z) const override { return z > 0 ? t(z) : BAD; }
};
struct CollWake: public CollimatorWakePotentials
{
	std::vector<Fn> l, t;
	CollWake(int m) : CollimatorWakePotentials(m) {}
	double Wlong(double) const override { return 1; }
	double Wtrans(double) const override { return 1; }
	double Wlong(double z, int m) const override { return z >= 0 ? l.at(m)(z) : BAD; }
	double Wtrans(double z, int m) const override { return z >= 0 ? t.at(m)(z) : BAD; }
};
struct CoupWake: public CombinedWakeRF
{
	Fn l, t;
	double w[6], r[6];
	double Wlong(double z) const override { return z > 0 ? l(z) : BAD; }
	double Wtrans(double z) const override { return z > 0 ? t(z) : BAD; }
	Vector2D Wxy(double x, double y) const override { return Vector2D(w[0] + w[1] * x + w[2] * y, w[3] + w[4] * x + w[5] * y); }
	Vector2D CouplerRFKick(double x, double y, double phi) const override
	{
		return Vector2D((r[0] + r[1] * x) * std::cos(phi), (r[2] + r[3] * y) * std::sin(phi) + r[4]);
	}
};
struct P
{
	V6 v;
	long id;
};
struct Ref
{
	double P0, q;       // q: charge of a macroparticle
	std::vector<P> p;
};
// the slices of the bunch; a truncation changes the bunch
struct Slices
{
	double zmin, dz;
	size_t n;
	std::vector<std::vector<size_t> > in;
	bool ok = true;     // no particle on a boundary, not empty
	size_t lost = 0;
};
Slices slice(Ref& b, size_t n, double nsig)
{
	Slices s;
	s.n = n;
	long double m = 0, v = 0;
	for(auto& p : b.p)
		m += p.v[4];
	m /= b.p.size();
	for(auto& p : b.p)
		v += (p.v[4] - m) * (p.v[4] - m);
	double sig = std::sqrt(double(v / b.p.size()));
	s.zmin = double(m) - nsig * sig;
	s.dz = 2 * nsig * sig / n;
	// bunches without length are not judged
	if(!(sig > 1e-9) || !(sig > 1e-6 * std::fabs(double(m))))
	{
		s.ok = false;
		return s;
	}
	double Q = b.q * b.p.size();
	std::vector<P> keep;
	std::vector<size_t> where;
	double margin = 1e-7 + 1e-13 * (std::fabs(double(m)) / s.dz);
	for(auto& p : b.p)
	{
		double u = (p.v[4] - s.zmin) / s.dz;
		if(std::fabs(u - std::round(u)) < margin && u > -0.5 && u < n + 0.5)
			s.ok = false;
		if(u < 0 || u >= n)
		{
			++s.lost;
			continue;
		}
		keep.push_back(p);
		where.push_back(size_t(u));
	}
	b.p = keep;
	if(keep.empty())
	{
		s.ok = false;
		return s;
	}
	s.in.resize(n);
	for(size_t i = 0; i < keep.size(); ++i)
		s.in[std::min(where[i], n - 1)].push_back(i);
	if(s.lost)
		b.q = Q / keep.size();
	return s;
}
// the momentum changes of the particles and the sum of the magnitudes of the contributions
struct Kick
{
	std::vector<double> z, x, y;
	double mz = 0, mx = 0, my = 0;      // largest sum of magnitudes (before cancellation)
};
void add_ref(Ref& b, const Kick& k, bool adjust)
{
	double m = 0;
	for(size_t i = 0; i < b.p.size(); ++i)
	{
		V6& v = b.p[i].v;
		double d = -k.z[i] / b.P0;
		v[5] += d;
		m += d;
		v[1] = (v[1] + k.x[i] / b.P0) / (1 + d);
		v[3] = (v[3] + k.y[i] / b.P0) / (1 + d);
	}
	if(adjust)
	{
		m /= b.p.size();
		for(auto& p : b.p)
			p.v[5] = (p.v[5] - m) / (1 + m);
		b.P0 *= 1 + m;
	}
}
// derivative of a quadratic least squares fit: sum k h / sum k^2
double slope(const std::vector<double>& h, long j, int w)
{
	double s = 0, d = 0;
	for(int k = -w; k <= w; ++k)
	{
		d += double(k) * k;
		if(j + k >= 0 && j + k < long(h.size()))
			s += k * h[j + k];
	}
	return d > 0 ? s / d : 0;
}
Kick plain(const Ref& b, const Slices& s, double L, const Fn& l, const Fn& t, bool transverse, bool csr, int width)
{
	size_t n = s.n;
	double Q = std::fabs(b.q) * b.p.size() * QE * 1e-9;      // in GeV
	std::vector<double> f(n), cx(n), cy(n), wz(n + 1), wx(n + 1), wy(n + 1);
	Kick k;
	for(size_t i = 0; i < n; ++i)
	{
		f[i] = double(s.in[i].size()) / b.p.size();
		for(size_t j : s.in[i])
		{
			cx[i] += b.p[j].v[0] / s.in[i].size();
			cy[i] += b.p[j].v[2] / s.in[i].size();
		}
	}
	for(size_t i = 0; i <= n; ++i)
	{
		double mz = 0, mx = 0, my = 0;
		for(size_t j = i; j < n; ++j)
		{
			double d = (j + 0.5 - i) * s.dz;
			if(!csr)
			{
				wz[i] += f[j] * l(d);
				mz += std::fabs(f[j] * l(d));
			}
			wx[i] += f[j] * t(d) * cx[j];
			wy[i] += f[j] * t(d) * cy[j];
			mx += std::fabs(f[j] * t(d) * cx[j]);
			my += std::fabs(f[j] * t(d) * cy[j]);
		}
		if(csr)
			for(size_t j = 1; j < i; ++j)
			{
				double a = slope(f, j, width) / s.dz * l((i - j - 0.5) * s.dz);
				wz[i] += a;
				mz += std::fabs(a);
			}
		wz[i] *= Q * L;
		wx[i] *= Q * L;
		wy[i] *= Q * L;
		k.mz = std::max(k.mz, mz * Q * L);
		k.mx = std::max(k.mx, mx * Q * L);
		k.my = std::max(k.my, my * Q * L);
	}
	k.z.resize(b.p.size());
	k.x.resize(b.p.size());
	k.y.resize(b.p.size());
	for(size_t i = 0; i < n; ++i)
		for(size_t j : s.in[i])
		{
			double u = (b.p[j].v[4] - s.zmin) / s.dz - i;
			k.z[j] = wz[i] + u * (wz[i + 1] - wz[i]);
			if(transverse)
			{
				k.x[j] = wx[i] + u * (wx[i + 1] - wx[i]);
				k.y[j] = wy[i] + u * (wy[i + 1] - wy[i]);
			}
		}
	if(!transverse)
		k.mx = k.my = 0;
	return k;
}
// r^m (cos, sin) of m theta
std::complex<double> power(double x, double y, int m)
{
	std::complex<double> r = 1;
	for(int i = 0; i < m; ++i)
		r *= std::complex<double>(x, y);
	return r;
}
void collimator(Ref& b, const Slices& s, const CollWake& w, int modes, bool transverse, Kick& scale)
{
	double a0 = std::fabs(b.q) * 0 + b.q * QE * 1e-9 / (4 * pi * 8.8541878128e-12);
	size_t n = s.n;
	std::vector<size_t> of(b.p.size());
	for(size_t i = 0; i < n; ++i)
		for(size_t j : s.in[i])
			of[j] = i;
	for(int m = 1; m <= modes; ++m)
	{
		std::vector<std::complex<double> > M(n), wt(n), wl(n);
		std::vector<double> at(n), al(n);
		for(size_t j = 0; j < b.p.size(); ++j)
			M[of[j]] += power(b.p[j].v[0], b.p[j].v[2], m);
		for(size_t i = 0; i < n; ++i)
			for(size_t j = i; j < n; ++j)
			{
				double t = w.t[m]((j - i) * s.dz), l = w.l[m]((j - i) * s.dz);
				wt[i] += t * M[j];
				wl[i] += l * M[j];
				at[i] += std::fabs(t) * std::abs(M[j]);
				al[i] += std::fabs(l) * std::abs(M[j]);
			}
		for(size_t k = 0; k < b.p.size(); ++k)
		{
			V6& v = b.p[k].v;
			size_t i = of[k];
			// potential Re(conj(W) z^m) and its gradient
			std::complex<double> g = double(m) * std::conj(wt[i]) * power(v[0], v[2], m - 1);
			double z = a0 * (std::conj(wl[i]) * power(v[0], v[2], m)).real();
			double x = a0 * g.real(), y = -a0 * g.imag();
			double d = -z / b.P0;
			v[5] += d;
			v[1] = (v[1] + (transverse ? x / b.P0 : 0)) / (1 + d);
			v[3] = (v[3] + (transverse ? y / b.P0 : 0)) / (1 + d);
			double r = std::hypot(v[0], v[2]);
			scale.mz += std::fabs(a0) * al[i] * std::pow(r, m);
			scale.mx += std::fabs(a0) * at[i] * m * std::pow(r, m - 1);
			scale.my = scale.mx;
		}
	}
}
Ref bunch(Gen& g, int nmin, int nmax)
{
	Ref b;
	b.P0 = g.pick({1.0, 45.6, g.logu(0.05, 7000)});
	b.q = g.pick({-1.0, 1.0}) * g.logu(1, 1e11);
	int n = g.len(nmin, nmax);
	double len = g.logu(1e-6, 1), z0 = g.chance(1, 3) ? 0 : len * g.sym(100), size = g.logu(1e-6, 1e-2);
	double off = g.chance(1, 2) ? 0 : size * g.sym(10);
	int shape = g.i(0, 2);
	for(int i = 0; i < n; ++i)
	{
		double u = shape == 0 ? g.sym(1) : shape == 1 ? g.sym(1) + g.sym(1) + g.sym(1) : g.sym(1) * g.sym(1) * (g.chance(1, 4) ? 4 : 1);
		b.p.push_back({{off + size * g.coord(1), g.coord(1e-3), size * g.coord(1), g.coord(1e-3), z0 + len * u, g.coord(1e-2)}, 100 + i});
	}
	return b;
}
void fill(ParticleBunch& b, const Ref& r)
{
	for(auto& p : r.p)
		b.AddParticle(mk(p.v, p.id));
}
std::string text(const Ref& r)
{
	std::ostringstream o;
	o << "P0=" << r.P0 << " q=" << r.q << " n=" << r.p.size() << " ";
	for(size_t i = 0; i < r.p.size() && i < 12; ++i)
		o << str(r.p[i].v) << " ";
	return o.str();
}
// compare by id; kicks are known to 1e-6 of their magnitude
bool compare(Ctx& c, const ParticleBunch& b, const Ref& r, const Kick& k, double slack = 0, bool place = true)
{
	c.eq(b.size(), r.p.size(), "number of particles");
	c.near(b.GetReferenceMomentum(), r.P0, 1e-12, (k.mz + slack) * 1e-6, "reference momentum");
	c.near(b.GetTotalCharge(), r.q * r.p.size(), 1e-12, 0, "charge");
	std::map<long, const P*> by;
	for(auto& p : r.p)
		by[p.id] = &p;
	double u = 1e-6 / r.P0, tz = u * (k.mz + slack), tx = u * (k.mx + slack), ty = u * (k.my + slack);
	for(auto& o : b.GetParticles())
	{
		c.check(by.count(o.id()), "a particle that should have been lost, or twice");
		const V6& v = by[o.id()]->v;
		by.erase(o.id());
		std::string w = " of particle " + std::to_string(o.id());
		if(place)
		{
			c.same(o.x(), v[0], "x" + w);
			c.same(o.y(), v[2], "y" + w);
			c.same(o.ct(), v[4], "ct" + w);
		}
		else
		{
			c.near(o.x(), v[0], 1e-9, 1e-14 + 10 * (tx + tz), "x" + w);
			c.near(o.y(), v[2], 1e-9, 1e-14 + 10 * (ty + tz), "y" + w);
			c.near(o.ct(), v[4], 1e-9, 1e-12 + tx + ty, "ct" + w);
		}
		c.near(o.dp(), v[5], 1e-9, tz + 1e-15, "dp" + w);
		c.near(o.xp(), v[1], 1e-9, tx + tz * std::fabs(v[1]) + 1e-15, "xp" + w);
		c.near(o.yp(), v[3], 1e-9, ty + tz * std::fabs(v[3]) + 1e-15, "yp" + w);
	}
	return k.mz > 1e-9 * r.P0 || k.mx > 1e-9 * r.P0 || k.my > 1e-9 * r.P0;
}
// amplitude so that the relative momentum change stays below lim
double amplitude(const Ref& b, double L, double lim)
{
	return lim * b.P0 / (std::fabs(b.q) * b.p.size() * QE * 1e-9 * std::max(L, 0.01));
}
// through a component as the step manager does
void pass(WakeFieldProcess& p, AcceleratorComponent& e, Ctx& c)
{
	p.SetCurrentComponent(e);
	double s = 0, L = e.GetLength();
	for(int k = 0; k < 10; ++k)
	{
		double ds = L - s;
		if(p.IsActive())
			ds = std::min(ds, p.GetMaxAllowedStepSize());
		if(p.IsActive())
			p.DoProcess(ds);
		s += ds;
		if(std::fabs(s - L) <= 2e-16)
			return;
	}
	c.fail("the steps do not end");
}
size_t slices(Gen& g)
{
	return g.pick({1, 2, 3, 10, 50, 100, g.i(1, 30), g.i(1, 200)});
}
double sigmas(Gen& g)
{
	return g.pick({3.0, 3.0, 5.0, 20.0, g.real(0.5, 6)});
}
}

LAW(direct, 12000, 300000, "the kick of each particle is the interpolated sum of the wakes of the slices ahead; only the momentum changes")
{
	Silent quiet;
	Ref r = bunch(g, 2, 200);
	size_t n = slices(g);
	double nsig = sigmas(g), L = length(g, 0.1, 5);
	bool tr = g.chance(3, 4), centre = g.b();
	double A = amplitude(r, L, g.logu(1e-6, 0.05));
	Ref in = r;
	Slices s = slice(r, n, nsig);
	if(!s.ok)
		c.discard();
	Wake w(fn(g, s.dz * n / 4, A), fn(g, s.dz * n / 4, A * 1e2), false);
	c.desc << text(in) << " slices=" << n << " nsig=" << nsig << " L=" << L << " long " << w.l.kind << "/" << w.l.A << "/" << w.l.s << " trans "
		   << w.t.kind << "/" << w.t.A << "/" << w.t.s << (tr ? "" : " (off)");
	Kick k = plain(r, s, L, w.l, w.t, tr, false, 14);
	if(k.mz > 0.2 * r.P0)
		c.discard();
	double P0 = r.P0, before = 0, change = 0;
	for(size_t i = 0; i < r.p.size(); ++i)
	{
		before += P0 * (1 + r.p[i].v[5]);
		change += -k.z[i];
	}
	add_ref(r, k, true);
	Drift d("D", L);
	d.SetWakePotentials(&w);
	ParticleBunch b(in.P0, in.q);
	fill(b, in);
	WakeFieldProcess p(1, n, nsig);
	p.ApplyImpulseAt(centre ? WakeFieldProcess::atCentre : WakeFieldProcess::atExit);
	p.IncludeTransverseWake(tr);
	p.InitialiseProcess(b);
	pass(p, d, c);
	c.nontrivial(compare(c, b, r, k));
	// the sum of the momenta changes by the sum of the kicks
	double after = 0;
	for(auto& o : b.GetParticles())
		after += b.GetReferenceMomentum() * (1 + o.dp());
	c.near(after, before + change, 1e-12, 1e-6 * k.mz * r.p.size(), "sum of the momenta");
	for(auto& o : b.GetParticles())
		c.check(std::isfinite(o.dp()), "not finite");
	c.label(s.lost > 0, "truncated");
	c.label(n > r.p.size(), "empty slices");
}

LAW(csr, 6000, 100000, "CSR: the sum over the slices behind of the wake times the slope of the smoothed density; the reference momentum stays")
{
	Silent quiet;
	Ref r = bunch(g, 2, 200);
	size_t n = slices(g);
	double nsig = sigmas(g), L = length(g, 0.1, 5);
	bool tr = g.b();
	int width = g.pick({14, 14, 1, 3, 40});
	double A = amplitude(r, L, g.logu(1e-6, 0.05));
	Ref in = r;
	Slices s = slice(r, n, nsig);
	if(!s.ok)
		c.discard();
	Wake w(fn(g, s.dz * n / 4, A * s.dz), fn(g, s.dz * n / 4, A * 1e2), true);
	c.desc << text(in) << " slices=" << n << " nsig=" << nsig << " L=" << L << " wake " << w.l.kind << "/" << w.l.A << "/" << w.l.s << " filter "
		   << width;
	Kick k = plain(r, s, L, w.l, w.t, tr, true, width);
	if(k.mz > 0.2 * r.P0)
		c.discard();
	add_ref(r, k, false);
	Drift d("D", L);
	d.SetWakePotentials(&w);
	ParticleBunch b(in.P0, in.q);
	fill(b, in);
	WakeFieldProcess p(1, n, nsig);
	p.IncludeTransverseWake(tr);
	if(width != 14)
		p.SetFilter(width, 2, 1);
	p.InitialiseProcess(b);
	pass(p, d, c);
	compare(c, b, r, k);
	c.nontrivial(k.mz > 1e-9 * r.P0);
}

LAW(collimator, 6000, 100000, "collimator wakes: each mode kicks by the gradient of the potential of the moments ahead, alike in all directions")
{
	Silent quiet;
	Ref r = bunch(g, 2, 60);
	size_t n = g.chance(1, 20) ? size_t(g.i(900, 1500)) : slices(g);
	double nsig = sigmas(g), L = length(g, 0.1, 5);
	bool tr = g.chance(3, 4);
	int modes = g.pick({1, 2, 3, 5});
	Ref in = r;
	Slices s = slice(r, n, nsig);
	if(!s.ok)
		c.discard();
	CollWake w(modes);
	double size = 1e-12;
	for(auto& p : r.p)
		size = std::max(size, std::hypot(p.v[0], p.v[2]));
	double A = g.logu(1e-6, 0.01) * r.P0 * 4 * pi * 8.854e-12 / (std::fabs(r.q) * r.p.size() * QE * 1e-9);
	for(int m = 0; m <= modes; ++m)
	{
		w.l.push_back(fn(g, s.dz * n / 4, A / std::pow(size, 2 * m)));
		w.t.push_back(fn(g, s.dz * n / 4, A / std::pow(size, 2 * m - 1) / 100));
		if(g.chance(1, 4))
			w.l[m].A = 0;
	}
	c.desc << text(in) << " slices=" << n << " nsig=" << nsig << " modes=" << modes << " ";
	for(int m = 1; m <= modes; ++m)
		c.desc << "L" << w.l[m].kind << "/" << w.l[m].A << " T" << w.t[m].kind << "/" << w.t[m].A << " ";
	Kick k;
	collimator(r, s, w, modes, tr, k);
	if(k.mz > 0.3 * r.P0)
		c.discard();
	Collimator d("C", L);
	d.SetWakePotentials(&w);
	ParticleBunch b(in.P0, in.q);
	fill(b, in);
	CollimatorWakeProcess p(modes, 1, n, nsig);
	p.ApplyImpulseAt(g.b() ? WakeFieldProcess::atCentre : WakeFieldProcess::atExit);
	p.IncludeTransverseWake(tr);
	p.InitialiseProcess(b);
	pass(p, d, c);
	c.nontrivial(compare(c, b, r, k));
	c.label(n >= 1000, "many slices");
}

LAW(coupler, 5000, 60000, "coupler wakes add to the wakes of the cavity the charge ahead times the local kick, and the RF kick of the phase of the slice")
{
	Silent quiet;
	Ref r = bunch(g, 2, 60);
	size_t n = slices(g);
	double L = length(g, 0.1, 3), nsig = 30;
	Ref in = r;
	Slices s = slice(r, n, nsig);
	if(!s.ok || s.lost)
		c.discard();
	double A = amplitude(r, L, g.logu(1e-6, 0.05)), Q = std::fabs(r.q) * r.p.size() * QE * 1e-9;
	CoupWake w;
	w.l = fn(g, s.dz * n / 4, A);
	w.t = fn(g, s.dz * n / 4, A * 100);
	for(int i = 0; i < 6; ++i)
	{
		bool gradient = i != 0 && i != 3;
		w.w[i] = g.chance(1, 4) ? 0 : g.sym(1e-4 * r.P0 / Q) * (gradient ? 100 : 1);
		w.r[i] = g.chance(1, 4) ? 0 : g.sym(1e-3);
	}
	bool cavity = g.chance(3, 4);
	std::unique_ptr<AcceleratorComponent> e;
	double V = 0, phi = 0, kk = 0;
	if(cavity)
	{
		double f = g.logu(1e8, 1e10);
		V = g.sym(0.1) * r.P0;
		phi = g.real(0, 3);
		e.reset(new TWRFStructure("RF", L, f, V / L, phi));
		kk = 2 * pi * f / CLIGHT;
	}
	else
		e.reset(new Drift("D", L));
	e->SetWakePotentials(&w);
	c.desc << text(in) << " slices=" << n << " L=" << L << " V=" << V << " phi=" << phi << " k=" << kk;
	Kick k = plain(r, s, L, w.l, w.t, true, false, 14);
	if(k.mz > 0.2 * r.P0)
		c.discard();
	// kicks by the couplers at the boundaries of the slices
	std::vector<double> wx(n + 1), wy(n + 1);
	for(size_t i = 0; i < n; ++i)
	{
		double cx = 0, cy = 0, ahead = 0;
		for(size_t j : s.in[i])
		{
			cx += r.p[j].v[0] / s.in[i].size();
			cy += r.p[j].v[2] / s.in[i].size();
		}
		for(size_t j = i; j < n; ++j)
			ahead += s.in[j].size();
		Vector2D a = w.Wxy(cx, cy), b = w.CouplerRFKick(cx, cy, phi + kk * (s.zmin + (i + 0.5) * s.dz));
		double q = ahead / r.p.size() * Q;
		wx[i] = q * a.x + b.x * V;
		wy[i] = q * a.y + b.y * V;
		k.mx = std::max(k.mx, std::fabs(q * a.x) + std::fabs(b.x * V) + std::fabs(V) * 1e-3);
		k.my = std::max(k.my, std::fabs(q * a.y) + std::fabs(b.y * V) + std::fabs(V) * 1e-3);
	}
	for(size_t i = 0; i < n; ++i)
		for(size_t j : s.in[i])
		{
			double u = (r.p[j].v[4] - s.zmin) / s.dz - i;
			k.x[j] += wx[i] + u * (wx[i + 1] - wx[i]);
			k.y[j] += wy[i] + u * (wy[i + 1] - wy[i]);
		}
	// a phase that is large is known less well
	double phase = kk * (std::fabs(s.zmin) + s.n * s.dz);
	if(phase > 1e4)
		c.discard();
	add_ref(r, k, true);
	ParticleBunch b(in.P0, in.q);
	fill(b, in);
	CouplerWakeFieldProcess p(1, n, nsig);
	p.InitialiseProcess(b);
	pass(p, *e, c);
	c.nontrivial(compare(c, b, r, k));
	c.label(cavity, "in a cavity");
}

namespace
{
struct Divider: public ParticleBunchProcess
{
	int n;
	double step = 1;
	Divider(int prio, int k) : ParticleBunchProcess("DIVIDER", prio), n(k) {}
	void SetCurrentComponent(AcceleratorComponent& c) override { active = true; step = std::max(c.GetLength(), 1e-9) / n; }
	void DoProcess(double) override {}
	double GetMaxAllowedStepSize() const override { return step; }
};
}

LAW(line, 3000, 40000, "in a line each wake acts once per passage, at its place, through the process that it expects, however the steps are divided")
{
	Silent quiet;
	Ref r = bunch(g, 2, 20);
	double nsig = 30;
	bool centre = g.b(), centre2 = g.b(), useplain = g.chance(4, 5), usecoll = g.chance(2, 3);
	size_t n = size_t(g.i(1, 20)), n2 = size_t(g.i(1, 20));
	int modes = g.i(1, 2);
	std::unique_ptr<WakeFieldProcess> other(new CollimatorWakeProcess(1, 0, 1, 1.0)), same(new WakeFieldProcess(0));
	struct E
	{
		AcceleratorComponent* c;
		double L;
		Wake* w = nullptr;
		CollWake* cw = nullptr;
		bool forplain = false, forcoll = false;
	};
	std::vector<E> es;
	std::vector<std::unique_ptr<WakePotentials> > own;
	AcceleratorModelConstructor mc;
	mc.NewModel();
	c.desc << text(r) << (centre ? " centre " : " exit ") << n << (useplain ? " plain " : " ") << (usecoll ? "collimator " : "");
	double len = 0;
	{
		Ref t = r;
		Slices s = slice(t, n, nsig);
		if(!s.ok)
			c.discard();
		len = s.dz * n / 10;
		if(len < 1e-5)
			c.discard();
	}
	int ne = g.i(1, 5);
	double size = 1e-2;
	for(int i = 0; i < ne; ++i)
	{
		E e;
		e.L = g.chance(1, 6) ? 0 : length(g, 0.1, 3);
		std::string name = "E" + std::to_string(i);
		switch(e.L > 0 ? g.i(0, 2) : 2)
		{
		case 0:
			e.c = new Drift(name, e.L);
			break;
		case 1:
			e.c = new Collimator(name, e.L);
			break;
		default:
			e.c = new Marker(name);
			e.L = 0;
		}
		switch(g.i(0, 3))
		{
		case 0:
			break;
		case 1:
		{
			double A = amplitude(r, e.L, 1e-3);
			e.w = new Wake(fn(g, len, A), fn(g, len, A), false);
			own.emplace_back(e.w);
			e.c->SetWakePotentials(e.w);
			int exp = g.i(0, 2);
			e.w->SetExpectedProcess(exp == 0 ? nullptr : exp == 1 ? same.get() : other.get());
			// a process for collimators ignores a plain wake
			e.forplain = exp != 2;
			c.desc << name << " plain wake for " << exp << " L=" << e.L << "; ";
			break;
		}
		default:
		{
			e.cw = new CollWake(modes);
			double A = 1e-4 * r.P0 * 4 * pi * 8.854e-12 / (std::fabs(r.q) * r.p.size() * QE * 1e-9);
			for(int m = 0; m <= modes; ++m)
			{
				e.cw->l.push_back(fn(g, len, A / std::pow(size, 2 * m)));
				e.cw->t.push_back(fn(g, len, A / std::pow(size, 2 * m - 1)));
				e.cw->l[m].A = std::max(-A, std::min(A, e.cw->l[m].A));
			}
			own.emplace_back(e.cw);
			e.c->SetWakePotentials(e.cw);
			e.cw->SetExpectedProcess(other.get());
			e.forcoll = true;
			c.desc << name << " collimator wake L=" << e.L << "; ";
		}
		}
		mc.AppendComponent(*e.c);
		es.push_back(e);
	}
	std::unique_ptr<AcceleratorModel> m(mc.GetModel());
	ParticleBunch b(r.P0, r.q);
	fill(b, r);
	ParticleTracker t(m->GetBeamline());
	// drifts are divided by a process that does nothing
	if(g.b())
	{
		int k = g.i(2, 7);
		t.AddProcess(new Divider(g.i(1, 6), k));
		c.desc << "divided " << k << " ";
	}
	if(useplain)
	{
		auto p = new WakeFieldProcess(4, n, nsig);
		p->ApplyImpulseAt(centre ? WakeFieldProcess::atCentre : WakeFieldProcess::atExit);
		t.AddProcess(p);
	}
	if(usecoll)
	{
		auto p = new CollimatorWakeProcess(modes, 5, n2, nsig);
		p->ApplyImpulseAt(centre2 ? WakeFieldProcess::atCentre : WakeFieldProcess::atExit);
		t.AddProcess(p);
	}
	t.Track(&b);
	// the reference: drifts and kicks
	Kick sum;
	double slack = 0;
	for(auto& e : es)
	{
		auto drift = [&](double L)
			{
				if(L <= 0)
					return;
				Drift d("D", L);
				for(auto& p : r.p)
					p.v = track1(TRANSPORT_SET, d, r.P0, r.q, p.v);
			};
		bool mine = (useplain && e.forplain) || (usecoll && e.forcoll);
		bool mid = e.forplain ? centre : centre2;
		if(!mine)
		{
			drift(e.L);
			continue;
		}
		drift(mid ? e.L / 2 : e.L);
		Slices s = slice(r, e.forplain ? n : n2, nsig);
		if(!s.ok || s.lost)
			c.discard();
		Kick k;
		if(e.forplain)
		{
			k = plain(r, s, e.L, e.w->l, e.w->t, true, false, 14);
			if(k.mz > 0.05 * r.P0 || k.mx > 0.05 * r.P0 || k.my > 0.05 * r.P0)
				c.discard();
			add_ref(r, k, true);
		}
		else
		{
			collimator(r, s, *e.cw, modes, true, k);
			if(k.mz > 0.05 * r.P0 || k.mx > 0.05 * r.P0)
				c.discard();
		}
		sum.mz += k.mz;
		sum.mx += k.mx;
		sum.my += k.my;
		slack += 1e-9 * r.P0;
		drift(mid ? e.L / 2 : 0);
	}
	slack += 0.1 * (sum.mx + sum.my);
	c.nontrivial(compare(c, b, r, sum, slack, false));
	for(auto& e : es)
		e.c->SetWakePotentials(nullptr);
}

LAW(histogram, 15000, 200000, "the slices partition the bunch, their densities add up to one, and the filter differentiates polynomials exactly")
{
	Silent quiet;
	Ref r = bunch(g, 0, 200);
	size_t n = slices(g);
	double lo = 0, hi = 0;
	for(auto& p : r.p)
	{
		lo = std::min(lo, p.v[4]);
		hi = std::max(hi, p.v[4]);
	}
	double span = hi - lo + 1e-9, a = lo + span * g.real(-0.3, 0.5), z = a + span * g.real(0.1, 1.3);
	ParticleBunch b(r.P0, r.q);
	fill(b, r);
	// filter: degree m, derivative d
	int w = g.i(1, 20), m = g.i(0, std::min(4, 2 * w)), d = g.i(0, std::min(m, 2));
	std::vector<double> f;
	savgol(f, w, w, d, m);
	c.desc << text(r) << " from " << a << " to " << z << " in " << n << " filter " << w << "," << m << "," << d;
	c.eq(f.size(), size_t(2 * w + 1), "size of the filter");
	for(int deg = 0; deg <= m; ++deg)
	{
		double s = 0, mag = 0;
		for(int k = -w; k <= w; ++k)
		{
			double x = deg == 0 ? 1 : std::pow(k, deg);
			s += f[k + w] * x;
			mag += std::fabs(f[k + w] * x);
		}
		// the coefficient of the power d
		c.near(s, deg == d, 0, 1e-9 * (mag + 1), "filter applied to the power " + std::to_string(deg));
	}
	bool useFilter = g.b();
	std::vector<ParticleBunch::iterator> it;
	std::vector<double> h, hp;
	size_t lost = ParticleBinList(b, a, z, n, it, h, hp, useFilter ? &f : nullptr);
	double dz = (z - a) / n;
	std::map<long, V6> by;
	size_t out = 0;
	for(auto& p : r.p)
	{
		by[p.id] = p.v;
		out += p.v[4] < a || p.v[4] >= z;
	}
	c.eq(lost, out, "particles cut off");
	c.eq(b.size(), r.p.size() - out, "particles that remain");
	c.eq(it.size(), n + 1, "boundaries");
	c.eq(h.size(), n, "bins");
	c.eq(hp.size(), n, "slopes");
	c.check(it.front() == b.begin() && it.back() == b.end(), "the slices are not the whole bunch");
	double sum = 0;
	std::vector<double> count(n);
	for(size_t i = 0; i < n; ++i)
	{
		c.check(it[i] <= it[i + 1], "slices in disorder");
		for(auto p = it[i]; p != it[i + 1]; ++p)
		{
			double u = (p->ct() - a) / dz;
			c.check(u > i - 1e-6 && u < i + 1 + 1e-6, "a particle in the wrong slice");
			c.check(by.count(p->id()), "a particle twice");
			for(int q = 0; q < 6; ++q)
				c.same((*p)[q], by[p->id()][q], "coordinate");
			by.erase(p->id());
			++count[i];
		}
		double e = b.size() ? count[i] / b.size() / dz : 0;
		c.near(h[i], e, 1e-10, 0, "density");
		sum += h[i] * dz;
	}
	if(b.size())
		c.near(sum, 1, 1e-9, 0, "sum of the densities");
	for(size_t i = 0; i < n; ++i)
	{
		double e = 0, mag = 0;
		if(useFilter)
			for(int k = -w; k <= w; ++k)
				if(long(i) + k >= 0 && long(i) + k < long(n))
				{
					e += f[k + w] * h[i + k];
					mag += std::fabs(f[k + w] * h[i + k]);
				}
		c.near(hp[i], e, 0, 1e-10 * mag, "slope");
	}
	c.nontrivial(b.size() > 1 && n > 1);
}

LAW(resistive, 3000, 40000, "the resistive wall acts only behind the charge and scales with length, distance, conductivity and radius as 1/b^(2m+1)")
{
	Silent quiet;
	int M = g.i(1, 5), m = g.i(1, M);
	double b = g.logu(1e-4, 0.1), sg = g.logu(1e3, 1e8), L = g.logu(0.01, 10), z = g.logu(1e-9, 1);
	c.desc << "modes " << M << " mode " << m << " b=" << b << " sigma=" << sg << " L=" << L << " z=" << z;
	ResistiveWakePotentials w(M, b, sg, L), wb(M, 2 * b, sg, L), ws(M, b, 4 * sg, L), wl(M, b, sg, 3 * L);
	double t = w.Wtrans(z, m), l = w.Wlong(z, m);
	c.check(std::isfinite(t) && std::isfinite(l) && t != 0 && l != 0, "no wake");
	for(double y : {-z, 0.0, -1.0})
	{
		c.eq(w.Wtrans(y, m), 0.0, "transverse wake ahead of the charge");
		c.eq(w.Wlong(y, m), 0.0, "longitudinal wake ahead of the charge");
	}
	c.near(w.Wtrans(4 * z, m), t / 2, 1e-12, 0, "distance");
	c.near(w.Wlong(4 * z, m), l * 2, 1e-12, 0, "distance, longitudinal");
	c.near(ws.Wtrans(z, m), t / 2, 1e-12, 0, "conductivity");
	c.near(ws.Wlong(z, m), l / 2, 1e-12, 0, "conductivity, longitudinal");
	c.near(wl.Wtrans(z, m), t * 3, 1e-12, 0, "length");
	c.near(wl.Wlong(z, m), l * 3, 1e-12, 0, "length, longitudinal");
	c.near(wb.Wtrans(z, m), t / std::pow(2, 2 * m + 1), 1e-12, 0, "radius");
	c.near(wb.Wlong(z, m), l / std::pow(2, 2 * m + 1), 1e-12, 0, "radius, longitudinal");
	c.nontrivial(true);
}

LAW(tapered, 3000, 40000, "the wake of a steep taper acts only behind the charge, falls off with the mode and the small radius, and its two parts obey the theorem of Panofsky and Wenzel")
{
	Silent quiet;
	int M = g.i(1, 6), m = g.i(1, M);
	double a = g.logu(1e-4, 0.02), b = a * g.real(1, 20), z = a * g.logu(1e-3, 5);
	c.desc << "modes " << M << " mode " << m << " a=" << a << " b=" << b << " z=" << z;
	TaperedCollimatorPotentials w(M, a, b);
	const CollimatorWakePotentials& base = w;
	double want = 2 * (std::pow(a, -2 * m) - std::pow(b, -2 * m)) * std::exp(-m * z / a);
	c.near(base.Wtrans(z, m), want, 1e-10, 1e-14 * std::pow(a, -2 * m), "transverse wake");
	c.near(base.Wlong(z, m), -m / a * base.Wtrans(z, m), 1e-10, 0, "longitudinal wake");
	double h = 1e-4 * a;
	c.near((base.Wtrans(z + h, m) - base.Wtrans(z - h, m)) / (2 * h), base.Wlong(z, m), 1e-5, 1e-9 * std::pow(a, -2 * m - 1), "slope of the transverse wake");
	for(double y : {-z, 0.0, -1.0})
	{
		c.eq(base.Wtrans(y, m), 0.0, "transverse wake ahead of the charge");
		c.eq(base.Wlong(y, m), 0.0, "longitudinal wake ahead of the charge");
	}
	TaperedCollimatorPotentials none(M, a, a);
	c.near(none.Wtrans(z, m), 0, 0, 1e-12 * std::pow(a, -2 * m), "no taper, no wake");
	c.nontrivial(b > 1.1 * a);
}
