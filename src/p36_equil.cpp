// P36: the equilibrium of an electron ring follows from its radiation integrals.
#include "ring.h"
#include "EquilibriumDistribution.h"
#include "ClosedOrbit.h"
using namespace ring;
pbt::Info pbt::info = {"P36", "the ring has bends and cavities that replace the energy radiated",
	"Rings are stable without synchro-betatron resonances; damping and emittances are judged within a few percent, which covers the coupling by the cavities and the numerical differentiation."};

namespace
{
struct Quiet
{
	std::streambuf* old;
	std::ostringstream sink;
	Quiet() :
		old(std::cout.rdbuf(sink.rdbuf()))
	{
	}
	~Quiet()
	{
		std::cout.rdbuf(old);
	}
};
struct Integrals
{
	double I2 = 0, I3 = 0, I4 = 0, I5 = 0;
};
// radiation integrals with the lattice functions followed through every bend; I4 without the path length
// term, as the energy loss is taken per unit length of the reference orbit
Integrals integrals(const Ring& r)
{
	Integrals n;
	for(size_t i = 0; i < r.parts.size(); ++i)
	{
		const Part& p = r.parts[i];
		if(p.h == 0)
			continue;
		Twiss t = twiss(r.turn(i));
		double tn = p.h * std::tan(p.e1), a0 = t.ax - tn * t.bx, b0 = t.bx, g0 = (1 + a0 * a0) / b0, D0 = t.D, E0 = t.Dp + tn * t.D;
		double k = p.k1 + p.h * p.h;
		const int N = 60;
		for(int m = 0; m < N; ++m)
		{
			double c, s, c2, ds = p.L / N;
			focus(k, ds * (m + 0.5), c, s, c2);
			double b = c * c * b0 - 2 * c * s * a0 + s * s * g0, a = -c * c2 * b0 + (c * c + s * c2) * a0 - s * c * g0, gm = (1 + a * a) / b;
			double D = c * D0 + s * E0 + p.h * (k ? (1 - c) / k : s * s / 2), E = c2 * D0 + c * E0 + p.h * s;
			double H = gm * D * D + 2 * a * D * E + b * E * E;
			n.I2 += p.h * p.h * ds;
			n.I3 += std::pow(std::fabs(p.h), 3) * ds;
			n.I4 += 2 * p.h * p.k1 * D * ds;
			n.I5 += std::pow(std::fabs(p.h), 3) * H * ds;
		}
	}
	return n;
}
double tune(double trace, double m12)
{
	double q = std::acos(trace / 2) / (2 * pi);
	return m12 > 0 ? q : 1 - q;
}
double apart(double a, double b)
{
	double d = a - b - std::floor(a - b);
	return std::min(d, 1 - d);
}
}

LAW(equilibrium, 900, 15000,
	"damping constants and times, tunes, the synchronous time, the equilibrium emittances and the beam moments around the ring agree with the radiation integrals of the lattice")
{
	Quiet q;
	Opts o;
	o.rf = true;
	Ring r;
	bool grad = g.chance(1, 3), faces = g.chance(1, 3), reverse = g.chance(1, 4);
	for(int k = 0;; ++k)
	{
		draw(g, r, o);
		if(faces)
		{
			double e1 = g.sym(0.8), e2 = g.sym(0.8);
			for(auto& p : r.parts)
				if(p.h != 0)
				{
					p.e1 = e1;
					p.e2 = e2;
				}
		}
		if(reverse)
			for(auto& p : r.parts)
				if(p.h != 0 && g.chance(1, 3))
				{
					p.h = -p.h * g.real(0.4, 1);
					p.e1 = -p.e1;
					p.e2 = -p.e2;
				}
		if(grad)
			for(auto& p : r.parts)
				if(p.h != 0)
					p.k1 = g.sym(0.3);
		if(stable(r))
			break;
		if(k == 12)
			c.discard();
	}
	Integrals n = integrals(r);
	if(n.I2 == 0 || std::fabs(slip(r)) < 0.2)
		c.discard();
	double V = 0;
	int cells = 0;
	for(auto& p : r.parts)
		if(p.kind == "rf")
		{
			V += p.kick;
			++cells;
		}
	// relative energy loss per turn: C_gamma E^3 I2 / 2 pi
	const double CG = 8.846e-5, CQ = 3.832e-13, ME = 0.51099895e-3, C = 299792458.0;
	r.P0 = g.real(0.4, 0.75) * std::cbrt(V * 2 * pi / (CG * n.I2));
	build(r);
	c.desc << r.text();
	double U = CG / (2 * pi) * n.I2 * std::pow(r.P0, 3), gam = r.P0 / ME;
	double Jx = 1 - n.I4 / n.I2, Jz = 2 + n.I4 / n.I2;
	if(Jx < 0.2 || Jz < 0.3)
		c.discard();
	Lin m = r.turn();
	double qx = tune(trx(m), m.x[0][1]), qy = tune(try_(m), m.y[0][1]);
	EquilibriumDistribution d(r.model.get(), r.P0);
	d.CalculateDampingConstants();
	double qs = d.Tune(2);
	double Qs = std::min(qs, 1 - qs);
	if(apart(qx, Qs) < 0.1 || apart(qx, -Qs) < 0.1 || Qs > 0.03 || Qs < 1e-3)
		c.discard();
	d.CalculateEmittance();
	c.nontrivial();
	c.label(grad, "gradient bends");
	c.label(faces, "rotated pole faces");
	c.label(reverse, "reverse bends");
	c.label(std::fabs(n.I4 / n.I2) > 0.1, "partition moved");
	c.near(d.Tune(0), qx, 0, 1.2e-2, "horizontal tune");
	c.near(d.Tune(1), qy, 0, 4e-3, "vertical tune");
	const double J[] = {Jx, 1, Jz};
	double T = r.length() / C;
	for(int k = 0; k < 3; ++k)
	{
		std::string w = " of mode " + std::to_string(k + 1);
		c.near(d.DampingConstant(k), U * J[k] / 2, 0.08, 3e-7 + (grad ? 0.15 : 0.04) * U, "damping constant" + w);
		c.near(d.DampingTime(k), T / d.DampingConstant(k), 1e-9, 0, "damping time" + w);
	}
	c.near(d.DampingConstant(0) + d.DampingConstant(1) + d.DampingConstant(2), 2 * U, 0.02, 5e-7, "sum of the damping constants");
	ClosedOrbit co(r.model.get(), r.P0);
	co.Radiation(true);
	co.SetRadStepSize(0.1);
	PSvector orb(0);
	co.FindClosedOrbit(orb);
	c.near(d.SynchronousTime(), orb.ct() / C, 1e-6, 1e-16, "synchronous time");
	double ex = CQ * gam * gam * n.I5 / (Jx * n.I2), sd2 = CQ * gam * gam * n.I3 / (Jz * n.I2);
	c.desc << " ex " << ex << " sd " << std::sqrt(sd2) << " Qs " << Qs;
	// the damping constants enter with their own numerical error
	double fx = U * Jx / 2 / d.DampingConstant(0), fz = U * Jz / 2 / d.DampingConstant(2);
	c.near(d.Emittance(0), ex * fx, 0.14, 0, "horizontal emittance");
	c.check(std::fabs(d.Emittance(1)) < 1e-6 * ex, "vertical emittance of a flat ring");
	ex = d.Emittance(0);
	for(int k = 0; k < 3; ++k)
	{
		int at = k ? g.i(0, r.parts.size() - 1) : 0;
		Twiss t = twiss(r.turn(at));
		std::string w = " at " + std::to_string(at);
		double s2 = sd2 * fz;
		c.near(d.BeamMoment(5, 5, at), s2, 0.1, 0, "energy spread" + w);
		double xx = ex * t.bx + s2 * t.D * t.D, scale = std::sqrt(xx * (ex * (1 + t.ax * t.ax) / t.bx + s2 * t.Dp * t.Dp));
		c.near(d.BeamMoment(0, 0, at), xx, 0.15, 0, "<x x>" + w);
		c.near(d.BeamMoment(0, 5, at), s2 * t.D, 0.1, 0.15 * std::sqrt(s2 * xx), "<x dp>" + w);
		c.near(d.BeamMoment(0, 1, at), -ex * t.ax + s2 * t.D * t.Dp, 0.1, 0.15 * scale, "<x x'>" + w);
		c.near(d.BeamMoment(1, 0, at), d.BeamMoment(0, 1, at), 1e-9, 0, "symmetry" + w);
		c.check(d.BeamMoment(2, 2, at) < 1e-6 * ex * t.by, "<y y> of a flat ring");
	}
}
