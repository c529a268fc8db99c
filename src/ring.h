// ring.h - random stable uncoupled rings with an independent linear reference model.
#ifndef RING_H
#define RING_H
#include "mlib.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "SWRFStructure.h"
#include "CorrectorDipoles.h"
#include "Collimator.h"
namespace ring
{
using namespace ml;
typedef std::array<std::array<double, 2>, 2> M2;
typedef std::array<std::array<double, 3>, 3> M3;
struct Lin              // reference map: (x,x',delta) and (y,y')
{
	M3 x;
	M2 y;
};
inline Lin unit()
{
	Lin r;
	for(int i = 0; i < 3; ++i)
		for(int j = 0; j < 3; ++j)
			r.x[i][j] = i == j;
	for(int i = 0; i < 2; ++i)
		for(int j = 0; j < 2; ++j)
			r.y[i][j] = i == j;
	return r;
}
inline Lin operator*(const Lin& a, const Lin& b)
{
	Lin r;
	for(int i = 0; i < 3; ++i)
		for(int j = 0; j < 3; ++j)
		{
			r.x[i][j] = 0;
			for(int k = 0; k < 3; ++k)
				r.x[i][j] += a.x[i][k] * b.x[k][j];
		}
	for(int i = 0; i < 2; ++i)
		for(int j = 0; j < 2; ++j)
			r.y[i][j] = a.y[i][0] * b.y[0][j] + a.y[i][1] * b.y[1][j];
	return r;
}
// x'' = -k x
inline void focus(double k, double L, double& c, double& s, double& ms)
{
	if(k == 0)
	{
		c = 1;
		s = L;
		ms = 0;
	}
	else if(k > 0)
	{
		double w = std::sqrt(k);
		c = std::cos(w * L);
		s = std::sin(w * L) / w;
		ms = -w * std::sin(w * L);
	}
	else
	{
		double w = std::sqrt(-k);
		c = std::cosh(w * L);
		s = std::sinh(w * L) / w;
		ms = w * std::sinh(w * L);
	}
}
struct Part
{
	std::string kind;   // drift quad bend sext xcor ycor marker
	double L = 0, k1 = 0, h = 0, e1 = 0, e2 = 0, k2 = 0, kick = 0, dx = 0, dy = 0;
	std::string name;
	Lin map() const
	{
		Lin r = unit();
		double c, s, m;
		double kx = k1 + h * h;
		focus(kx, L, c, s, m);
		r.x[0][0] = r.x[1][1] = c;
		r.x[0][1] = s;
		r.x[1][0] = m;
		r.x[1][2] = h * s;
		r.x[0][2] = kx == 0 ? h * L * L / 2 : h * (1 - c) / kx;
		focus(-k1, L, c, s, m);
		r.y[0][0] = r.y[1][1] = c;
		r.y[0][1] = s;
		r.y[1][0] = m;
		if(h != 0 && (e1 != 0 || e2 != 0))
		{
			Lin a = unit(), b = unit();
			a.x[1][0] = h * std::tan(e1);
			a.y[1][0] = -a.x[1][0];
			b.x[1][0] = h * std::tan(e2);
			b.y[1][0] = -b.x[1][0];
			r = b * r * a;
		}
		return r;
	}
};
struct Opts
{
	bool rf = false;
	bool errors = false;    // misalignments and corrector kicks
	bool sext = false;
	bool coupling = false;
	double err = 2e-4;
};
struct Ring
{
	double P0 = 1;
	std::vector<Part> parts;
	std::unique_ptr<AcceleratorModel> model;
	std::vector<AcceleratorComponent*> comp;    // in order
	Lin turn(size_t n = 0) const                // one turn from the entrance of part n
	{
		Lin r = unit();
		for(size_t i = 0; i < parts.size(); ++i)
			r = parts[(n + i) % parts.size()].map() * r;
		return r;
	}
	Lin line(size_t a, size_t b) const          // from the entrance of a to the entrance of b
	{
		Lin r = unit();
		for(size_t i = a; i < b; ++i)
			r = parts[i].map() * r;
		return r;
	}
	double length() const
	{
		double s = 0;
		for(auto& p : parts)
			s += p.L;
		return s;
	}
	std::string text() const
	{
		std::ostringstream s;
		s.precision(6);
		s << "P0=" << P0 << " [";
		for(auto& p : parts)
		{
			s << p.kind[0] << p.L;
			if(p.k1)
				s << ",k1=" << p.k1;
			if(p.h)
				s << ",h=" << p.h;
			if(p.e1 || p.e2)
				s << ",e=" << p.e1 << "/" << p.e2;
			if(p.k2)
				s << ",k2=" << p.k2;
			if(p.kick)
				s << ",kick=" << p.kick;
			if(p.dx || p.dy)
				s << ",d=" << p.dx << "/" << p.dy;
			s << " ";
		}
		s << "]";
		return s.str();
	}
};
inline double trx(const Lin& m)
{
	return m.x[0][0] + m.x[1][1];
}
inline double try_(const Lin& m)
{
	return m.y[0][0] + m.y[1][1];
}
struct Twiss
{
	double bx, ax, by, ay, D, Dp;
};
inline Twiss twiss(const Lin& m)     // periodic functions of a one-turn map
{
	Twiss t;
	double cx = trx(m) / 2, cy = try_(m) / 2;
	double sx = std::copysign(std::sqrt(1 - cx * cx), m.x[0][1]), sy = std::copysign(std::sqrt(1 - cy * cy), m.y[0][1]);
	t.bx = m.x[0][1] / sx;
	t.ax = (m.x[0][0] - m.x[1][1]) / 2 / sx;
	t.by = m.y[0][1] / sy;
	t.ay = (m.y[0][0] - m.y[1][1]) / 2 / sy;
	double d = (1 - m.x[0][0]) * (1 - m.x[1][1]) - m.x[0][1] * m.x[1][0];
	t.D = ((1 - m.x[1][1]) * m.x[0][2] + m.x[0][1] * m.x[1][2]) / d;
	t.Dp = (m.x[1][0] * m.x[0][2] + (1 - m.x[0][0]) * m.x[1][2]) / d;
	return t;
}
inline bool stable(const Ring& r)
{
	Lin m = r.turn();
	double a = trx(m) / 2, b = try_(m) / 2;
	if(!(std::fabs(a) < 0.95 && std::fabs(b) < 0.95 && a < 0.85 && b < 0.85))
		return false;
	// away from the integer (the orbit diverges), the half integer, and from equal fractional tunes
	if(std::fabs(a - b) < 0.03)
		return false;
	for(size_t i = 0; i < r.parts.size(); ++i)
	{
		Twiss t = twiss(r.turn(i));
		if(t.bx > 80 || t.by > 80 || std::fabs(t.D) > 5)
			return false;
	}
	return true;
}
inline void draw(Gen& g, Ring& r, const Opts& o)
{
	r.parts.clear();
	double Lc = g.real(1.5, 8);                  // half cell
	double mux = g.real(0.4, 2.2), muy = g.real(0.4, 2.2);
	int n = g.i(1, 6);
	double total = g.chance(1, 6) ? 0 : g.chance(1, 2) ? 2 * pi : g.real(0.1, 3);
	double ang = total / (2 * n);
	ang = std::min(ang, std::min(0.7, 0.25 * Lc));
	double lq = std::min(0.8, 0.15 * Lc) * g.real(0.3, 1), lb = ang ? 0.5 * Lc * g.real(0.5, 1) : 0;
	bool rect = g.chance(1, 3);
	bool perturb = g.b();
	bool halves = g.chance(1, 3);
	int id = 0;
	auto add = [&](const std::string& k, double L) -> Part&
		{
			Part p;
			p.kind = k;
			p.L = L;
			p.name = std::string(1, std::toupper(k[0])) + std::to_string(++id);
			r.parts.push_back(p);
			return r.parts.back();
		};
	auto half = [&](double mu, double sign)
		{
			double f = 2 * std::sin(mu / 2) / Lc * (perturb ? 1 + g.sym(0.1) : 1) * sign;
			for(int k = 0; k < (halves ? 2 : 1); ++k)
			{
				Part& q = add("quad", halves ? lq / 2 : lq);
				q.k1 = f / lq;
				if(o.errors && g.chance(1, 2))
				{
					q.dx = g.coord(o.err);
					q.dy = g.coord(o.err);
				}
			}
			if(g.chance(1, 5))
				add("marker", 0);
			double rest = Lc - lq - lb;
			if(o.sext && g.chance(1, 2))
			{
				double ls = 0.2 * rest;
				add("sext", ls).k2 = g.sym(2);
				rest -= ls;
			}
			if(o.errors && g.chance(1, 2))
			{
				double lk = g.b() ? 0.1 * rest : 0;
				add(g.b() ? "xcor" : "ycor", lk).kick = g.coord(o.err);
				rest -= lk;
			}
			if(lb > 0)
			{
				double a = rest * g.real(0.1, 0.9);
				add("drift", a);
				Part& b = add("bend", lb);
				b.h = ang / lb;
				if(rect)
					b.e1 = b.e2 = ang / 2;
				add("drift", rest - a);
			}
			else
				add("drift", rest);
		};
	for(int k = 0; k < n; ++k)
	{
		if(o.rf && (k == 0 || g.chance(1, 4)))
			add("rf", g.real(0.2, 1)).kick = g.logu(1e-4, 1e-3);   // voltage / momentum
		half(mux, 1);
		half(muy, -1);
	}
}
inline void build(Ring& r)
{
	double brho = 1 / per_brho(r.P0);
	AcceleratorModelConstructor mc;
	mc.NewModel();
	r.comp.clear();
	for(auto& p : r.parts)
	{
		AcceleratorComponent* c = nullptr;
		if(p.kind == "drift")
			c = mc.AppendComponent(new Drift(p.name, p.L));
		else if(p.kind == "marker")
			c = mc.AppendComponent(new Marker(p.name));
		else if(p.kind == "quad")
		{
			Quadrupole* q = new Quadrupole(p.name, p.L, p.k1 * brho);
			c = q;
			if(p.dx || p.dy)
			{
				ComponentFrame* f = new TComponentFrame<Quadrupole>(*q);
				f->Translate(p.dx, p.dy, 0);
				mc.AppendComponentFrame(f);
			}
			else
				mc.AppendComponent(q);
		}
		else if(p.kind == "bend")
		{
			SectorBend* b = new SectorBend(p.name, p.L, p.h, p.h * brho);
			if(p.k1)
				b->SetB1(p.k1 * brho);
			if(p.e1 || p.e2)
				b->SetPoleFaceInfo(new SectorBend::PoleFace(p.e1), new SectorBend::PoleFace(p.e2));
			c = mc.AppendComponent(b);
		}
		else if(p.kind == "coll")
			c = mc.AppendComponent(new Collimator(p.name, p.L));
		else if(p.kind == "sext")
			c = mc.AppendComponent(new Sextupole(p.name, p.L, p.k2 * brho));
		else if(p.kind == "rf")
		{
			// half a wavelength, at the zero crossing: phase stable above transition
			SWRFStructure* w = new SWRFStructure(p.name, 1, CLIGHT / (2 * p.L), p.kick * r.P0 / p.L, pi / 2);
			c = mc.AppendComponent(w);
		}
		else if(p.kind == "xcor")
			c = mc.AppendComponent(new XCor(p.name, p.L, p.kick * brho / (p.L > 0 ? p.L : 1)));
		else if(p.kind == "ycor")
			c = mc.AppendComponent(new YCor(p.name, p.L, p.kick * brho / (p.L > 0 ? p.L : 1)));
		r.comp.push_back(c);
	}
	r.model.reset(mc.GetModel());
}
inline Ring make(Gen& g, Ctx& c, const Opts& o = Opts())
{
	Ring r;
	r.P0 = beam_momentum(g);
	for(int k = 0;; ++k)
	{
		draw(g, r, o);
		if(stable(r))
			break;
		if(k == 12)
			c.discard();
	}
	build(r);
	c.desc << r.text();
	return r;
}
inline double slip(const Ring& r)       // change of the path length with momentum, in m
{
	double s = 0;
	for(size_t i = 0; i < r.parts.size(); ++i)
		if(r.parts[i].h != 0)
			s += r.parts[i].h * r.parts[i].L * (twiss(r.turn(i)).D + twiss(r.turn(i + 1)).D) / 2;
	return s;
}
inline V6 once(Ring& r, const V6& v, int n = 0)
{
	ParticleBunch b(r.P0, 1.0);
	b.AddParticle(mk(v));
	ParticleTracker t(r.model->GetRing(n), &b, false);
	t.Run();
	return un(t.GetTrackedBunch().GetParticles()[0]);
}
inline V6 along(Ring& r, const V6& v, int a, int b)     // through the parts a..b inclusive
{
	ParticleBunch bunch(r.P0, 1.0);
	bunch.AddParticle(mk(v));
	ParticleTracker t(r.model->GetBeamline(a, b), &bunch, false);
	t.Run();
	return un(t.GetTrackedBunch().GetParticles()[0]);
}
}
#endif
