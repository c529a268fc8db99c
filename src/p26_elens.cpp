// P26: the hollow electron lens kicks only outside its inner radius, radially and by its law.
// Reference: the current enclosed by the radius of the particle (Biot-Savart), from the density of the profile.
#include "mlib.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "HollowElectronLens.h"
#include "HollowELensProcess.h"
#include "RandomNG.h"
#include <iostream>
using namespace ml;

pbt::Info pbt::info = {"P26",
	"Lenses of any radii, current, electron energy, direction and offset, with perfect, measured and scaled profile, in every mode "
	"of operation and histories of up to 40 turns with changes of the mode; one or two lenses in a line, also divided into steps; "
	"particles at any radius, also on the edges of the annulus. Non-trivial: at least one particle is kicked.",
	"Protons; the ranges of tunes of the AC mode are exactly representable. The kick of a lens that is divided into steps is judged "
	"for parallel particles, as its position within the lens is not specified."};

namespace
{
struct Silent
{
	std::ostringstream s;
	std::streambuf* old;
	Silent() : old(std::cout.rdbuf(s.rdbuf())) {}
	~Silent() { std::cout.rdbuf(old); }
};
struct Lens
{
	HollowElectronLens* c = nullptr;
	double L = 0, I = 1, be = 0.2, brho = 1, Le = 2, a = 1e-3, b = 2e-3, x = 0, y = 0;
	bool opposite = true, perfect = true, lhc = false;
	int mode = 0;
	// the turn counted by the lens
	int turn = 0, skip = 0;
	bool ac = false;
	double tune = 0, dtune = 0, step = 0, tps = 1, mult = 1;
	std::string text() const
	{
		std::ostringstream o;
		o << "lens L=" << L << " I=" << I << " be=" << be << " brho=" << brho << " Le=" << Le << " a=" << a << " b=" << b << " at " << x << ","
		  << y << (opposite ? " opposite" : " same") << (perfect ? " perfect" : lhc ? " lhc" : " measured") << " mode " << mode << " ";
		return o.str();
	}
};
// the fraction of the current within the radius r
double enclosed(const Lens& l, double r)
{
	if(r <= l.a)
		return 0;
	if(l.perfect)
		return r >= l.b ? 1 : (r - l.a) * (r + l.a) / ((l.b - l.a) * (l.b + l.a));
	// measured current density, linear between these radii
	static const double R0[] = {222.5, 252.5, 287, 364.5, 426.5}, R1[] = {222.5, 265, 315, 435, 505}, J[] = {0, 917, 397, 228, 0};
	const double* R = l.lhc ? R1 : R0;
	long double tot = 0, in = 0;
	long double u = (long double) r / l.a * R[0];
	for(int k = 0; k < 4; ++k)
	{
		auto f = [&](long double v)
			{
				return v * (J[k] + (v - R[k]) / (R[k + 1] - R[k]) * (J[k + 1] - J[k]));
			};
		auto simpson = [&](long double A, long double B)
			{
				return (B - A) / 6 * (f(A) + 4 * f((A + B) / 2) + f(B));
			};
		tot += simpson(R[k], R[k + 1]);
		if(u > R[k])
			in += simpson(R[k], std::min<long double>(u, R[k + 1]));
	}
	return double(in / tot);
}
double beta_of(double P0)
{
	const double m = 0.938272013;
	return P0 / std::sqrt(P0 * P0 + m * m);
}
// the outward angle of a particle at radius r
double kick(const Lens& l, double bp, double r)
{
	if(r == 0)
		return 0;
	// mu0/(4 pi) 2 I L / r (electric and magnetic field of the electrons)
	double th = 2e-7 * l.Le * l.I / (r * l.brho * l.be * bp) * enclosed(l, r);
	return l.opposite ? -th * (1 + l.be * bp) : th * (1 - l.be * bp);
}
// coordinates relative to an offset axis are known to rounding only
double tolerance(const Lens& l)
{
	return 4e-7 * l.Le * l.I / (l.a * l.brho * l.be) * 1e-9 + 1e-15;
}
Lens lens(Gen& g, double P0, const std::string& name)
{
	Lens l;
	l.L = g.chance(1, 4) ? 0 : length(g, 0.1, 3);
	l.I = g.chance(1, 10) ? 0 : g.real(0.1, 10);
	l.be = g.real(0.02, 0.5);
	l.brho = P0 * 1e9 / CLIGHT;
	l.Le = g.real(0.5, 5);
	l.a = g.pick({1e-3, 2e-3, g.logu(1e-4, 1e-2)});
	l.b = l.a * g.pick({1.5, 2.0, g.real(1.05, 4)});
	l.mode = g.i(0, 3);
	l.c = new HollowElectronLens(name, l.L, l.mode, l.I, l.be, l.brho, l.Le);
	if(g.b())
		l.c->SetRadii(l.a, l.b);
	else
	{
		l.c->SetRmax(l.b);
		l.c->SetRmin(l.a);
	}
	if(g.b())
	{
		l.c->XOffset = l.x = g.sym(2 * l.a);
		l.c->YOffset = l.y = g.sym(2 * l.a);
	}
	if(g.b())
	{
		l.opposite = g.b();
		l.c->SetElectronDirection(l.opposite);
	}
	switch(g.i(0, 3))
	{
	case 0:
		l.perfect = false;
		l.c->SetRadialProfile();
		break;
	case 1:
		l.perfect = false;
		l.lhc = true;
		l.c->SetRadialProfile();
		l.c->SetLHCRadialProfile();
		break;
	case 2:
		l.c->SetPerfectProfile();
	}
	return l;
}
void setmode(Gen& g, Ctx& c, Lens& l)
{
	switch(g.i(0, 4))
	{
	case 0:
		l.mode = g.pick({0, 2, 3, 1});
		l.c->SetOpMode(OperationMode(l.mode));
		c.desc << "mode " << l.mode << " ";
		break;
	case 1:
	case 2:
		l.mode = 1;
		l.ac = true;
		l.turn = 0;
		l.step = g.chance(1, 4) ? 0 : std::ldexp(1.0, -g.i(6, 14));
		l.dtune = g.chance(1, 4) ? 0 : l.step ? l.step / 2 * g.i(1, 12) : 0.125;
		l.tune = g.pick({0.3125, 0.28125, g.raw(64) / 64.0});
		l.tps = g.pick({1, 2, 3, 10});
		l.mult = g.pick({1, 1, 2, 9});
		l.c->SetAC(l.tune, l.dtune, l.step, l.tps, l.mult);
		c.desc << "AC tune " << l.tune << " +- " << l.dtune << " step " << l.step << " turns/step " << l.tps << " x" << l.mult << " ";
		break;
	case 3:
		l.mode = 3;
		l.skip = g.i(0, 7);
		l.c->SetTurnskip(l.skip);
		c.desc << "skip " << l.skip << " ";
		break;
	default:
		l.mode = 0;
		l.c->SetOpMode(DC);
		c.desc << "DC ";
	}
}
// the fraction of the kick in this turn (already counted); -1: nothing or everything
double strength(const Lens& l)
{
	switch(l.mode)
	{
	case 0:
		return 1;
	case 1:
	{
		if(!l.ac)
			return 0;
		double q = l.tune;
		if(l.step != 0 && l.dtune != 0)
		{
			int n = int(std::lround(2 * l.dtune / l.step)) + 1;
			int k = int(std::floor(l.turn / l.tps)) % n;
			q = l.tune - l.dtune + k * l.step;
		}
		double phase = std::fmod(l.mult * l.turn * q, 1.0);
		return 0.5 * (1 + std::cos(2 * pi * phase));
	}
	case 2:
		return -1;
	default:
		return l.turn % (l.skip ? l.skip : 2) == 0;
	}
}
struct Divider: public ParticleBunchProcess
{
	int n;
	double step = 1;
	Divider(int k) : ParticleBunchProcess("DIVIDER", 3), n(k) {}
	void SetCurrentComponent(AcceleratorComponent& c) override { active = true; step = std::max(c.GetLength(), 1e-9) / n; }
	void DoProcess(double) override {}
	double GetMaxAllowedStepSize() const override { return step; }
};
V6 particle_at(Gen& g, const Lens& l, bool parallel)
{
	double r;
	switch(g.i(0, 6))
	{
	case 0:
		r = l.a * g.pick({1.0, 0.999999, 1.000001, 0.0});
		break;
	case 1:
		r = l.b * g.pick({1.0, 0.999999, 1.000001, 3.0});
		break;
	case 2:
	{
		// edges of the measured profiles
		double f = g.pick({252.5, 287.0, 364.5, 426.5, 265.0, 315.0, 435.0, 505.0}) / 222.5;
		r = l.a * f * (1 + g.pick({0.0, 1e-7, -1e-7}));
		break;
	}
	case 3:
		r = l.a * g.unit();
		break;
	default:
		r = g.real(0.5 * l.a, 1.5 * l.b);
	}
	double t = g.pick({0.0, pi / 2, pi, -pi / 2, g.sym(pi), g.sym(pi), g.sym(pi)});
	V6 v{l.x + r * std::cos(t), 0, l.y + r * std::sin(t), 0, g.sym(0.01), g.sym(1e-3)};
	if(!parallel)
	{
		v[1] = g.coord(1e-4);
		v[3] = g.coord(1e-4);
	}
	return v;
}
}

LAW(kick, 30000, 400000, "a particle is turned by the current enclosed by its radius, towards or from the axis of the lens, and nothing else changes")
{
	Silent quiet;
	double P0 = g.pick({7000.0, 450.0, g.logu(1, 1e4)});
	Lens l = lens(g, P0, "H");
	std::unique_ptr<HollowElectronLens> owner(l.c);
	l.mode = 0;
	l.c->SetOpMode(DC);
	c.desc << "P0=" << P0 << " " << l.text();
	ParticleBunch b(P0, 1);
	std::vector<V6> in;
	int n = g.len(0, 12);
	for(int i = 0; i < n; ++i)
	{
		in.push_back(particle_at(g, l, false));
		b.AddParticle(mk(in.back(), 100 + i));
		c.desc << str(in.back()) << " ";
	}
	double Q = b.GetTotalCharge();
	HollowELensProcess p(1);
	p.InitialiseProcess(b);
	p.SetCurrentComponent(*l.c);
	c.check(p.IsActive(), "not active in a lens");
	c.eq(p.GetMaxAllowedStepSize(), l.L, "step of the lens");
	p.DoProcess(l.L);
	c.eq(b.size(), in.size(), "number of particles");
	c.eq(b.GetTotalCharge(), Q, "charge");
	c.eq(b.GetReferenceMomentum(), P0, "reference momentum");
	bool kicked = false;
	double bp = beta_of(P0);
	auto wrong = [&](double beta)
		{
			for(int i = 0; i < n; ++i)
			{
				const PSvector& o = b.GetParticles()[i];
				double dx = in[i][0] - l.x, dy = in[i][2] - l.y, r = std::hypot(dx, dy), th = r ? kick(l, beta, r) / r : 0, tol = tolerance(l);
				if(std::fabs(o.xp() - in[i][1] - th * dx) > tol || std::fabs(o.yp() - in[i][3] - th * dy) > tol)
					return true;
			}
			return false;
		};
	if(wrong(bp) && !wrong(1) && c.known("KF-03"))
		bp = 1;
	for(int i = 0; i < n; ++i)
	{
		const PSvector& o = b.GetParticles()[i];
		c.eq((long) o.id(), 100l + i, "order");
		for(int k : {0, 2, 4, 5})
			c.same(o[k], in[i][k], "coordinate " + std::to_string(k));
		double dx = in[i][0] - l.x, dy = in[i][2] - l.y, r = std::hypot(dx, dy);
		double th = kick(l, bp, r), tol = tolerance(l);
		double u = r > 0 ? r : 1;
		c.near(o.xp(), in[i][1] + th * dx / u, 0, tol, "horizontal kick at radius " + std::to_string(r / l.a) + " a");
		c.near(o.yp(), in[i][3] + th * dy / u, 0, tol, "vertical kick at radius " + std::to_string(r / l.a) + " a");
		if(r < l.a * (1 - 1e-12))
			c.check(o.xp() == in[i][1] && o.yp() == in[i][3], "a particle within the inner radius is touched");
		kicked |= std::fabs(th) > 0;
		// the functions that give the angle
		double s = l.perfect ? p.CalcKickSimple(r) : p.CalcKickRadial(r);
		c.near(s, kick(l, bp, r), 0, 2 * tol, "kick at a radius");
	}
	c.label(!l.perfect, "measured profile");
	c.nontrivial(kicked);
}

LAW(modes, 8000, 100000, "the lens follows its mode turn by turn, once per passage, whatever else divides the elements")
{
	Silent quiet;
	double P0 = g.pick({7000.0, g.logu(10, 1e4)});
	bool divide = g.chance(1, 3);
	int nl = divide ? 1 : g.i(1, 2);
	std::vector<Lens> lenses;
	std::vector<double> before(nl);     // drift in front of each lens
	AcceleratorModelConstructor mc;
	mc.NewModel();
	c.desc << "P0=" << P0 << (divide ? " divided " : " ");
	for(int k = 0; k < nl; ++k)
	{
		before[k] = g.chance(1, 3) ? 0 : g.real(0.1, 2);
		if(before[k] > 0)
			mc.AppendComponent(*new Drift("D" + std::to_string(k), before[k]));
		lenses.push_back(lens(g, P0, "H" + std::to_string(k)));
		mc.AppendComponent(*lenses.back().c);
		c.desc << lenses.back().text();
		if(g.chance(2, 3))
			setmode(g, c, lenses.back());
	}
	std::unique_ptr<AcceleratorModel> m(mc.GetModel());
	RandomNG::init(g.i(0, 1000));
	ParticleTracker t(m->GetBeamline());
	t.AddProcess(new HollowELensProcess(g.i(1, 2)));
	if(divide)
		t.AddProcess(new Divider(g.i(2, 5)));
	int turns = g.len(1, 40);
	bool kicked = false;
	double beta = beta_of(P0);
	for(int turn = 0; turn < turns; ++turn)
	{
		if(g.chance(1, 8))
		{
			c.desc << "| " << turn << ": ";
			setmode(g, c, lenses[g.raw(nl - 1)]);
		}
		const Lens& l0 = lenses[g.raw(nl - 1)];
		std::vector<V6> v;
		ParticleBunch b(P0, 1);
		for(int i = 0; i < 3; ++i)
		{
			// in a divided lens the position of the kick does not matter to parallel particles
			v.push_back(particle_at(g, l0, divide));
			b.AddParticle(mk(v.back(), i));
		}
		t.Track(&b);
		std::vector<double> s(nl);
		int nr = 0;
		for(int k = 0; k < nl; ++k)
		{
			++lenses[k].turn;
			s[k] = strength(lenses[k]);
			nr += s[k] < 0;
		}
		// a mode that draws random numbers kicks all of the particles or none of them
		std::string why;
		bool found = false;
		for(int bits = 0; bits < (2 << nr) && !found; ++bits)
		{
			// the second half of the choices is the known finding
			if(bits >> nr)
				beta = 1;
			bool ok = true;
			for(size_t i = 0; i < v.size(); ++i)
			{
				V6 z = v[i];
				double tol = 1e-14;
				int j = 0;
				for(int k = 0; k < nl; ++k)
				{
					const Lens& l = lenses[k];
					z[0] += z[1] * (before[k] + l.L);
					z[2] += z[3] * (before[k] + l.L);
					double f = s[k] < 0 ? (bits >> j++) & 1 : s[k];
					double dx = z[0] - l.x, dy = z[2] - l.y, r = std::hypot(dx, dy), th = f * kick(l, beta, r);
					tol += 1e-8 * 4e-7 * l.Le * l.I / (l.a * l.brho * l.be);
					if(r > 0)
					{
						z[1] += th * dx / r;
						z[3] += th * dy / r;
					}
				}
				const PSvector& o = b.GetParticles()[i];
				if(!(std::fabs(o.xp() - z[1]) <= tol && std::fabs(o.yp() - z[3]) <= tol))
				{
					ok = false;
					std::ostringstream w;
					w.precision(12);
					w << "turn " << turn << " particle " << i << ": angles " << o.xp() << "," << o.yp() << " expected " << z[1] << "," << z[3]
					  << " within " << tol;
					if(!(bits >> nr))
						why = w.str();
				}
				kicked |= std::hypot(z[1] - v[i][1], z[3] - v[i][3]) > tol;
			}
			found = ok && (!(bits >> nr) || c.known("KF-03"));
			beta = beta_of(P0);
		}
		c.check(found, why);
	}
	c.label(divide, "divided");
	c.nontrivial(kicked);
}

LAW(diffusive, 120, 1500, "the diffusive mode is on in half of the turns, at random and reproducibly")
{
	Silent quiet;
	double P0 = 7000;
	HollowElectronLens h("H", 1, 2, 5, 0.2, P0 * 1e9 / CLIGHT, 3);
	h.SetRadii(1e-3, 2e-3);
	int seed = g.i(0, 1 << 20), n = g.i(400, 1500);
	c.desc << "seed " << seed << " turns " << n;
	std::vector<bool> on[2];
	for(auto& o : on)
	{
		RandomNG::init(seed);
		HollowELensProcess p(1);
		ParticleBunch b(P0, 1);
		b.AddParticle(mk(V6{1.5e-3, 0, 0, 0, 0, 0}));
		b.AddParticle(mk(V6{0, 0, 2.5e-3, 0, 0, 0}));
		p.InitialiseProcess(b);
		for(int k = 0; k < n; ++k)
		{
			for(auto& x : b.GetParticles())
				x.xp() = x.yp() = 0;
			p.SetCurrentComponent(h);
			p.DoProcess(1);
			bool a = b.GetParticles()[0].xp() != 0;
			c.eq(b.GetParticles()[1].yp() != 0, a, "both particles or none");
			o.push_back(a);
		}
	}
	c.check(on[0] == on[1], "the same seed gives another sequence");
	int k = 0, same = 0;
	for(int i = 0; i < n; ++i)
	{
		k += on[0][i];
		same += i && on[0][i] == on[0][i - 1];
	}
	double sig = std::sqrt(n) / 2;
	c.near(k, n / 2.0, 0, 6.2 * sig, "turns with the lens on");
	c.near(same, (n - 1) / 2.0, 0, 6.2 * sig, "turns like the one before");
	c.nontrivial();
}

LAW(profile, 400, 5000, "the written profile lists the kicks of both profiles over the radii asked for; other elements are no lenses")
{
	double P0 = g.pick({7000.0, g.logu(2, 1e4)});
	std::ostringstream os;
	Lens l;
	double lo = g.chance(1, 3) ? 0 : g.real(0, 4), hi = lo + g.real(1, 10), sig = g.logu(1e-4, 1e-3);
	{
		Silent quiet;
		l = lens(g, P0, "H");
		std::unique_ptr<HollowElectronLens> owner(l.c);
		l.a = 4 * sig;
		l.b = 8 * sig;
		l.c->SetRadii(l.a, l.b);
		l.c->Sigma_x = sig;
		c.desc << l.text() << "sigma " << sig << " from " << lo << " to " << hi;
		HollowELensProcess p(1);
		ParticleBunch b(P0, 1);
		p.InitialiseProcess(b);
		Drift d("D", 1);
		p.SetCurrentComponent(d);
		c.check(!p.IsActive(), "active in a drift");
		p.SetCurrentComponent(*l.c);
		p.OutputProfile(&os, P0, lo, hi);
	}
	std::istringstream is(os.str());
	std::string line;
	std::getline(is, line);
	int n = 0;
	double last = 0;
	while(std::getline(is, line))
	{
		std::istringstream f(line);
		double x, rad, simple, ar, as;
		c.check(bool(f >> x >> rad >> simple >> ar >> as), "five columns in " + line);
		if(n == 0)
			c.near(x, lo, 1e-5, 1e-9, "first radius");
		else
			c.check(x >= last, "radii increase");
		last = x;
		++n;
		double full = 4e-7 * l.Le * l.I / (l.a * l.brho * l.be);
		// six digits are printed, also of the radius
		double tol = 1e-4 * full;
		Lens q = l;
		q.perfect = true;
		double bp = beta_of(P0);
		if(std::fabs(simple - kick(q, bp, x * sig)) > tol && std::fabs(simple - kick(q, 1, x * sig)) <= tol && c.known("KF-03"))
			bp = 1;
		c.near(simple, kick(q, bp, x * sig), 0, tol, "perfect profile");
		q.perfect = false;
		if(std::fabs(rad - kick(q, bp, x * sig)) > tol && std::fabs(rad - kick(q, 1, x * sig)) <= tol && c.known("KF-03"))
			bp = 1;
		c.near(rad, kick(q, bp, x * sig), 0, tol, "measured profile");
		c.near(ar, std::fabs(rad), 1e-5, 0, "magnitude");
		c.near(as, std::fabs(simple), 1e-5, 0, "magnitude");
	}
	c.check(n >= 100, "number of rows " + std::to_string(n));
	c.near(last, hi, 0, (hi - lo) / 100, "last radius");
	c.nontrivial();
}
