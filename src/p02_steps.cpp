// P02: tracking a component in steps or pieces equals tracking it whole.
#include "mlib.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "BunchProcess.h"
using namespace ml;

pbt::Info pbt::info = {"P02",
	"Elements of every kind with random strength, pole faces and tilt, divided into 2 to 12 steps or pieces of random (also "
	"very short and equal) sizes, in every integrator set, with particles of the paraxial acceptance. Non-trivial: at least "
	"two steps of non-zero length and a particle that is off axis.",
	"Steps are longer than zero. Maps of the TRANSPORT set are quadratic, so they compose up to third order in the "
	"coordinates; multipoles of order two and higher are kicks in the centre of each step, so they compose to first order in "
	"strength for parallel particles, and converge for decreasing steps."};

namespace
{
// a random subdivision of L : sizes add up to L only approximately, the last one takes the remainder
std::vector<double> divide(Gen& g, double L, int maxn = 12)
{
	int n = g.i(2, maxn);
	std::vector<double> s;
	switch(g.raw(3))
	{
	case 0:
		s.assign(n, L / n);
		break;
	case 1:
	{
		double f = g.logu(1e-9, 0.5);
		s.push_back(f * L);
		s.push_back(L - f * L);
		if(g.b())
			std::swap(s[0], s[1]);
		break;
	}
	default:
	{
		double sum = 0;
		for(int i = 0; i < n; ++i)
		{
			s.push_back(0.02 + g.unit());
			sum += s.back();
		}
		for(double& x : s)
			x *= L / sum;
	}
	}
	return s;
}
// tracking with the component tracker as the transport process does: at most the remaining length
V6 stepped(Ctx& c, Set set, AcceleratorComponent& comp, double P0, double q, const V6& v, const std::vector<double>& steps)
{
	ParticleBunch b(P0, q);
	b.AddParticle(mk(v));
	ParticleComponentTracker t(iset(set));
	t.SetBunch(b);
	comp.PrepareTracker(t);
	double L = comp.GetLength(), s = 0;
	size_t i = 0;
	do
	{
		double ds = std::min(i < steps.size() ? steps[i] : L, t.GetRemainingLength());
		++i;
		double rest = t.TrackStep(ds);
		s += ds;
		c.near(rest, L - s, 0, 1e-12, "TrackStep returns the remaining length");
		c.near(t.GetRemainingLength(), L - s, 0, 1e-12, "remaining length");
		c.near(t.GetIntegratedLength(), s, 0, 1e-12, "integrated length");
		c.check(i < 1000, "tracking does not reach the end of the component");
	} while(t.GetRemainingLength() != 0);
	c.eq((int) t.GetState(), (int) ComponentTracker::finished, "state after the last step");
	c.near(b.GetReferenceTime(), L, 1e-12, 1e-12, "reference time");
	return un(b.GetParticles()[0]);
}
void compare(Ctx& c, const V6& a, const V6& b, double tol, const std::string& what)
{
	for(int i = 0; i < 6; ++i)
		c.near(a[i], b[i], 0, tol, what + " coordinate " + std::to_string(i) + " " + str(a) + " / " + str(b));
}
std::string txt(const std::vector<double>& s)
{
	std::ostringstream o;
	for(double x : s)
		o << x << " ";
	return o.str();
}
// kinds whose maps compose exactly
std::unique_ptr<El> exact_element(Gen& g, double P0, double q, Set set)
{
	ElOpts o;
	o.extra = false;
	std::string k = g.pick({"drift", "quad", "skewquad", "bend", "bend", "bend", "solenoid", "bpm", "quad"});
	return element(g, P0, q, k, o);
}
// roundoff scale of the closed forms (ct terms of gradient bends divide by h^2+K1)
double slack(const El& e, double P0, double q)
{
	double n = 1e-11;
	if(e.h)
	{
		double k1 = e.B.size() > 1 ? q * per_brho(P0) * e.B[1].real() : 0;
		double j1 = std::fabs(e.h * e.h + k1);
		n += 1e-13 * e.h * e.h * e.L / std::max(j1, 1e-9 / e.L / e.L);
	}
	return n;
}
}

LAW(exact_sets, 80000, 600000, "linear and exact maps: any steps equal the whole, entrance and exit effects once")
{
	double P0 = beam_momentum(g), q = charge(g);
	Set set = g.b() ? SYMP_SET : THIN_SET;
	auto e = exact_element(g, P0, q, set);
	V6 v = particle(g, 3e-3, 1e-2);
	if(set == THIN_SET && (e->kind == "quad" || e->kind == "skewquad"))
		v[5] = 0;   // linear in dp
	auto steps = divide(g, e->L);
	c.desc << setname(set) << " " << e->text() << " P0=" << P0 << " q=" << q << " " << str(v) << " steps " << txt(steps);
	c.label(e->kind);
	c.nontrivial(e->L > 0 && v[0] != 0 && v[1] != 0 && v[2] != 0 && v[3] != 0);
	V6 a = track1(set, *e->c, P0, q, v);
	V6 b = stepped(c, set, *e->c, P0, q, v, steps);
	compare(c, b, a, slack(*e, P0, q), e->kind + " in steps");
}

LAW(pieces, 40000, 300000, "consecutive shorter elements with the same field equal the whole element")
{
	double P0 = beam_momentum(g), q = charge(g);
	Set set = g.b() ? SYMP_SET : THIN_SET;
	auto e = exact_element(g, P0, q, set);
	if(e->L == 0)
		return;
	if(e->kind == "bpm" || e->kind == "solenoid")
		c.label("measurement or solenoid");
	V6 v = particle(g, 3e-3, 1e-2);
	if(set == THIN_SET && (e->kind == "quad" || e->kind == "skewquad"))
		v[5] = 0;
	auto steps = divide(g, e->L);
	c.desc << setname(set) << " " << e->text() << " P0=" << P0 << " q=" << q << " " << str(v) << " pieces " << txt(steps);
	c.label(e->kind);
	c.nontrivial(v[0] != 0 && v[1] != 0 && v[2] != 0 && v[3] != 0);
	V6 a = track1(set, *e->c, P0, q, v), b = v;
	for(size_t i = 0; i < steps.size(); ++i)
	{
		std::unique_ptr<AcceleratorComponent> p;
		double l = steps[i];
		if(e->kind == "drift")
			p.reset(new Drift("p", l));
		else if(e->kind == "bpm")
			p.reset(new BPM("p", l));
		else if(e->kind == "solenoid")
			p.reset(new Solenoid("p", l, e->Bz));
		else if(e->kind == "quad")
			p.reset(new Quadrupole("p", l, e->B[1].real()));
		else if(e->kind == "skewquad")
			p.reset(new SkewQuadrupole("p", l, e->B[1].imag()));
		else
		{
			SectorBend* s = new SectorBend("p", l, e->h, e->B[0].real());
			p.reset(s);
			if(e->B.size() > 1)
				s->SetB1(e->B[1].real());
			s->GetGeometry().SetTilt(e->tilt);
			if(e->face1)
				s->SetPoleFaceInfo(i == 0 ? new SectorBend::PoleFace(e->rot1, e->fint1, e->gap1) : nullptr,
					i + 1 == steps.size() ? new SectorBend::PoleFace(e->rot2, e->fint2, e->gap2) : nullptr);
		}
		b = track1(set, *p, P0, q, b);
	}
	compare(c, b, a, slack(*e, P0, q), e->kind + " in pieces");
}

LAW(transport, 40000, 200000, "TRANSPORT maps in steps equal the whole to second order in the coordinates")
{
	double P0 = beam_momentum(g), q = charge(g);
	auto e = exact_element(g, P0, q, TRANSPORT_SET);
	auto steps = divide(g, e->L, 6);
	V6 u;
	for(int i = 0; i < 6; ++i)
		u[i] = g.chance(1, 4) ? 0 : g.sym(1);
	c.desc << e->text() << " P0=" << P0 << " q=" << q << " direction " << str(u) << " steps " << txt(steps);
	c.label(e->kind);
	c.nontrivial(e->L > 0 && u[0] != 0 && u[1] != 0 && u[2] != 0 && u[3] != 0);
	const double a = 3e-5;
	V6 p, m, z{};
	for(int i = 0; i < 6; ++i)
	{
		p[i] = a * u[i];
		m[i] = -p[i];
	}
	V6 d0, dp, dm;
	double f = 0;
	auto diff = [&](const V6& v)
		{
			V6 w = track1(TRANSPORT_SET, *e->c, P0, q, v), s = stepped(c, TRANSPORT_SET, *e->c, P0, q, v, steps);
			for(int i = 0; i < 6; ++i)
			{
				f = std::max(f, std::fabs(w[i]) / a);
				w[i] = s[i] - w[i];
			}
			return w;
		};
	d0 = diff(z);
	dp = diff(p);
	dm = diff(m);
	// path length of gradient bends: second-order coefficients are approximate
	bool grad = e->h != 0 && e->B.size() > 1;
	for(int i = 0; i < 6; ++i)
	{
		std::string w = e->kind + " coordinate " + std::to_string(i);
		double scale = (1 + f) * (1 + f) * (1 + f);
		c.near(d0[i], 0, 0, 1e-14, w + " on axis");
		c.near((dp[i] - dm[i]) / 2 / a, 0, 0, 1e-7 * scale, w + " first order");
		if(i == 4 && grad)
			continue;
		c.near((dp[i] + dm[i] - 2 * d0[i]) / 2 / a / a, 0, 0, 1e-5 * scale, w + " second order");
	}
}

LAW(kicks, 40000, 200000, "multipole kicks are integrated over the length whatever the steps (first order in strength)")
{
	double P0 = beam_momentum(g), q = charge(g);
	Set set = (Set) g.i(0, 2);
	double L = length(g, 0.05, 4), brho = 1 / per_brho(P0);
	double r = g.logu(1e-3, 1e-1), x = g.coord(1) * r, y = g.coord(1) * r;
	bool bend = g.chance(1, 4);
	std::unique_ptr<AcceleratorComponent> m;
	// one or more multipole components giving kicks of order theta
	double theta = g.logu(1e-9, 1e-7);
	int n = g.i(0, 4);
	double ph = g.b() ? 0.5 * g.i(0, 3) : g.real(0, 2);
	double b = theta / L / std::pow(r, n) * brho / q;
	RectMultipole* rm = nullptr;
	SectorBend* sb = nullptr;
	if(bend)
	{
		n = std::max(n, 2);
		b = theta / L / std::pow(r, n) * brho / q;
		sb = new SectorBend("B", L, 0, 0);
		m.reset(sb);
		sb->GetField().SetComponent(n, b * std::cos(ph * M_PI), b * std::sin(ph * M_PI));
	}
	else
	{
		if(n == 1)
			n = 2, b = theta / L / r / r * brho / q;
		rm = new Sextupole("S", L, 0);
		m.reset(rm);
		rm->GetField().SetComponent(n, b * std::cos(ph * M_PI), b * std::sin(ph * M_PI));
	}
	auto steps = divide(g, L);
	V6 v{x, 0, y, 0, 0, g.coord(1e-2)};
	c.desc << setname(set) << (bend ? " bend" : " multipole") << " n=" << n << " L=" << L << " theta=" << theta << " phase " << ph
		   << " P0=" << P0 << " q=" << q << " " << str(v) << " steps " << txt(steps);
	c.label(setname(set));
	c.label("order " + std::to_string(n));
	c.nontrivial(x != 0 && y != 0);
	V6 a = track1(set, *m, P0, q, v), s = stepped(c, set, *m, P0, q, v, steps);
	double tol = (3e-4 * theta + 1e-14) * (1 + L);
	for(int i = 0; i < 4; ++i)
		c.near(s[i], a[i], 0, tol, "coordinate " + std::to_string(i));
	c.near(s[4], a[4], 0, 1e-7 * theta + 30 * theta * theta * (1 + L) + 1e-14, "ct");
	c.same(s[5], a[5], "dp");
	// and the kick is that of the field
	std::complex<double> F = q * per_brho(P0) / (1 + v[5]) * L * std::complex<double>(b * std::cos(ph * M_PI), b * std::sin(ph * M_PI))
		* std::pow(std::complex<double>(x, y), n);
	double cs = set == SYMP_SET ? 1 + v[5] : 1;
	// (chromatic effects are third order and not included in the TRANSPORT map of a sextupole)
	double chrom = set == TRANSPORT_SET ? 1.1 * std::fabs(v[5]) : 0;
	c.near(s[1], -F.real() * cs, 1e-3 + chrom, tol, "x kick");
	c.near(s[3], F.imag() * cs, 1e-3 + chrom, tol, "y kick");
}

LAW(convergence, 6000, 30000, "dividing any element further converges")
{
	double P0 = beam_momentum(g), q = charge(g);
	Set set = (Set) g.i(0, 2);
	ElOpts o;
	auto e = element(g, P0, q, g.pick({"quad", "sext", "skewsext", "oct", "deca", "xcor", "ycor", "bend", "bend"}), o);
	V6 v = particle(g, 1e-3, 1e-3);
	int n = g.i(12, 20);
	c.desc << setname(set) << " " << e->text() << " P0=" << P0 << " q=" << q << " " << str(v) << " " << n << " steps";
	c.label(e->kind);
	c.nontrivial(v[0] != 0 && v[2] != 0);
	V6 f[4];
	double lin = 0;
	for(int k = 0; k < 4; ++k)
		f[k] = k == 0 ? track1(set, *e->c, P0, q, v) :
			stepped(c, set, *e->c, P0, q, v, std::vector<double>((n << (k - 1)) - 1, e->L / (n << (k - 1))));
	for(int i = 0; i < 6; ++i)
		lin = std::max(lin, std::fabs(f[3][i]));
	for(int i = 0; i < 5; ++i)
	{
		// second order convergence of drift-kick-drift, plus third order truncation of the maps
		double d0 = std::fabs(f[0][i] - f[3][i]), d1 = std::fabs(f[1][i] - f[3][i]), d2 = std::fabs(f[2][i] - f[3][i]);
		double tiny = set == TRANSPORT_SET || set == THIN_SET ? 1e-3 * lin * (1 + e->L) : 1e-12;
		c.check(std::isfinite(f[0][i]) && std::isfinite(f[3][i]), "finite");
		c.near(d1, 0, 0, 0.05 * (1 + e->L) * lin + tiny, "coordinate " + std::to_string(i) + " far from the limit");
		if(set == SYMP_SET)
			c.check(d2 <= 0.35 * d1 + 1e-3 * d0 + 1e-12, "coordinate " + std::to_string(i) + " does not converge: "
				+ std::to_string(d1 * 1e9) + "e-9 -> " + std::to_string(d2 * 1e9) + "e-9");
	}
}

namespace
{
// a process that limits the steps and records them
struct Stepper: public TBunchProc<ParticleBunch>
{
	std::vector<double> sizes;
	size_t k = 0;
	double s = 0;
	std::vector<double> seen;
	Stepper(const std::vector<double>& sz, int prio) :
		TBunchProc<ParticleBunch>("STEPPER", prio), sizes(sz)
	{
	}
	void InitialiseProcess(Bunch& b)
	{
		TBunchProc<ParticleBunch>::InitialiseProcess(b);
		active = true;
	}
	void SetCurrentComponent(AcceleratorComponent& ac)
	{
		currentComponent = &ac;
		seen.push_back(0);
	}
	void DoProcess(double ds)
	{
		seen.back() += ds;
		++k;
	}
	double GetMaxAllowedStepSize() const
	{
		return sizes[k % sizes.size()];
	}
};
}

LAW(forced_steps, 10000, 60000, "a process that limits the steps of the tracker does not change the result")
{
	double P0 = beam_momentum(g), q = charge(g);
	Set set = g.b() ? SYMP_SET : THIN_SET;
	AcceleratorModelConstructor mc;
	mc.NewModel();
	int n = g.i(1, 5);
	std::vector<double> lengths;
	double sl = 1e-12, grow = 1;
	c.desc << setname(set) << " ";
	for(int i = 0; i < n; ++i)
	{
		ElOpts o;
		o.extra = false;
		o.maxk1 = 0.3;
		auto e = element(g, P0, q, g.pick({"drift", "quad", "skewquad", "bend", "bend", "solenoid", "bpm", "marker"}), o);
		c.desc << e->text() << "; ";
		lengths.push_back(e->L);
		sl += slack(*e, P0, q);
		grow *= 1 + e->L;
		mc.AppendComponent(*e->c.release());
	}
	std::unique_ptr<AcceleratorModel> model(mc.GetModel());
	std::vector<double> sizes;
	for(int i = g.i(1, 6); i > 0; --i)
		sizes.push_back(g.logu(0.01, 5));
	V6 v = particle(g, 1e-3, 0);
	v[5] = 0;
	c.desc << "P0=" << P0 << " q=" << q << " " << str(v) << " sizes " << txt(sizes);
	c.nontrivial(v[0] != 0 && v[2] != 0);
	auto run = [&](bool forced, double& time)
		{
			ParticleBunch b(P0, q);
			b.AddParticle(mk(v));
			ParticleTracker t(model->GetBeamline());
			t.SetIntegratorSet(&iset(set));
			Stepper* s = nullptr;
			if(forced)
				t.AddProcess(s = new Stepper(sizes, g.i(-1, 2)));
			t.Track(&b);
			if(s)
			{
				std::vector<double> got;
				double sum = 0, want = 0;
				c.eq(s->seen.size(), lengths.size(), "components seen by the process");
				for(size_t i = 0; i < lengths.size(); ++i)
				{
					c.near(s->seen[i], lengths[i], 1e-12, 1e-12, "length seen by the process");
					sum += s->seen[i], want += lengths[i];
				}
			}
			time = b.GetReferenceTime();
			return un(b.GetParticles()[0]);
		};
	double t0, t1;
	V6 a = run(false, t0), b = run(true, t1);
	compare(c, b, a, 10 * sl * grow, "line");
	c.near(t1, t0, 1e-12, 1e-12, "reference time");
}
