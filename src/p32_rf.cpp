// P32: cavities change energy by their voltage and phase.
#include "mlib.h"
#include "TWRFStructure.h"
#include "SWRFStructure.h"
#include "TransverseRFStructure.h"
#include "Klystron.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "ParticleTracker.h"
#include "TransportMatrix.h"
#include "TransportRMap.h"
using namespace ml;
using PhysicalConstants::SpeedOfLight;

pbt::Info pbt::info = {"P32",
	"Travelling-wave, standing-wave and transverse structures of random length, frequency, voltage (up to 30% of the beam "
	"momentum, either sign), phase (crest, zero crossing, anywhere) and integrator set; particles of any arrival time; lines of "
	"cavities, drifts and quadrupoles; klystrons with histories of settings. Non-trivial: the amplitude is not zero.",
	"Focusing is compared with a Runge-Kutta integration of the ponderomotive equations of motion with edge kicks. Maps are "
	"judged to first order in the coordinates, travelling-wave maps to second order in the energy gain."};

namespace
{
struct Cav
{
	std::unique_ptr<RFStructure> c;
	bool sw = false;
	double L = 0, g = 0, f = 0, phi = 0, k = 0;
	double V() const
	{
		return g * L;
	}
	std::string text() const
	{
		std::ostringstream o;
		o << (sw ? "SW" : "TW") << " L=" << L << " V=" << V() << " f=" << f << " phi=" << phi;
		return o.str();
	}
};
double phase(Gen& g)
{
	switch(g.i(0, 4))
	{
	case 0:
		return 0;
	case 1:
		return g.pick({pi / 2, -pi / 2, pi, 0.0, pi / 6});
	default:
		return g.sym(pi);
	}
}
Cav cavity(Gen& g, double P0, bool sw, double umax = 0.3)
{
	Cav a;
	a.sw = sw;
	a.f = g.logu(1e8, 3e9);
	double u = g.chance(1, 12) ? 0 : umax * g.sym(1);
	if(g.chance(1, 4))
		u *= g.logu(1e-6, 1);
	a.phi = phase(g);
	if(sw)
	{
		int n = g.i(1, 9);
		a.c.reset(new SWRFStructure("c", n, a.f, 0, a.phi));
		a.L = n * SpeedOfLight / a.f / 2;
		a.g = u * P0 / a.L;
		a.c->SetAmplitude(a.g);
	}
	else
	{
		a.L = g.chance(1, 4) ? g.i(1, 10) : g.unit() * 10 + 0.01;
		a.g = u * P0 / a.L;
		a.c.reset(new TWRFStructure("c", a.L, a.f, a.g, a.phi));
	}
	a.k = twoPi * a.f / SpeedOfLight;
	return a;
}
// transverse map of (x, px) in units of the initial momentum, through edge, body, edge
struct M2
{
	double a, b, c, d;
};
M2 operator*(const M2& p, const M2& q)
{
	return {p.a * q.a + p.b * q.c, p.a * q.b + p.b * q.d, p.c * q.a + p.d * q.c, p.c * q.b + p.d * q.d};
}
M2 body(const Cav& a, double P0)
{
	double G = a.g * cos(a.phi) / P0, e = a.sw ? a.g * a.g / 8 / P0 / P0 : 0;
	auto run = [&](double x, double p)
		{
			const int N = 200;
			double h = a.L / N, s = 0;
			auto fx = [&](double t, double, double pp) {
					return pp / (1 + G * t);
				};
			auto fp = [&](double t, double xx, double) {
					return -e * xx / (1 + G * t);
				};
			p -= G / 2 * x;
			for(int i = 0; i < N; ++i)
			{
				double k1 = fx(s, x, p), l1 = fp(s, x, p);
				double k2 = fx(s + h / 2, x + h / 2 * k1, p + h / 2 * l1), l2 = fp(s + h / 2, x + h / 2 * k1, p + h / 2 * l1);
				double k3 = fx(s + h / 2, x + h / 2 * k2, p + h / 2 * l2), l3 = fp(s + h / 2, x + h / 2 * k2, p + h / 2 * l2);
				double k4 = fx(s + h, x + h * k3, p + h * l3), l4 = fp(s + h, x + h * k3, p + h * l3);
				x += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
				p += h / 6 * (l1 + 2 * l2 + 2 * l3 + l4);
				s += h;
			}
			p += G / 2 * x;
			return std::make_pair(x, p);
		};
	auto u = run(1, 0), v = run(0, 1);
	return {u.first, v.first, u.second, v.second};
}
Set a_set(Gen& g, bool sw)
{
	if(sw)
		return g.b() ? TRANSPORT_SET : SYMP_SET;
	return (Set) g.i(0, 2);
}
}

LAW(energy, 80000, 400000,
	"every particle gains V cos(phi - k ct), a reference particle stays at dp=0 and the reference momentum follows it, whatever the steps")
{
	double P0 = beam_momentum(g), q = charge(g);
	bool sw = g.b();
	Set s = a_set(g, sw);
	Cav a = cavity(g, P0, sw, g.b() ? 0.3 : 0.01);
	bool full = true;
	if(!sw && s != SYMP_SET && g.chance(1, 4))
	{
		full = false;
		a.c->GetField();
		const_cast<RFAcceleratingField&>(static_cast<const RFAcceleratingField&>(a.c->GetField())).SetFullAcceleration(false);
	}
	ParticleBunch b(P0, q);
	int n = g.i(1, 4);
	std::vector<V6> in;
	for(int i = 0; i < n; ++i)
	{
		V6 v = particle(g, 1e-3, 1e-2);
		if(i == 0)
			v = V6{};
		else
			v[4] = g.b() ? g.sym(0.5) / a.k : g.sym(20) / a.k;
		in.push_back(v);
		b.AddParticle(mk(v));
	}
	std::vector<double> steps;
	if(!sw && g.b())
	{
		int m = g.i(2, 5);
		double sum = 0;
		for(int i = 0; i < m; ++i)
		{
			steps.push_back(0.1 + g.unit());
			sum += steps.back();
		}
		for(auto& x : steps)
			x *= a.L / sum;
	}
	c.desc << setname(s) << " " << a.text() << " P0=" << P0 << " full=" << full << " steps " << steps.size();
	c.nontrivial(a.g != 0);
	c.label(setname(s));
	c.label(!steps.empty(), "steps");
	track(s, *a.c, b, steps);
	double P1 = b.GetReferenceMomentum();
	bool ref = full && (sw || s != SYMP_SET);
	c.near(P1, ref ? P0 + a.V() * cos(a.phi) : P0, 1e-12, 0, "reference momentum");
	c.eq((int) b.size(), n, "number of particles");
	for(int i = 0; i < n; ++i)
	{
		V6 o = un(b.GetParticles()[i]);
		double gain = P1 * (1 + o[5]) - P0 * (1 + in[i][5]);
		// (in the SYMPLECTIC set the arrival time changes along the cavity)
		double lo = a.V() * cos(a.phi - a.k * in[i][4]), slack = a.k * std::fabs(o[4] - in[i][4]);
		c.near(gain, lo, 0, 1e-12 * P0 + std::fabs(a.V()) * (slack + 1e-12 * a.k * std::fabs(in[i][4])), "gain of particle " + std::to_string(i) + " " + str(in[i]));
		if(s != SYMP_SET)
			c.near(o[4], in[i][4], 0, 1e-4 * (a.L + 1), "arrival time");
		if(i == 0 && ref)
			c.near(o[5], 0, 0, 1e-13, "dp of the reference particle");
	}
}

LAW(focusing, 32000, 120000,
	"the transverse map is that of the ponderomotive model with edge focusing, alike in both planes, and conserves normalised phase space")
{
	double P0 = beam_momentum(g), q = charge(g);
	bool sw = g.b();
	Set s = sw ? a_set(g, true) : (Set) g.i(0, 1);
	if(!sw && s == SYMP_SET)
		s = THIN_SET;
	Cav a = cavity(g, P0, sw, g.b() ? 0.3 : 0.03);
	c.desc << setname(s) << " " << a.text() << " P0=" << P0;
	c.nontrivial(a.g != 0);
	c.label(setname(s));
	double u = a.V() * cos(a.phi) / P0;
	M2 r = body(a, P0);
	double P1 = P0 + a.V() * cos(a.phi);
	r.c *= P0 / P1;
	r.d *= P0 / P1;
	M6 J = jacobian([&](const V6& v) {
			return track1(s, *a.c, P0, q, v);
		}, V6{}, V6{1e-5, 1e-6, 1e-5, 1e-6, 1e-5, 1e-6});
	// two terms of the logarithm in the travelling-wave map
	double tol = sw ? 1e-7 : 1e-7 + u * u;
	for(int p = 0; p < 4; p += 2)
	{
		std::string w = p ? " (vertical)" : " (horizontal)";
		c.near(J[p][p], r.a, 0, tol, "x|x" + w);
		c.near(J[p][p + 1], r.b, 0, tol * a.L, "x|x'" + w);
		c.near(J[p + 1][p], r.c, 0, (sw ? 1e-7 : 1e-7 + std::fabs(u * u * u)) / a.L, "x'|x" + w);
		c.near(J[p + 1][p + 1], r.d, 0, tol, "x'|x'" + w);
		c.near((J[p][p] * J[p + 1][p + 1] - J[p + 1][p] * J[p][p + 1]) * P1 / P0, 1, 1e-7, 0, "normalised phase space" + w);
		for(int i = 0; i < 4; ++i)
			if(i / 2 != p / 2)
			{
				c.near(J[p][i], 0, 0, 1e-9, "coupling" + w);
				c.near(J[p + 1][i], 0, 0, 1e-9, "coupling" + w);
			}
	}
	c.near(J[5][5], P0 / P1, 1e-7, 0, "dp|dp");
	c.near(J[5][4], a.k * a.V() * sin(a.phi) / P1, 1e-6, 1e-8 * a.k * std::fabs(a.V()) / P0 + 1e-9, "dp|ct");
	c.near(J[4][4], 1, 1e-9, 0, "ct|ct");
}

LAW(matrices, 16000, 60000, "the cavity matrices of TransportMatrix agree with the same model in two, four and six dimensions")
{
	double P0 = beam_momentum(g);
	bool sw = g.b();
	Cav a = cavity(g, P0, sw, g.b() ? 0.3 : 0.03);
	c.nontrivial(a.g != 0);
	if(a.g == 0)
		c.discard();
	c.desc << a.text() << " P0=" << P0;
	M2 r = body(a, P0);
	double u = a.V() * cos(a.phi) / P0, P1 = P0 * (1 + u);
	int n = sw ? g.pick({2, 4}) : g.pick({2, 4, 6});
	bool noends = !sw && g.b();
	RealMatrix R(n);
	for(int i = 0; i < n; ++i)
		for(int j = 0; j < n; ++j)
			R(i, j) = 77;
	if(sw)
	{
		int cells = (int) std::lround(a.L / (SpeedOfLight / a.f / 2));
		TransportMatrix::SWRFCavity(cells, a.g, a.f, a.phi, P0, R);
	}
	else
		TransportMatrix::TWRFCavity(a.L, a.g, a.f, a.phi, P0, noends, R);
	if(noends)   // the end fields are elsewhere
	{
		double G = u / a.L;
		r = M2{1, 0, -G / 2, 1} * r * M2{1, 0, G / 2, 1};
	}
	r.c *= P0 / P1;
	r.d *= P0 / P1;
	double tol = 1e-8;
	if(!sw && std::fabs(a.V() * cos(a.phi)) < 1e-15)   // taken for a drift
		tol += 2 * std::fabs(u);
	if(!sw)
		tol += 1e-15 / std::max(std::fabs(u), 1e-15);
	for(int p = 0; p < n && p < 4; p += 2)
	{
		c.near(R(p, p), r.a, 0, tol, "R11");
		c.near(R(p, p + 1), r.b, 0, tol * a.L, "R12");
		c.near(R(p + 1, p), r.c, 0, tol / a.L, "R21");
		c.near(R(p + 1, p + 1), r.d, 0, tol, "R22");
	}
	if(n == 6)
	{
		c.near(R(5, 5), P0 / P1, 1e-12, 0, "R66");
		c.near(R(5, 4), a.k * a.V() * sin(a.phi) / P1, 1e-12, 1e-14 * a.k, "R65");
		c.near(R(4, 4), 1, 0, 0, "R55");
		c.near(R(4, 5), 0, 0, 0, "R56");
	}
}

LAW(sparse_maps, 16000, 60000, "the sparse maps of a cavity are those of the same model, in one plane and in six dimensions, with any of its end fields")
{
	double P0 = beam_momentum(g);
	bool sw = g.b();
	Cav a = cavity(g, P0, sw, g.b() ? 0.3 : 0.03);
	c.nontrivial(a.g != 0);
	M2 r = body(a, P0);
	double u = a.V() * cos(a.phi) / P0, P1 = P0 * (1 + u), G = u / a.L;
	bool in = g.b(), out = g.b();
	c.desc << a.text() << " P0=" << P0 << " ends " << in << out;
	R2Map m;
	RMap R;
	if(sw)
	{
		int cells = (int) std::lround(a.L / (SpeedOfLight / a.f / 2));
		TransportRMap::SWRFCavity(cells, a.g, a.f, a.phi, P0, m);
		TransportRMap::SWRFCavity(cells, a.g, a.f, a.phi, P0, R);
	}
	else
	{
		TransportRMap::TWRFCavity(a.L, a.g, a.f, a.phi, P0, in, out, m);
		TransportRMap::TWRFCavity(a.L, a.g, a.f, a.phi, P0, in, out, R);
		if(!in)
			r = r * M2{1, 0, G / 2, 1};
		if(!out)
			r = M2{1, 0, -G / 2, 1} * r;
	}
	r.c *= P0 / P1;
	r.d *= P0 / P1;
	// two terms of the logarithm in the travelling-wave map
	double tol = sw ? 1e-8 : 1e-8 + u * u;
	c.near(m.r11, r.a, 0, tol, "R11");
	c.near(m.r12, r.b, 0, tol * a.L, "R12");
	c.near(m.r21, r.c, 0, (sw ? 1e-8 : 1e-8 + std::fabs(u * u * u)) / a.L, "R21");
	c.near(m.r22, r.d, 0, tol, "R22");
	M6 w{};
	w[0][0] = w[2][2] = m.r11;
	w[0][1] = w[2][3] = m.r12;
	w[1][0] = w[3][2] = m.r21;
	w[1][1] = w[3][3] = m.r22;
	w[4][4] = 1;
	w[5][4] = a.k * a.V() * sin(a.phi) / P1;
	w[5][5] = P0 / P1;
	for(int i = 0; i < 6; ++i)
		for(int j = 0; j < 6; ++j)
			c.near(((const RMap&) R)(i + 1, j + 1), w[i][j], 1e-12, 1e-14 * (i == 5 ? 1 + a.k : 1), "element " + std::to_string(i + 1) + std::to_string(j + 1));
}

LAW(symplectic_rf, 16000, 60000, "in the SYMPLECTIC set a travelling-wave cavity is a canonical kick in the middle of a drift")
{
	double P0 = beam_momentum(g), q = charge(g);
	Cav a = cavity(g, P0, false, 0.05);
	V6 v = particle(g, 1e-3, 1e-2);
	v[4] = g.sym(1) / a.k;
	c.desc << a.text() << " P0=" << P0 << " " << str(v);
	c.nontrivial(a.g != 0);
	M6 J = jacobian([&](const V6& w) {
			return track1(SYMP_SET, *a.c, P0, q, w);
		}, v, V6{2e-6, 2e-6, 2e-6, 2e-6, 2e-6, 2e-6});
	double w = norm(J);
	double curv = a.k * a.k * a.k * std::fabs(a.V()) / P0 * 4e-12;
	c.near(symplectic_error(J, 6), 0, 0, 1e-7 * (1 + w) * (1 + w) + curv * (1 + w), "symplectic condition");
	// equals drift, kick, drift
	Drift d("d", a.L / 2);
	V6 x = track1(SYMP_SET, d, P0, q, v);
	x[5] += a.V() / P0 * cos(a.phi - a.k * x[4]);
	V6 y = track1(SYMP_SET, d, P0, q, x), o = track1(SYMP_SET, *a.c, P0, q, v);
	for(int i = 0; i < 6; ++i)
		c.near(o[i], y[i], 1e-12, 1e-14, "coordinate " + std::to_string(i + 1));
}

LAW(deflector, 32000, 120000,
	"a transverse structure deflects by V cos(phi - k ct) along its orientation over the particle's momentum, from its middle, whatever the steps")
{
	double P0 = beam_momentum(g), q = charge(g);
	Set s = g.b() ? TRANSPORT_SET : THIN_SET;
	double L = g.chance(1, 4) ? 1 : 0.01 + 3 * g.unit(), f = g.logu(1e8, 3e9), u = 1e-3 * g.sym(1), phi = phase(g);
	double th = g.chance(1, 3) ? g.pick({0.0, pi / 2, pi, -pi / 2}) : g.sym(pi), k = twoPi * f / SpeedOfLight;
	TransverseRFStructure t("t", L, f, u * P0 / L, phi, th);
	V6 v = particle(g, 1e-3, 1e-2);
	v[4] = g.sym(3) / k;
	std::vector<double> steps;
	if(g.b())
	{
		int m = g.i(2, 5);
		double sum = 0;
		for(int i = 0; i < m; ++i)
			sum += (steps.push_back(0.1 + g.unit()), steps.back());
		for(auto& x : steps)
			x *= L / sum;
	}
	c.desc << setname(s) << " L=" << L << " V/P0=" << u << " phi=" << phi << " theta=" << th << " k=" << k << " steps " << steps.size() << " " << str(v);
	c.nontrivial(u != 0);
	c.label(!steps.empty(), "steps");
	V6 o = track1(s, t, P0, q, v, steps);
	double d = u * cos(phi - k * v[4]) / (1 + v[5]), slack = std::fabs(u) * k * 1e-4 * L;
	c.near(o[1], v[1] + d * cos(th), 1e-12, 1e-14 + slack, "x'");
	c.near(o[3], v[3] + d * sin(th), 1e-12, 1e-14 + slack, "y'");
	c.near(o[0], v[0] + L * (v[1] + d * cos(th) / 2), 1e-12, 1e-14 + slack * L, "x");
	c.near(o[2], v[2] + L * (v[3] + d * sin(th) / 2), 1e-12, 1e-14 + slack * L, "y");
	c.near(o[5], v[5], 0, 0, "dp");
}

LAW(linac, 6000, 25000, "along a line the reference momentum adds up, magnets act with the local rigidity, and lattices of cavities compose")
{
	double P0 = beam_momentum(g), q = 1;
	struct Piece
	{
		int kind;
		double L, K;
		Cav a;
	};
	std::vector<Piece> ps;
	AcceleratorModelConstructor mc;
	mc.NewModel();
	int n = g.i(1, 12), cavities = 0;
	double P = P0;
	M2 mx{1, 0, 0, 1}, my = mx;
	double small = 0, total = 0;
	bool tw = false;
	for(int i = 0; i < n; ++i)
	{
		std::string name = "e" + std::to_string(i);
		int kind = g.i(0, 3);
		if(kind == 0)
		{
			double L = 0.1 + g.unit();
			mc.AppendComponent(new Drift(name, L));
			M2 d{1, L / P, 0, 1};
			mx = d * mx;
			my = d * my;
			total += L;
			c.desc << " d" << L;
		}
		else if(kind == 1)
		{
			double L = 0.2, B1 = g.sym(2);
			mc.AppendComponent(new Quadrupole(name, L, B1));
			double k1 = q * B1 * 0.299792458 / P;
			auto quad = [&](double kk)
				{
					std::complex<double> w = std::sqrt(std::complex<double>(kk, 0)), cw = std::cos(w * L),
						sw = kk == 0 ? std::complex<double>(L, 0) : std::sin(w * L) / w;
					return M2{cw.real(), sw.real() / P, -kk * sw.real() * P, cw.real()};
				};
			mx = quad(k1) * mx;
			my = quad(-k1) * my;
			total += L;
			c.desc << " q" << B1;
		}
		else
		{
			Cav a = cavity(g, P, g.b(), 0.03);
			double V = a.V() * cos(a.phi);
			if(!a.sw)
			{
				small += V * V / P / P;
				tw = true;
			}
			c.desc << " " << a.text();
			M2 b = body(a, P);
			b.b /= P;
			b.c *= P;
			mx = b * mx;
			my = b * my;
			P += V;
			total += a.L;
			++cavities;
			if(a.g != 0)
				c.nontrivial();
			mc.AppendComponent(static_cast<RFStructure*>(a.c->Copy()));
		}
	}
	c.label(tw, "travelling wave");
	std::unique_ptr<AcceleratorModel> m(mc.GetModel());
	auto once = [&](const V6& v, double* ref)
		{
			ParticleBunch b(P0, q);
			b.AddParticle(mk(v));
			ParticleTracker t(m->GetBeamline(), &b, false);
			t.Run();
			ParticleBunch& bunch = t.GetTrackedBunch();
			if(ref)
				*ref = bunch.GetReferenceMomentum();
			return un(bunch.GetParticles()[0]);
		};
	double ref = 0;
	V6 z = once(V6{}, &ref);
	c.near(ref, P, 1e-11, 0, "momentum at the end");
	for(int i = 0; i < 6; ++i)
		c.near(z[i], 0, 0, 1e-12, "reference particle");
	M6 J = jacobian([&](const V6& v) {
			return once(v, nullptr);
		}, V6{}, V6{1e-6, 1e-7, 1e-6, 1e-7, 1e-6, 1e-6});
	double scale = 1 + std::fabs(mx.a) + std::fabs(mx.b * P0) + std::fabs(mx.c / P0) + std::fabs(mx.d) + std::fabs(my.a) + std::fabs(my.b * P0) + std::fabs(my.c / P0) + std::fabs(my.d);
	double tol = (3e-6 + small) * scale * scale * (1 + total);
	c.near(J[0][0], mx.a, 0, tol, "x|x");
	c.near(J[0][1], mx.b * P0, 0, tol, "x|x'");
	c.near(J[1][0] * P, mx.c, 0, tol * P0, "x'|x");
	c.near(J[1][1] * P, mx.d * P0, 0, tol * P0, "x'|x'");
	c.near(J[2][2], my.a, 0, tol, "y|y");
	c.near(J[2][3], my.b * P0, 0, tol, "y|y'");
	c.near(J[3][2] * P, my.c, 0, tol * P0, "y'|y");
	c.near(J[3][3] * P, my.d * P0, 0, tol * P0, "y'|y'");
}

LAW(klystron, 24000, 100000,
	"after any history a klystron's phasor is the vector sum of its cavities: equal in a balanced one, in constant proportion otherwise")
{
	int n = g.i(1, 5);
	std::vector<std::unique_ptr<RFStructure> > own;
	std::vector<RFStructure*> cs;
	std::vector<Complex> z0;
	Complex sum = 0;
	double scale = 0;
	for(int i = 0; i < n; ++i)
	{
		double V = g.logu(1e-3, 1), phi = phase(g), L = 0.5 + g.unit();
		if(g.b())
			own.emplace_back(new TWRFStructure("t", L, 1e9, V / L, phi));
		else
		{
			own.emplace_back(new SWRFStructure("s", g.i(1, 9), 1e9, 0, phi));
			own.back()->SetVoltage(V);
		}
		cs.push_back(own.back().get());
		z0.push_back(std::polar(V, phi));
		sum += z0.back();
		scale += V;
	}
	if(std::abs(sum) < 0.05 * scale)   // (nothing to scale)
		c.discard();
	bool vs = g.b();
	c.desc << n << " cavities, " << (vs ? "vector sum" : "balanced");
	c.label(vs, "vector sum");
	Klystron k("k", cs, vs ? Klystron::vector_sum : Klystron::balanced);
	c.eq((int) k.GetNumberOfCavities(), n, "GetNumberOfCavities");
	Complex want = sum;
	auto verify = [&](const std::string& what)
		{
			double m = std::abs(want);
			auto close = [&](Complex a, Complex b, const std::string& w)
				{
					c.near(a.real(), b.real(), 0, 1e-10 * (m + scale), what + ": " + w + " (real)");
					c.near(a.imag(), b.imag(), 0, 1e-10 * (m + scale), what + ": " + w + " (imaginary)");
				};
			close(k.GetVoltagePhasor(), want, "phasor of the klystron");
			close(std::polar(1.0, k.GetPhase()) * k.GetVoltage(), want, "voltage and phase");
			Complex t = 0;
			for(int i = 0; i < n; ++i)
			{
				Complex z = cs[i]->GetVoltagePhasor();
				t += z;
				close(z, vs ? want * (z0[i] / sum) : want / (double) n, "cavity " + std::to_string(i));
			}
			close(t, want, "sum of the cavities");
		};
	verify("at first");
	c.nontrivial();
	double V = k.GetVoltage(), phi = k.GetPhase();
	int ops = g.i(1, 6);
	for(int i = 0; i < ops; ++i)
	{
		std::string w = "step " + std::to_string(i);
		switch(g.i(0, 2))
		{
		case 0:
			V = g.logu(1e-3, 10);
			if(g.chance(1, 5))
				V = -V;
			k.SetVoltage(V);
			w += " SetVoltage";
			break;
		case 1:
			phi = g.sym(7);
			k.SetPhase(phi);
			w += " SetPhase";
			break;
		default:
			{
				Complex z = std::polar(g.logu(1e-3, 10), g.sym(pi));
				k.SetVoltagePhasor(z);
				V = std::abs(z);
				phi = std::arg(z);
				w += " SetVoltagePhasor";
			}
		}
		want = V * std::polar(1.0, phi);
		c.desc << ", " << w << " " << V << " " << phi;
		verify(w);
	}
}

LAW(settings, 16000, 100000, "voltage, phase, frequency, wavelength and wave number of a structure are consistent after any setting, and copies are independent")
{
	double L = 0.1 + g.unit(), E = g.sym(1), f = g.logu(1e8, 1e10), phi = g.sym(4), th = g.sym(3);
	int kind = g.i(0, 2), cells = g.i(1, 9);
	std::unique_ptr<RFStructure> r;
	if(kind == 0)
		r.reset(new TWRFStructure("a", L, f, E, phi));
	else if(kind == 1)
	{
		r.reset(new SWRFStructure("a", cells, f, E, phi));
		L = cells * SpeedOfLight / f / 2;
	}
	else
		r.reset(new TransverseRFStructure("a", L, f, E, phi, th));
	auto verify = [&](RFStructure& s, const std::string& w)
		{
			c.near(s.GetLength(), L, 1e-12, 0, w + "length");
			c.near(s.GetAmplitude(), E, 1e-12, 1e-300, w + "amplitude");
			c.near(s.GetVoltage(), E * L, 1e-12, 1e-300, w + "voltage");
			c.near(s.GetFrequency(), f, 1e-12, 0, w + "frequency");
			c.near(s.GetPhase(), phi, 1e-12, 1e-12, w + "phase");
			c.near(s.GetWavelength(), SpeedOfLight / f, 1e-12, 0, w + "wavelength");
			c.near(s.GetK(), twoPi * f / SpeedOfLight, 1e-12, 0, w + "wave number");
			c.near(s.GetBeamVoltage(), E * L * cos(phi), 1e-12, 1e-12 * std::fabs(E * L), w + "beam voltage");
			Complex z = s.GetVoltagePhasor(), y = E * L * std::polar(1.0, phi);
			c.near(std::abs(z - y), 0, 0, 1e-12 * std::fabs(E * L), w + "phasor");
			if(kind == 2)
				c.near(static_cast<TransverseRFStructure&>(s).GetFieldOrientation(), th, 1e-12, 0, w + "orientation");
		};
	c.nontrivial();
	verify(*r, "new: ");
	int ops = g.i(1, 6);
	for(int i = 0; i < ops; ++i)
	{
		double v = g.sym(1);
		int op = g.i(0, 7);
		std::string w = "op " + std::to_string(op) + ": ";
		std::unique_ptr<RFStructure> other(static_cast<RFStructure*>(r->Copy()));
		c.check(other->GetType() == r->GetType() && other->GetName() == r->GetName(), "copy: type and name");
		verify(*other, w + "copy: ");
		double L0 = L, E0 = E, f0 = f, phi0 = phi, th0 = th;
		switch(op)
		{
		case 0:
			r->SetAmplitude(E = v);
			break;
		case 1:
			r->SetVoltage(v);
			E = v / L;
			break;
		case 2:
			r->SetPhase(phi = 4 * v);
			break;
		case 3:
			r->SetFrequency(f = 1e9 * (2 + v));
			break;
		case 4:
			r->SetWavelength(2 + v);
			f = SpeedOfLight / (2 + v);
			break;
		case 5:
			r->SetK(2 + v);
			f = SpeedOfLight * (2 + v) / twoPi;
			break;
		case 6:
			{
				Complex z = std::polar(2 + v, 3 * v);
				r->SetVoltagePhasor(z);
				E = (2 + v) / L;
				phi = 3 * v;
				break;
			}
		default:
			r->RotateY180();
			E = -E;
			th = -th;
		}
		verify(*r, w);
		std::swap(L0, L), std::swap(E0, E), std::swap(f0, f), std::swap(phi0, phi), std::swap(th0, th);
		verify(*other, w + "copy afterwards: ");
		std::swap(L0, L), std::swap(E0, E), std::swap(f0, f), std::swap(phi0, phi), std::swap(th0, th);
	}
}
