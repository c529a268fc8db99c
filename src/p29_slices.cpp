// P29: slice macro-particle tracking follows particle tracking.
// Reference: each slice is an affine map of its four transverse coordinates, made here from the equations of motion by matrix exponentials,
// with the deviation of momentum and the arrival time of the slice as parameters.
#include "mlib.h"
#include "geo.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "BunchConverter.h"
#include "SMPBunch.h"
#include "SMPBunchConstructor.h"
#include "SMPBunchProcess.h"
#include "SMPTracker.h"
#include "SMPWakeFieldProcess.h"
#include "ParticleTracker.h"
#include "ComponentFrame.h"
#include "TWRFStructure.h"
#include "BeamData.h"
#include "NormalTransform.h"
#include "RMap.h"
#include "Transform3D.h"
#include "WakePotentials.h"
#include "RandomNG.h"
#include <fstream>
#include <iostream>
#include <unistd.h>
using namespace ml;
using SMPTracking::SMPBunch;
using SMPTracking::SliceMacroParticle;

pbt::Info pbt::info = {"P29",
	"Bunches of up to 40 slices of any centroid, covariance (also coupled and degenerate), charge of either sign, arrival time and momentum; "
	"lines of up to 8 drifts, tilted and gradient bends with faces, skew and combined quadrupoles, thin kicks, solenoids, cavities and "
	"monitors, displaced and rotated, in divided steps; statistics, files, construction from beams, conversion to particles, and wakefields "
	"of any binning. Non-trivial: the covariance or the centroid changes in more than a drift.",
	"Displacements up to 1e-3 and 1e-3 rad, for which the tracker uses first order transformations."};

namespace
{
struct Silent
{
	std::ostringstream s;
	std::streambuf* old;
	std::streambuf* olde;
	Silent() : old(std::cout.rdbuf(s.rdbuf())), olde(std::cerr.rdbuf(s.rdbuf())) {}
	~Silent() { std::cout.rdbuf(old); std::cerr.rdbuf(olde); }
};
// affine maps of (x, x', y, y', ct, 1)
typedef std::array<std::array<double, 6>, 6> A6;
A6 unitA()
{
	A6 r{};
	for(int i = 0; i < 6; ++i)
		r[i][i] = 1;
	return r;
}
A6 mulA(const A6& a, const A6& b)
{
	A6 r{};
	for(int i = 0; i < 6; ++i)
		for(int j = 0; j < 6; ++j)
			for(int k = 0; k < 6; ++k)
				r[i][j] += a[i][k] * b[k][j];
	return r;
}
A6 expA(A6 g, double L)
{
	double n = 0;
	for(auto& r : g)
		for(double& v : r)
		{
			v *= L;
			n = std::max(n, std::fabs(v));
		}
	int sq = 0;
	while(n > 0.1)
	{
		n /= 2;
		++sq;
	}
	for(auto& r : g)
		for(double& v : r)
			v = std::ldexp(v, -sq);
	A6 t = unitA(), s = unitA();
	for(int k = 1; k < 14; ++k)
	{
		t = mulA(t, g);
		for(int i = 0; i < 6; ++i)
			for(int j = 0; j < 6; ++j)
			{
				t[i][j] /= k;
				s[i][j] += t[i][j];
			}
	}
	while(sq--)
		s = mulA(s, s);
	return s;
}
// turns the axes by t: the coordinates of a point in the turned frame
A6 rollA(double t)
{
	A6 r = unitA();
	double c = std::cos(t), s = std::sin(t);
	for(int k = 0; k < 2; ++k)
	{
		r[k][k] = r[k + 2][k + 2] = c;
		r[k][k + 2] = s;
		r[k + 2][k] = -s;
	}
	return r;
}
struct Slice
{
	double x[4], ct, dp, q, S[4][4];
};
Slice of(const SliceMacroParticle& p)
{
	Slice s;
	for(int i = 0; i < 4; ++i)
	{
		s.x[i] = p.mean(i);
		for(int j = 0; j < 4; ++j)
			s.S[i][j] = p.sig(i, j);
	}
	s.ct = p.ct();
	s.dp = p.dp();
	s.q = p.Q();
	return s;
}
SliceMacroParticle make(const Slice& s)
{
	PSmoments m;
	for(int i = 0; i < 4; ++i)
	{
		m[i] = s.x[i];
		for(int j = 0; j <= i; ++j)
			m(i, j) = s.S[i][j];
	}
	return SliceMacroParticle(m, s.ct, s.dp, s.q);
}
void apply(const A6& m, Slice& s)
{
	double v[6] = {s.x[0], s.x[1], s.x[2], s.x[3], s.ct, 1}, n[6];
	for(int i = 0; i < 6; ++i)
	{
		n[i] = 0;
		for(int j = 0; j < 6; ++j)
			n[i] += m[i][j] * v[j];
	}
	double T[4][4];
	for(int i = 0; i < 4; ++i)
		for(int j = 0; j < 4; ++j)
		{
			T[i][j] = 0;
			for(int k = 0; k < 4; ++k)
				for(int l = 0; l < 4; ++l)
					T[i][j] += m[i][k] * s.S[k][l] * m[j][l];
		}
	for(int i = 0; i < 4; ++i)
	{
		s.x[i] = n[i];
		for(int j = 0; j < 4; ++j)
			s.S[i][j] = T[i][j];
	}
	s.ct = n[4];
}
// one element of the line
struct E
{
	std::string kind;
	double L = 0;
	double h = 0, tilt = 0, e1 = 0, e2 = 0, fint1 = 0, gap1 = 0, fint2 = 0, gap2 = 0, pm = 0;   // bend, momentum matched
	std::complex<double> B0, B1;      // field, gradient
	double Bz = 0, g = 0, f = 0, phi = 0, mpt = 0;
	AcceleratorComponent* c = nullptr;
	// displacement of the entrance frame
	bool moved = false;
	double dx = 0, dy = 0, ax = 0, ay = 0, az = 0;
	std::string text() const
	{
		std::ostringstream s;
		s.precision(6);
		s << kind << " L=" << L;
		if(h)
			s << " h=" << h << " tilt " << tilt << " faces " << e1 << "," << e2 << "/" << fint1 * gap1 << "," << fint2 * gap2;
		if(kind != "drift" && kind != "monitor")
			s << " B0=" << B0 << " B1=" << B1 << " Bz=" << Bz;
		if(g)
			s << " g=" << g << " f=" << f << " phi=" << phi;
		if(moved)
			s << " moved " << dx << "," << dy << " turned " << ax << "," << ay << "," << az;
		return s.str();
	}
};
// a monitor that remembers what it was shown
struct Watch: public Monitor
{
	struct Seen
	{
		double x, xp;
	};
	std::vector<Seen> seen;
	Watch(const std::string& n, double len, double mp) : Monitor(n, len, mp) {}
	void MakeMeasurement(const Bunch& b) override
	{
		PSvector v;
		b.GetCentroid(v);
		seen.push_back({v.x(), v.xp()});
	}
};
const double PI = 3.14159265358979323846;

E draw(Gen& g, double P0, double q, bool rf, bool offmom)
{
	E e;
	double brho = q / per_brho(P0);
	e.L = g.real(0.05, 3);
	switch(g.i(0, rf ? 8 : 7))
	{
	case 0:
		e.kind = "drift";
		e.c = new Drift("D", e.L);
		break;
	case 1:
	case 2:
	{
		e.kind = "bend";
		double ang = g.slogu(1e-3, 0.3);
		e.h = ang / e.L;
		// the field may match another momentum
		double scale = offmom && g.chance(1, 4) ? 1 + g.slogu(1e-4, 0.02) : 1;
		double b0 = e.h * brho * scale;
		e.pm = P0 * scale;
		SectorBend* s = new SectorBend("B", e.L, e.h, b0);
		if(scale == 1 && g.b())
		{
			double k1 = g.chance(1, 6) ? -e.h * e.h * g.pick({1.0, 1.0, 0.2, 1.001, g.real(0, 2)}) : g.coord(1.0);
			e.B1 = k1 * brho;
			if(k1)
				s->SetB1(k1 * brho);
		}
		if(g.b())
		{
			e.e1 = g.coord(0.4);
			e.e2 = g.coord(0.4);
			e.fint1 = g.b() ? g.real(0, 0.7) : 0;
			e.gap1 = g.b() ? g.real(0, 0.05) : 0;
			e.fint2 = g.b() ? g.real(0, 0.7) : 0;
			e.gap2 = g.b() ? g.real(0, 0.05) : 0;
			s->SetPoleFaceInfo(new SectorBend::PoleFace(e.e1, e.fint1, e.gap1), new SectorBend::PoleFace(e.e2, e.fint2, e.gap2));
		}
		if(g.chance(1, 3))
		{
			e.tilt = g.coord(1.5);
			s->GetGeometry().SetTilt(e.tilt);
		}
		e.B0 = b0;
		e.c = s;
		break;
	}
	case 3:
	case 4:
	{
		e.kind = "quad";
		bool thin = g.chance(1, 4);
		if(thin)
			e.L = 0;
		double k1 = g.coord(1.0), k1s = g.chance(1, 3) ? g.coord(1.0) : 0;
		if(g.chance(1, 6))
			k1 = k1s = 0;
		e.B1 = std::complex<double>(k1, k1s) * brho;
		if(g.chance(1, 2))
			e.B0 = std::complex<double>(g.coord(2e-3), g.coord(2e-3)) * brho;
		RectMultipole* m = new Quadrupole("Q", e.L, k1 * brho);
		m->GetField().SetComponent(1, e.B1.real(), e.B1.imag());
		m->GetField().SetComponent(0, e.B0.real(), e.B0.imag());
		e.c = m;
		break;
	}
	case 5:
		e.kind = "solenoid";
		e.Bz = g.coord(0.5) * brho;
		e.c = new Solenoid("S", e.L, e.Bz);
		break;
	case 6:
		e.kind = "monitor";
		if(g.chance(1, 3))
			e.L = 0;
		e.mpt = g.pick({0.0, 0.0, g.sym(0.5)}) * e.L;
		e.c = new Watch("M", e.L, e.mpt);
		break;
	case 7:
	{
		e.kind = g.b() ? "xcor" : "ycor";
		e.L = g.b() ? 0 : e.L;
		double b = g.coord(2e-3) * brho;
		e.B0 = e.kind == "xcor" ? std::complex<double>(b, 0) : std::complex<double>(0, b);
		e.c = e.kind == "xcor" ? static_cast<AcceleratorComponent*>(new XCor("C", e.L, b)) : new YCor("C", e.L, b);
		break;
	}
	default:
		e.kind = "cavity";
		e.f = g.logu(1e8, 1e10);
		e.phi = g.sym(PI);
		e.g = P0 * g.logu(1e-3, 0.05) / e.L;
		e.c = new TWRFStructure("W", e.L, e.f, e.g, e.phi);
	}
	return e;
}
// A slice through n equal steps of the element; returns the reference momentum behind
double pass(const E& e, Slice& s, double P0, double q, int n)
{
	double rigid = q * per_brho(P0) / (1 + s.dp);      // charge over momentum of the slice, 1/Tm
	if(e.h)
	{
		auto face = [&](double a, double fg)
			{
				A6 m = unitA();
				double psi = 2 * fg * e.h * (1 + std::sin(a) * std::sin(a)) / std::cos(a);
				m[1][0] = e.h * std::tan(a);
				m[3][2] = -e.h * std::tan(a - psi);
				return m;
			};
		A6 G{};
		double k = q * per_brho(P0) * e.B1.real();
		double d = P0 / e.pm * (1 + s.dp) - 1;
		G[0][1] = G[2][3] = 1;
		G[1][0] = -(e.h * e.h + k);
		G[1][5] = e.h * d;
		G[3][2] = k;
		G[4][0] = -e.h;
		apply(rollA(e.tilt), s);
		apply(face(e.e1, e.fint1 * e.gap1), s);
		apply(expA(G, e.L), s);
		apply(face(e.e2, e.fint2 * e.gap2), s);
		apply(rollA(-e.tilt), s);
		return P0;
	}
	if(e.g)
	{
		double E = P0 * (1 + s.dp), cs = std::cos(e.phi - 2 * PI * e.f / CLIGHT * s.ct), dE = e.g * cs;
		A6 m = unitA();
		m[1][0] = m[3][2] = -dE / 2 / E;
		apply(m, s);
		double E2 = E + dE * e.L;
		m = unitA();
		m[0][1] = m[2][3] = dE == 0 ? e.L : E / dE * std::log1p(dE * e.L / E);
		m[1][1] = m[3][3] = E / E2;
		apply(m, s);
		m = unitA();
		m[1][0] = m[3][2] = dE / 2 / E2;
		apply(m, s);
		double P1 = P0 + e.g * e.L * std::cos(e.phi);
		s.dp = E2 / P1 - 1;
		return P1;
	}
	if(e.Bz)
	{
		double k = rigid * e.Bz;
		A6 m = unitA();
		m[1][2] = k / 2;
		m[3][0] = -k / 2;
		apply(m, s);
		A6 G{};
		G[0][1] = G[2][3] = 1;
		G[1][3] = k;
		G[3][1] = -k;
		apply(expA(G, e.L), s);
		m[1][2] = -k / 2;
		m[3][0] = k / 2;
		apply(m, s);
		return P0;
	}
	double l = e.L ? e.L : 1;
	std::complex<double> k0 = rigid * e.B0, k1 = rigid * e.B1;
	A6 kick = unitA();
	kick[1][5] = -k0.real() * l / n;
	kick[3][5] = k0.imag() * l / n;
	A6 G{};
	if(e.L)
		G[0][1] = G[2][3] = 1;
	G[1][0] = -k1.real();
	G[1][2] = k1.imag();
	G[3][0] = k1.imag();
	G[3][2] = k1.real();
	if(!e.L)
	{
		// an integrated kick
		A6 m = unitA();
		for(int i = 0; i < 4; ++i)
			for(int j = 0; j < 4; ++j)
				m[i][j] += G[i][j];
		m[1][5] = -k0.real();
		m[3][5] = k0.imag();
		apply(m, s);
		return P0;
	}
	A6 half = expA(G, l / 2 / n);
	for(int i = 0; i < n; ++i)
	{
		apply(half, s);
		apply(kick, s);
		apply(half, s);
	}
	return P0;
}
Slice slice(Gen& g, double q, double a, double d)
{
	Slice s;
	for(int i = 0; i < 4; ++i)
		s.x[i] = g.coord(a);
	s.ct = g.coord(1e-3);
	s.dp = g.coord(d);
	s.q = q * g.logu(1e6, 1e10);
	// a sum of a few rank one matrices: also degenerate
	int r = g.i(0, 5);
	for(int i = 0; i < 4; ++i)
		for(int j = 0; j < 4; ++j)
			s.S[i][j] = 0;
	for(int k = 0; k < r; ++k)
	{
		double v[4];
		for(double& w : v)
			w = g.coord(1e-3);
		for(int i = 0; i < 4; ++i)
			for(int j = 0; j < 4; ++j)
				s.S[i][j] += v[i] * v[j];
	}
	return s;
}
std::string str(const Slice& s)
{
	std::ostringstream o;
	o.precision(6);
	o << "[" << s.x[0] << "," << s.x[1] << "," << s.x[2] << "," << s.x[3] << " ct=" << s.ct << " dp=" << s.dp << " q=" << s.q << " var " << s.S[0][0]
	  << "," << s.S[1][1] << "," << s.S[2][2] << "," << s.S[3][3] << " cov " << s.S[1][0] << "," << s.S[2][0] << "," << s.S[2][1] << "," << s.S[3][0]
	  << "," << s.S[3][1] << "," << s.S[3][2] << "]";
	return o.str();
}
double size(const Slice& s)
{
	double m = 0;
	for(int i = 0; i < 4; ++i)
		m = std::max(m, std::fabs(s.x[i]));
	return m;
}
double spread(const Slice& s)
{
	double m = 0;
	for(int i = 0; i < 4; ++i)
		m = std::max(m, s.S[i][i]);
	return m;
}
// the tracked slice against the reference
void match(Ctx& c, const SliceMacroParticle& p, const Slice& e, double rel, double gx, double gs, double abst, const std::string& what)
{
	Slice s = of(p);
	c.same(s.q, e.q, what + ": charge");
	c.near(s.dp, e.dp, 0, 1e-13 + rel * (std::fabs(e.dp) + 10 * gx), what + ": momentum");
	for(int i = 0; i < 4; ++i)
		c.near(s.x[i], e.x[i], 0, 1e-18 + rel * gx + abst, what + ": centroid coordinate " + std::to_string(i));
	c.near(s.ct, e.ct, 0, 1e-18 + rel * (gx + std::fabs(e.ct)) + abst, what + ": ct");
	for(int i = 0; i < 4; ++i)
		for(int j = 0; j <= i; ++j)
			c.near(s.S[i][j], e.S[i][j], 0, 1e-24 + rel * gs, what + ": covariance " + std::to_string(i) + "," + std::to_string(j));
}
struct Divider: public SMPTracking::SMPBunchProcess
{
	int n;
	double step = 1, L = 0, s = 0;
	Divider(int prio, int k) : SMPTracking::SMPBunchProcess("DIVIDER", prio), n(k) {}
	void SetCurrentComponent(AcceleratorComponent& c) override
	{
		active = c.GetLength() > 0;
		L = c.GetLength();
		s = 0;
		step = L / n;
	}
	void DoProcess(double ds) override { s += ds; }
	double GetMaxAllowedStepSize() const override { return step; }
};
}

LAW(tracking, 12000, 250000, "each slice is moved like a particle of its momentum and its covariance by the same linear map; charges stay")
{
	Silent quiet;
	double P0 = g.logu(0.1, 500), q = g.pick({1.0, -1.0});
	int ns = g.len(1, 6), ne = g.i(1, 8), div = g.chance(1, 3) ? g.i(2, 4) : 1;
	bool rf = g.chance(1, 3);
	c.desc << "P0=" << P0 << " q=" << q << " steps " << div << ": ";
	std::vector<E> els;
	std::unique_ptr<AcceleratorModelConstructor> mc(new AcceleratorModelConstructor);
	mc->NewModel();
	double P = P0;
	for(int i = 0; i < ne; ++i)
	{
		els.push_back(draw(g, P, q, rf, true));
		if(els.back().g)
			P += els.back().g * els.back().L * std::cos(els.back().phi);
		mc->AppendComponent(*els.back().c);
		c.desc << els.back().text() << "; ";
	}
	std::unique_ptr<AcceleratorModel> model(mc->GetModel());
	std::unique_ptr<SMPBunch> b(new SMPBunch(P0, q));
	std::vector<Slice> in;
	for(int i = 0; i < ns; ++i)
	{
		in.push_back(slice(g, q, 1e-3, 1e-2));
		b->AddParticle(make(in.back()));
		c.desc << str(in.back()) << " ";
	}
	double Q = b->GetTotalCharge();
	SMPTracking::SMPTracker t(model->GetBeamline());
	if(div > 1)
		t.AddProcess(new Divider(2, div));
	t.Track(b.get());
	P = P0;
	bool work = false;
	std::vector<double> gx(ns), gs(ns);
	for(int i = 0; i < ns; ++i)
	{
		gx[i] = size(in[i]) + 1e-9;
		gs[i] = spread(in[i]);
	}
	double rel = 1e-13, ab = 0;
	for(auto& e : els)
	{
		double P1 = P, wx = 0;
		// errors grow with the strength of the elements
		double amp = (1 + e.L) * std::exp(std::sqrt(std::abs(e.B1) * per_brho(P)) * e.L + std::fabs(e.h) * 2);
		ab *= amp;
		rel *= amp * amp;
		if(e.h)
			ab += 1e-13 * std::fabs(e.h) * e.L;
		for(int i = 0; i < ns; ++i)
		{
			P1 = pass(e, in[i], P, q, div);
			gx[i] = std::max(gx[i], size(in[i]));
			gs[i] = std::max(gs[i], spread(in[i]));
			wx += in[i].x[0];
		}
		if(e.g)
			rel += 4 * std::pow(e.g * e.L / P * 1.1, 2);    // the tracker expands the logarithm
		if(e.kind == "monitor")
		{
			Watch* w = static_cast<Watch*>(e.c);
			c.eq(w->seen.size(), size_t(1), "measurements of a monitor");
			double m = 0, tot = 0, mp = 0, s = e.L ? e.L / 2 - e.mpt : 0, tol = 0;
			for(int i = 0; i < ns; ++i)
			{
				// the reference is behind the monitor
				m += in[i].q * (in[i].x[0] - s * in[i].x[1]);
				mp += in[i].q * in[i].x[1];
				tot += in[i].q;
				tol = std::max(tol, gx[i]);
			}
			c.near(w->seen[0].x, m / tot, 0, rel * tol * 4 + ab, "centroid at the monitor");
			c.near(w->seen[0].xp, mp / tot, 0, rel * tol * 4 + ab, "slope at the monitor");
			c.label("monitor");
		}
		else if(e.kind != "drift")
			work = true;
		P = P1;
	}
	c.near(b->GetReferenceMomentum(), P, 1e-12, 0, "reference momentum");
	c.eq(b->Size(), size_t(ns), "number of slices");
	c.same(b->GetTotalCharge(), Q, "total charge");
	for(int i = 0; i < ns; ++i)
		match(c, b->Get(i), in[i], rel, gx[i], gs[i], ab, "slice " + std::to_string(i));
	c.nontrivial(work);
}

LAW(differential, 5000, 100000, "on the design momentum a slice follows a particle that starts at its centroid, also through displaced elements")
{
	Silent quiet;
	double P0 = g.logu(0.1, 500), q = g.pick({1.0, -1.0}), amp = 1e-9;
	int ne = g.i(1, 8);
	c.desc << "P0=" << P0 << " q=" << q << ": ";
	AcceleratorModelConstructor mc;
	mc.NewModel();
	bool work = false, moved = false;
	double gain = 1;
	for(int i = 0; i < ne; ++i)
	{
		E e = draw(g, P0, q, false, false);
		if(e.kind != "drift" && e.kind != "monitor")
			work = true;
		// kicks of the size of the amplitude
		if(e.kind != "bend" && std::abs(e.B0) != 0)
		{
			e.B0 *= 1e-6;
			static_cast<RectMultipole*>(e.c)->GetField().SetComponent(0, e.B0.real(), e.B0.imag());
		}
		ComponentFrame* f = new ComponentFrame(*e.c);
		if(g.chance(1, 2) && e.L > 0)
		{
			e.dx = g.coord(amp);
			e.dy = g.coord(amp);
			e.ax = g.coord(amp);
			e.ay = g.coord(amp);
			e.az = e.kind == "monitor" ? 0 : g.pick({0.0, g.sym(1.0), g.sym(1e-3)});
			f->Translate(e.dx, e.dy, 0);
			f->RotateX(e.ax);
			f->RotateY(e.ay);
			f->RotateZ(e.az);
			e.moved = moved = true;
			// a roll of a bend moves its ends apart
			if(e.h)
			{
				f->RotateZ(-e.az);
				e.az = 0;
			}
		}
		c.desc << e.text() << "; ";
		mc.AppendComponentFrame(f);
		gain *= 1 + e.L * 2;
	}
	std::unique_ptr<AcceleratorModel> model(mc.GetModel());
	V6 v{g.coord(amp), g.coord(amp), g.coord(amp), g.coord(amp), g.coord(amp), g.coord(amp)};
	Slice s = slice(g, q, 0, 0);
	for(int i = 0; i < 4; ++i)
		s.x[i] = v[i];
	s.ct = v[4];
	s.dp = v[5];
	c.desc << ml::str(v);
	SMPBunch b(P0, q);
	b.AddParticle(make(s));
	SMPTracking::SMPTracker t(model->GetBeamline());
	t.Track(&b);
	ParticleBunch pb(P0, q);
	pb.AddParticle(mk(v));
	ParticleTracker pt(model->GetBeamline());
	pt.SetIntegratorSet(&iset(TRANSPORT_SET));
	pt.Track(&pb);
	V6 e = un(pb.GetParticles()[0]), o = un(b.Get(0));
	gain = std::min(gain, 1e6);
	double big = 0;      // second order terms
	for(int i = 0; i < 5; ++i)
		big = std::max(big, std::fabs(e[i]));
	for(int i = 0; i < 6; ++i)
		c.near(o[i], e[i], 0, 1e-15 + 50 * big * big + 2e-5 * amp * gain, "coordinate " + std::to_string(i));
	if(moved)
		c.label("moved");
	c.nontrivial(work);
}


LAW(statistics, 8000, 100000, "moments and centroids of slices are the charge weighted sums, adjustments move the reference only, and files keep the slices")
{
	Silent quiet;
	double P0 = g.logu(0.1, 500), q = g.pick({1.0, -1.0}), T0 = g.coord(1e3);
	int ns = g.len(1, 20);
	c.desc << "P0=" << P0 << " q=" << q << " slices " << ns << " ";
	std::vector<Slice> in;
	SMPBunch b(P0, q);
	b.SetReferenceTime(T0);
	bool sorted = g.b();
	long double Q = 0;
	for(int i = 0; i < ns; ++i)
	{
		Slice s = slice(g, q, 1e-3, 0.02);
		if(g.chance(1, 8) && i)
			s.ct = in[0].ct;
		in.push_back(s);
		Q += s.q;
		b.AddParticle(make(s), sorted);
		c.desc << "(" << s.ct << "," << s.dp << "," << s.q << ") ";
	}
	c.nontrivial(ns > 1);
	c.near(b.GetTotalCharge(), (double) Q, 1e-14, 0, "total charge");
	// second moments of the whole
	long double m[6] = {}, A[6] = {}, S[6][6] = {};
	auto X = [](const Slice& s, int i) { return i < 4 ? s.x[i] : i == 4 ? s.ct : s.dp; };
	for(auto& s : in)
		for(int i = 0; i < 6; ++i)
		{
			m[i] += s.q / Q * X(s, i);
			A[i] = std::max(A[i], (long double) std::fabs(X(s, i)));
		}
	for(auto& s : in)
		for(int i = 0; i < 6; ++i)
			for(int j = 0; j < 6; ++j)
				S[i][j] += s.q / Q * ((i < 4 && j < 4 ? s.S[i][j] : 0) + (X(s, i) - m[i]) * (X(s, j) - m[j]));
	for(auto& s : in)
		for(int i = 0; i < 4; ++i)
			A[i] = std::max(A[i], (long double) std::sqrt(s.S[i][i]));
	PSmoments mom;
	PSmoments2D m2;
	for(int i = 0; i < 6; ++i)
	{
		mom[i] = g.coord(1);
		for(int j = 0; j <= i; ++j)
			mom(i, j) = g.coord(1);
	}
	m2[0] = g.coord(1);
	m2[1] = g.coord(1);
	m2(0, 0) = m2(0, 1) = m2(1, 1) = g.coord(1);
	auto check = [&](const std::string& w)
		{
			PSvector ce;
			b.GetCentroid(ce);
			b.GetMoments(mom);
			for(int i = 0; i < 6; ++i)
			{
				c.near(ce[i], (double) m[i], 0, 1e-14 * A[i], w + "centroid " + std::to_string(i));
				c.near(mom[i], (double) m[i], 0, 1e-14 * A[i], w + "mean " + std::to_string(i));
				for(int j = 0; j <= i; ++j)
					c.near(mom(i, j), (double) S[i][j], 0, 1e-13 * A[i] * A[j], w + "moment " + std::to_string(i) + "," + std::to_string(j));
			}
			int u = g.i(0, 5), v = g.i(0, 5);
			b.GetProjectedMoments(u, v, m2);
			c.near(m2[0], (double) m[u], 0, 1e-14 * A[u], w + "projected mean");
			c.near(m2[1], (double) m[v], 0, 1e-14 * A[v], w + "projected mean");
			c.near(m2(0, 0), (double) S[u][u], 0, 1e-13 * A[u] * A[u], w + "projected moment");
			c.near(m2(0, 1), (double) S[u][v], 0, 1e-13 * A[u] * A[v], w + "projected moment");
			c.near(m2(1, 1), (double) S[v][v], 0, 1e-13 * A[v] * A[v], w + "projected moment");
			Point2D p = b.GetProjectedCentroid(u, v);
			c.near(p.x, (double) m[u], 0, 1e-14 * A[u], w + "projected centroid");
			c.near(p.y, (double) m[v], 0, 1e-14 * A[v], w + "projected centroid");
		};
	check("");
	// order
	if(!sorted)
		b.SortByCT();
	for(int i = 1; i < ns; ++i)
		c.check(b.Get(i - 1).ct() <= b.Get(i).ct(), "slices are in the order of ct");
	std::sort(in.begin(), in.end(), [](const Slice& x, const Slice& y) { return x.q < y.q; });
	auto slices = [&](const SMPBunch& d, const std::string& w, double rel)
		{
			std::vector<Slice> o;
			for(auto& p : d)
				o.push_back(of(p));
			std::sort(o.begin(), o.end(), [](const Slice& x, const Slice& y) { return x.q < y.q; });
			c.eq(o.size(), in.size(), w + "number of slices");
			for(size_t k = 0; k < o.size(); ++k)
			{
				c.near(o[k].q, in[k].q, rel, 0, w + "charge");
				c.near(o[k].ct, in[k].ct, rel, 4e-16 * (double) A[4], w + "ct");
				c.near(o[k].dp, in[k].dp, rel, 1e-15, w + "dp");
				for(int i = 0; i < 4; ++i)
				{
					c.near(o[k].x[i], in[k].x[i], rel, 1e-15 * (double) A[i], w + "mean of a slice");
					for(int j = 0; j <= i; ++j)
						c.near(o[k].S[i][j], in[k].S[i][j], rel * 2, 0, w + "covariance of a slice");
				}
			}
		};
	slices(b, "sorted: ", 1e-15);
	switch(g.i(0, 3))
	{
	case 0:
	{
		PSvector d(0);
		for(int i = 0; i < 6; ++i)
		{
			d[i] = g.coord(1e-2);
			m[i] += d[i];
			A[i] += std::fabs(d[i]);
		}
		b.AdjustCentroid(d);
		for(auto& s : in)
		{
			for(int i = 0; i < 4; ++i)
				s.x[i] += d[i];
			s.ct += d.ct();
			s.dp += d.dp();
		}
		check("moved: ");
		slices(b, "moved: ", 1e-14);
		c.label("AdjustCentroid");
		break;
	}
	case 1:
	{
		double f = 1 + (double) m[5];
		c.near(b.AdjustRefMomentumToMean(), P0 * f, 1e-14, 0, "mean momentum");
		c.near(b.GetReferenceMomentum(), P0 * f, 1e-14, 0, "reference momentum");
		for(auto& s : in)
			s.dp = (1 + s.dp) / f - 1;
		slices(b, "reference momentum: ", 1e-13);
		c.near(b.GetReferenceTime(), T0, 0, 0, "reference time");
		c.label("AdjustRefMomentumToMean");
		break;
	}
	case 2:
	{
		double t = b.AdjustRefTimeToMean();
		c.near(t, T0 - (double) m[4], 1e-15, 1e-14 * (double) A[4], "mean time");
		c.same(b.GetReferenceTime(), t, "reference time");
		for(auto& s : in)
			s.ct -= (double) m[4];
		slices(b, "reference time: ", 1e-12);
		c.same(b.GetReferenceMomentum(), P0, "reference momentum");
		c.label("AdjustRefTimeToMean");
		break;
	}
	default:
	{
		std::string f = pbt::scratch_dir() + "/slices.dat";
		std::ofstream o(f.c_str());
		int prec = g.pick({6, 17});
		o.precision(prec);
		b.Output(o);
		o.close();
		SMPBunch d(f);
		::unlink(f.c_str());
		// (the file contains rms values and the covariances separately)
		slices(d, "file: ", 2e-6);
		c.near(d.GetReferenceMomentum(), P0, prec == 6 ? 1e-5 : 1e-15, 0, "file: momentum");
		c.near(d.GetReferenceTime(), T0, prec == 6 ? 1e-5 : 1e-15, 0, "file: time");
		c.eq(d.GetChargeSign(), b.GetChargeSign(), "file: sign of charge");
		c.near(d.GetTotalCharge(), b.GetTotalCharge(), 2e-6, 0, "file: total charge");
		c.label("file");
	}
	}
}

LAW(constructor, 4000, 50000, "a sliced bunch has slices of the stated number in time and momentum within three standard deviations, each with the charge of its bin")
{
	Silent quiet;
	BeamData d;
	d.p0 = g.logu(0.1, 500);
	d.charge = g.pick({1.0, -1.0}) * g.logu(1, 1e11);
	d.beta_x = g.logu(0.01, 1e3);
	d.beta_y = g.logu(0.01, 1e3);
	d.alpha_x = g.coord(3);
	d.alpha_y = g.coord(3);
	d.emit_x = g.chance(1, 8) ? 0 : g.logu(1e-12, 1e-5);
	d.emit_y = g.chance(1, 8) ? 0 : g.logu(1e-12, 1e-5);
	d.sig_z = g.chance(1, 8) ? 0 : g.logu(1e-6, 1e-1);
	d.sig_dp = g.chance(1, 8) ? 0 : g.logu(1e-6, 1e-2);
	d.x0 = g.coord(1e-3);
	d.xp0 = g.coord(1e-3);
	d.y0 = g.coord(1e-3);
	d.yp0 = g.coord(1e-3);
	d.ct0 = g.coord(1e-2);
	if(g.b())
	{
		d.Dx = g.coord(2);
		d.Dxp = g.coord(1);
		d.Dy = g.coord(2);
		d.Dyp = g.coord(1);
	}
	int ns = g.i(1, 12), np = g.i(1, 12);
	c.desc << "p0=" << d.p0 << " charge=" << d.charge << " beta " << d.beta_x << "," << d.beta_y << " alpha " << d.alpha_x << "," << d.alpha_y << " emittances "
		   << d.emit_x << "," << d.emit_y << " sigma " << d.sig_z << "," << d.sig_dp << " ct0=" << d.ct0 << " D " << d.Dx << "," << d.Dxp << "," << d.Dy << ","
		   << d.Dyp << " " << ns << "x" << np;
	c.nontrivial(ns > 1 && np > 1 && d.sig_z != 0 && d.sig_dp != 0);
	SMPTracking::SMPBunchConstructor con(d, ns, np);
	std::unique_ptr<SMPBunch> b(con.ConstructSMPBunch());
	c.same(b->GetReferenceMomentum(), d.p0, "momentum");
	c.eq(b->GetChargeSign(), d.charge > 0 ? 1.0 : -1.0, "sign of charge");
	c.eq(b->Size(), size_t(ns * np), "number of slices");
	auto bin = [](int k, int n) { double w = 6.0 / n, a = -3 + k * w; return 0.5 * (std::erf((a + w) / std::sqrt(2.0)) - std::erf(a / std::sqrt(2.0))); };
	std::vector<Slice> o;
	for(auto& p : *b)
		o.push_back(of(p));
	// by the bins
	std::vector<int> used(ns * np, 0);
	long double Q = 0;
	for(int i = 0; i < ns; ++i)
		for(int j = 0; j < np; ++j)
		{
			double z = d.ct0 + d.sig_z * (-3 + 6.0 / ns * (i + 0.5)), dp = d.sig_dp * (-3 + 6.0 / np * (j + 0.5)), q = d.charge * bin(i, ns) * bin(j, np);
			Q += q;
			int found = -1;
			for(size_t k = 0; k < o.size(); ++k)
				if(!used[k] && std::fabs(o[k].ct - z) <= 1e-13 * (6 * d.sig_z + std::fabs(d.ct0)) && std::fabs(o[k].dp - dp) <= 1e-13 * 6 * d.sig_dp &&
					std::fabs(o[k].q - q) <= 1e-9 * std::fabs(q))
					found = k;
			std::ostringstream w;
			w << "slice at " << z << "," << dp << " with charge " << q << " exists";
			c.check(found >= 0, w.str());
			used[found] = 1;
			const Slice& s = o[found];
			double x[4] = {d.x0 + d.Dx * dp, d.xp0 + d.Dxp * dp, d.y0 + d.Dy * dp, d.yp0 + d.Dyp * dp};
			double S[4][4] = {};
			S[0][0] = d.emit_x * d.beta_x;
			S[1][0] = -d.emit_x * d.alpha_x;
			S[1][1] = d.emit_x * (1 + d.alpha_x * d.alpha_x) / d.beta_x;
			S[2][2] = d.emit_y * d.beta_y;
			S[3][2] = -d.emit_y * d.alpha_y;
			S[3][3] = d.emit_y * (1 + d.alpha_y * d.alpha_y) / d.beta_y;
			for(int k = 0; k < 4; ++k)
			{
				c.near(s.x[k], x[k], 1e-12, 1e-17, "centroid of a slice, coordinate " + std::to_string(k));
				for(int l = 0; l <= k; ++l)
					c.near(s.S[k][l], S[k][l], 0, 1e-12 * std::sqrt(S[k][k] * S[l][l]), "covariance of a slice");
			}
		}
	c.near(b->GetTotalCharge(), (double) Q, 1e-12, 0, "total charge");
}

LAW(converter, 3000, 30000, "particles made of slices have their charge, centroids, covariances and spread between slices")
{
	Silent quiet;
	double P0 = g.logu(0.1, 500), q = g.pick({1.0, -1.0}), T0 = g.coord(1e2);
	int ns = g.len(1, 6);
	bool adjust = g.b();
	size_t N = g.pick({(size_t) g.i(1, 20), (size_t) g.i(20, 2000)});
	c.desc << "P0=" << P0 << " q=" << q << " slices " << ns << " particles " << N << (adjust ? " adjusted" : "");
	std::vector<Slice> in;
	SMPBunch b(P0, q);
	b.SetReferenceTime(T0);
	long double Q = 0;
	for(int i = 0; i < ns; ++i)
	{
		Slice s = slice(g, q, 1e-3, 0.02);
		// (the decomposition of nearly singular matrices is limited by rounding: sizes of the same order, or none)
		bool none[4] = {g.chance(1, 5), g.chance(1, 5), g.chance(1, 5), g.chance(1, 5)};
		int rank = g.pick({0, 1, 8, 8});
		double sc = g.logu(1e-6, 1e-2);
		for(auto& r : s.S)
			for(double& v : r)
				v = 0;
		for(int k = 0; k < rank; ++k)
		{
			double v[4];
			for(int i = 0; i < 4; ++i)
				v[i] = none[i] ? 0 : sc * g.sym(1);
			for(int i = 0; i < 4; ++i)
				for(int j = 0; j < 4; ++j)
					s.S[i][j] += v[i] * v[j];
		}
		s.q = q * (1e9 + g.unit() * 1e9);
		if(i && g.chance(1, 4))
			s.ct = in[0].ct;
		if(i && g.chance(1, 4))
			s.dp = in[0].dp;
		in.push_back(s);
		Q += s.q;
		b.AddParticle(make(s));
		c.desc << " " << str(s);
	}
	RandomNG::init(g.raw(1000000) + 1);
	std::vector<int> n;
	size_t total = 0;
	for(auto& s : in)
	{
		n.push_back(int(N * (s.q / b.GetTotalCharge()) + 0.5));
		total += n.back();
	}
	if(!total)
	{
		c.discard();
		return;
	}
	std::unique_ptr<ParticleBunch> o(SMPBunchConverter(&b, N, adjust));
	c.nontrivial(total > 20);
	c.eq(o->size(), total, "number of particles");
	c.near(o->GetTotalCharge(), (double) Q, 1e-12, 0, "total charge");
	c.same(o->GetReferenceMomentum(), P0, "reference momentum");
	c.same(o->GetReferenceTime(), T0, "reference time");
	PSvector shift(0);
	if(adjust)
	{
		PSvector x, y;
		double extent[6] = {};
		for(auto& t : in)
			for(int i = 0; i < 6; ++i)
				extent[i] = std::max(extent[i], i < 4 ? std::sqrt(t.S[i][i]) + std::fabs(t.x[i]) : i == 4 ? std::fabs(t.ct) : std::fabs(t.dp));
		b.GetCentroid(x);
		o->GetCentroid(y);
		for(int i = 0; i < 6; ++i)
		{
			double a = 0;
			for(auto& p : o->GetParticles())
				a = std::max(a, std::fabs(p[i]));
			c.near(y[i], x[i], 0, 1e-12 * a + 1e-14 * extent[i], "centroid " + std::to_string(i));
		}
		c.label("adjusted");
		return;
	}
	size_t at = 0;
	for(int k = 0; k < ns; ++k)
	{
		const Slice& s = in[k];
		// half the distance to the neighbour
		auto spread = [&](double v, double Slice::* f)
			{
				double up = INFINITY, down = INFINITY;
				for(auto& t : in)
				{
					if(t.*f > v)
						up = std::min(up, t.*f - v);
					if(t.*f < v)
						down = std::min(down, v - t.*f);
				}
				return up < INFINITY ? up / 2 : down < INFINITY ? down / 2 : 0.0;
			};
		double sd[2] = {spread(s.ct, &Slice::ct), spread(s.dp, &Slice::dp)};
		for(int rep = 0; rep < 6; ++rep)
		{
			double u[6] = {}, mean = 0, var = 0, scale = 0;
			if(rep < 4)
				for(int i = 0; i < 4; ++i)
					u[i] = rep == 0 ? (i == 0) : g.sym(1) / (1e-30 + std::sqrt(s.S[i][i]));
			else
				u[rep] = 1;
			for(int i = 0; i < 6; ++i)
			{
				mean += u[i] * (i < 4 ? s.x[i] : i == 4 ? s.ct : s.dp);
				scale += std::fabs(u[i] * (i < 4 ? s.x[i] : i == 4 ? s.ct : s.dp));
				for(int j = 0; j < 4 && i < 4; ++j)
					var += u[i] * u[j] * s.S[i][j];
			}
			double size = 0;
			for(int i = 0; i < 4; ++i)
				size += u[i] * u[i] * s.S[i][i];
			if(rep >= 4)
				size = var = sd[rep - 4] * sd[rep - 4];
			bool flat = var <= 1e-10 * size || var == 0;
			double sum = 0, sq = 0, far = 0;
			for(int m = 0; m < n[k]; ++m)
			{
				double v = -mean;
				const PSvector& p = o->GetParticles()[at + m];
				for(int i = 0; i < 6; ++i)
					v += u[i] * p[i];
				far = std::max(far, std::fabs(v));
				sum += v;
				sq += v * v;
			}
			std::string w = "slice " + std::to_string(k) + (rep < 4 ? " transverse" : rep == 4 ? " ct" : " dp");
			if(flat)
				c.near(far, 0, 0, 1e-4 * std::sqrt(size) + 1e-14 * scale, w + ": no spread in a direction without size");
			else if(n[k])
			{
				double sg = std::sqrt(var);
				c.near(sum / n[k], 0, 0, 7 * sg / std::sqrt(n[k]) + 1e-13 * scale, w + ": mean");
				if(n[k] >= 60 && sg > 1e-10 * scale)
				{
					c.near(sq / n[k] / var, 1, 0, 8 * std::sqrt(2.0 / n[k]) + 20.0 / n[k], w + ": variance");
					c.label("variance");
				}
			}
		}
		at += n[k];
	}
}

namespace
{
struct Wake: public WakePotentials
{
	double a, b, d, t;
	double Wlong(double z) const override { return a * std::exp(-z / b) * std::cos(z * d); }
	double Wtrans(double z) const override { return t * (1 - std::exp(-z / b)); }
};
// kicks of the slices
double wakeKick(std::vector<Slice>& s, double P, const Wake& w, double L, double dz, bool trans)
{
	const double GeV = PhysicalConstants::ElectronCharge * PhysicalUnits::Volt;
	std::stable_sort(s.begin(), s.end(), [](const Slice& x, const Slice& y) { return x.ct < y.ct; });
	struct Bin
	{
		size_t first, last;
		double z, q, x, y;
	};
	std::vector<Bin> bins;
	for(size_t i = 0; i < s.size();)
	{
		Bin n{i, i, 0, 0, 0, 0};
		double end = s[i].ct + dz;
		do
		{
			n.q += std::fabs(s[i].q);
			n.z += std::fabs(s[i].q) * s[i].ct;
			n.x += std::fabs(s[i].q) * s[i].x[0];
			n.y += std::fabs(s[i].q) * s[i].x[2];
			++i;
		} while(i < s.size() && s[i].ct < end);
		n.last = i;
		n.z /= n.q;
		n.x /= n.q;
		n.y /= n.q;
		bins.push_back(n);
	}
	double loss = 0, Q = 0;
	std::vector<double> dp(s.size()), px(s.size()), py(s.size());
	for(auto& n : bins)
	{
		double l = 0, x = 0, y = 0;
		for(auto& m : bins)
		{
			if(&m < &n)
				continue;
			l += (&m == &n ? 0.5 : 1) * m.q * w.Wlong(m.z - n.z);
			if(trans && &m > &n)
			{
				x += m.q * m.x * w.Wtrans(m.z - n.z);
				y += m.q * m.y * w.Wtrans(m.z - n.z);
			}
		}
		loss += n.q * l * L * GeV;
		Q += n.q;
		for(size_t i = n.first; i < n.last; ++i)
		{
			dp[i] = -l * L * GeV;
			px[i] = x * L * GeV;
			py[i] = y * L * GeV;
		}
	}
	double P1 = P - loss / Q;
	for(size_t i = 0; i < s.size(); ++i)
	{
		double Ei = P * (1 + s[i].dp), Ef = Ei + dp[i];
		A6 m = unitA();
		m[1][1] = m[3][3] = Ei / Ef;
		m[1][5] = px[i] / Ef;
		m[3][5] = py[i] / Ef;
		apply(m, s[i]);
		s[i].dp = Ef / P1 - 1;
	}
	return P1;
}
}

LAW(wake, 6000, 80000, "wakefields of slices act on the slices behind, once per element, and keep the sum of momenta and losses")
{
	Silent quiet;
	double P0 = g.logu(0.5, 500), q = g.pick({1.0, -1.0}), dz = g.logu(1e-6, 1e-2);
	int ns = g.len(0, 12), ne = g.i(1, 5), div = g.chance(1, 3) ? g.i(2, 5) : 1;
	bool trans = g.chance(2, 3), centre = g.b();
	c.desc << "P0=" << P0 << " q=" << q << " slice width " << dz << (centre ? " centre" : " exit") << (trans ? "" : " longitudinal") << " steps " << div << ": ";
	double brho = q / per_brho(P0);
	std::vector<Slice> in;
	for(int i = 0; i < ns; ++i)
	{
		Slice s = slice(g, q, 1e-3, 1e-3);
		s.ct = i && g.chance(1, 6) ? in[g.i(0, i - 1)].ct : g.sym(1e-3);
		s.q = q * g.logu(1e6, 1e9);
		in.push_back(s);
		c.desc << "(" << s.ct << "," << s.dp << "," << s.q << ") ";
	}
	Wake wk[2];
	for(int i = 0; i < 2; ++i)
	{
		wk[i].b = g.logu(1e-5, 1e-2);
		wk[i].d = g.b() ? 0 : g.logu(1, 1e4);
		// fractions of the momentum
		wk[i].a = g.slogu(1e-6, 1e-2) * P0 / 1e10 / PhysicalConstants::ElectronCharge / PhysicalUnits::Volt;
		wk[i].t = g.slogu(1e-3, 10) * P0 / 1e10 / PhysicalConstants::ElectronCharge / PhysicalUnits::Volt;
	}
	struct El
	{
		std::string kind;
		double L;
		Wake* w;
		double h;
	};
	std::vector<El> els;
	AcceleratorModelConstructor mc;
	mc.NewModel();
	int wakes = 0;
	for(int i = 0; i < ne; ++i)
	{
		El e{g.pick({"drift", "drift", "bend"}), g.real(0.05, 2), nullptr, 0};
		AcceleratorComponent* a;
		if(e.kind == "drift")
		{
			a = new Drift("D" + std::to_string(i), e.L);
			if(g.chance(3, 4))
			{
				e.w = &wk[g.i(0, 1)];
				++wakes;
				a->SetWakePotentials(e.w);
			}
		}
		else
		{
			e.h = g.slogu(1e-2, 0.5) / e.L;
			a = new SectorBend("B" + std::to_string(i), e.L, e.h, e.h * brho);
		}
		c.desc << e.kind << " L=" << e.L << (e.w ? e.w == wk ? " wake 0; " : " wake 1; " : "; ");
		els.push_back(e);
		mc.AppendComponent(*a);
	}
	std::unique_ptr<AcceleratorModel> model(mc.GetModel());
	// reference: elements without wakes are tracked one by one
	std::vector<Slice> ref = in;
	double P = P0;
	for(auto& e : els)
	{
		auto drift = [&](double L)
			{
				A6 m = unitA();
				m[0][1] = m[2][3] = L;
				for(auto& s : ref)
					apply(m, s);
			};
		if(e.kind == "drift")
		{
			double s0 = centre ? e.L / 2 : e.L;
			if(e.w && ns)
			{
				drift(s0);
				P = wakeKick(ref, P, *e.w, e.L, dz, trans);
				drift(e.L - s0);
			}
			else
				drift(e.L);
		}
		else
		{
			AcceleratorModelConstructor one;
			one.NewModel();
			one.AppendComponent(*new SectorBend("B", e.L, e.h, e.h * brho));
			std::unique_ptr<AcceleratorModel> m(one.GetModel());
			SMPBunch b(P, q);
			for(auto& s : ref)
				b.AddParticle(make(s));
			SMPTracking::SMPTracker t(m->GetBeamline());
			t.Track(&b);
			for(size_t i = 0; i < ref.size(); ++i)
				ref[i] = of(b.Get(i));
		}
	}
	SMPBunch b(P0, q);
	for(auto& s : in)
		b.AddParticle(make(s));
	SMPTracking::SMPTracker t(model->GetBeamline());
	auto* proc = new SMPTracking::WakeFieldProcess(1, dz);
	proc->ApplyImpulseAt(centre ? SMPTracking::WakeFieldProcess::atCentre : SMPTracking::WakeFieldProcess::atExit);
	proc->IncludeTransverseWake(trans);
	t.AddProcess(proc);
	if(div > 1)
		t.AddProcess(new Divider(2, div));
	t.Track(&b);
	c.near(b.GetReferenceMomentum(), P, 1e-11, 0, "reference momentum");
	c.eq(b.Size(), size_t(ns), "number of slices");
	std::vector<Slice> o;
	for(auto& p : b)
		o.push_back(of(p));
	auto byq = [](const Slice& x, const Slice& y) { return x.q < y.q; };
	std::sort(o.begin(), o.end(), byq);
	std::sort(ref.begin(), ref.end(), byq);
	double big[4] = {}, bs[4] = {};
	for(auto& s : ref)
		for(int i = 0; i < 4; ++i)
		{
			big[i] = std::max(big[i], std::fabs(s.x[i]));
			bs[i] = std::max(bs[i], s.S[i][i]);
		}
	for(int k = 0; k < ns; ++k)
	{
		std::string w = "slice " + std::to_string(k) + " ";
		c.near(o[k].dp, ref[k].dp, 0, 1e-11, w + "momentum");
		for(int i = 0; i < 4; ++i)
		{
			c.near(o[k].x[i], ref[k].x[i], 0, 1e-9 * (big[i] + big[i ^ 1]) + 1e-15, w + "centroid " + std::to_string(i));
			for(int j = 0; j <= i; ++j)
				c.near(o[k].S[i][j], ref[k].S[i][j], 0, 1e-9 * std::sqrt((bs[i] + bs[i ^ 1]) * (bs[j] + bs[j ^ 1])) + 1e-25, w + "covariance " + std::to_string(i) + "," + std::to_string(j));
		}
		c.near(o[k].ct, ref[k].ct, 1e-11, 1e-14, w + "ct");
	}
	c.label(wakes ? centre ? "centre" : "exit" : "no wake");
	c.nontrivial(wakes && ns > 2);
}

LAW(slicing, 8000, 100000, "a bunch of particles is cut into a grid of slices over its range or so many sigmas, each with the charge of the particles in it; charge, centroid and covariance stay")
{
	Silent quiet;
	double P0 = g.logu(0.1, 500), q = g.pick({1.0, -1.0}) * g.logu(1e-3, 1e9), T0 = g.coord(1e2);
	int n = g.len(1, 40), nct = g.i(1, 6), ndp = g.i(1, 6);
	ParticleBunch b(P0, q);
	b.SetReferenceTime(T0);
	double off[6], sc[6] = {1e-3, 1e-4, 1e-3, 1e-4, 1e-2, 1e-3};
	for(int k = 0; k < 6; ++k)
	{
		off[k] = g.b() ? 0 : g.sym(5 * sc[k]);
		if(g.chance(1, 8))
			sc[k] = 0;
	}
	std::vector<V6> in;
	for(int i = 0; i < n; ++i)
	{
		V6 v;
		for(int k = 0; k < 6; ++k)
			v[k] = off[k] + g.sym(sc[k]);
		in.push_back(v);
		b.AddParticle(mk(v));
	}
	bool adjust = g.b();
	double ns[2] = {g.b() ? 0 : g.real(0.5, 4), g.b() ? 0 : g.real(0.5, 4)};
	c.desc << n << " particles, " << nct << "x" << ndp << " slices, sigmas " << ns[0] << " " << ns[1] << (adjust ? " adjusted" : "") << " q=" << q;
	c.nontrivial(n > 1 && nct * ndp > 1);
	std::unique_ptr<SMPBunch> o(ParticleBunchConverter(&b, nct, ndp, ns[0], ns[1], adjust));
	c.eq(b.size(), (size_t) n, "the particles are kept");
	c.eq((int) o->Size(), nct * ndp, "number of slices");
	c.near(o->GetTotalCharge(), n * q, 1e-10, 0, "total charge");
	c.same(o->GetReferenceMomentum(), P0, "reference momentum");
	c.same(o->GetReferenceTime(), T0, "reference time");
	long double mean[6] = {}, cov[6][6] = {};
	for(auto& v : in)
		for(int k = 0; k < 6; ++k)
			mean[k] += v[k] / (long double) n;
	for(auto& v : in)
		for(int i = 0; i < 6; ++i)
			for(int j = 0; j < 6; ++j)
				cov[i][j] += (v[i] - mean[i]) * (v[j] - mean[j]) / n;
	const int num[2] = {nct, ndp};
	long double lo[2], width[2];
	bool edge = false;
	std::vector<int> bin[2];
	for(int d = 0; d < 2; ++d)
	{
		long double hi = in[0][4 + d];
		lo[d] = hi;
		for(auto& v : in)
		{
			lo[d] = std::min(lo[d], (long double) v[4 + d]);
			hi = std::max(hi, (long double) v[4 + d]);
		}
		if(ns[d] > 0)
		{
			lo[d] = mean[4 + d] - ns[d] * std::sqrt(cov[4 + d][4 + d]);
			hi = mean[4 + d] + ns[d] * std::sqrt(cov[4 + d][4 + d]);
		}
		width[d] = (hi - lo[d]) / num[d];
		// (without extent all slices are at one place)
		bool flat = sc[4 + d] == 0 || n == 1;
		for(auto& v : in)
		{
			long double t = flat ? 0 : (v[4 + d] - lo[d]) / width[d];
			for(int k = 1; k < num[d]; ++k)
				edge = edge || (flat ? num[d] > 1 : std::fabs(t - k) < 1e-9);
			bin[d].push_back(std::max(0, std::min(num[d] - 1, (int) std::floor(t))));
		}
	}
	std::vector<double> charge(nct * ndp, 0);
	long double centroid[2] = {};
	for(int i = 0; i < n; ++i)
	{
		charge[bin[0][i] * ndp + bin[1][i]] += q;
		for(int d = 0; d < 2; ++d)
			centroid[d] += (lo[d] + (bin[d][i] + 0.5L) * width[d]) / n;
	}
	PSvector x;
	o->GetCentroid(x);
	for(int k = 0; k < (adjust ? 6 : 4); ++k)
		c.near(x[k], (double) mean[k], 1e-9, 1e-12, "centroid " + std::to_string(k));
	int at = 0;
	for(auto s = o->begin(); s != o->end(); ++s, ++at)
	{
		for(int i = 0; i < 4; ++i)
		{
			c.near(s->mean(i), (double) mean[i], 1e-9, 1e-12, "mean " + std::to_string(i));
			for(int j = 0; j < 4; ++j)
				c.near(s->sig(i, j), (double) cov[i][j], 1e-8, 1e-16, "covariance " + std::to_string(i) + std::to_string(j));
		}
		if(edge)
			continue;
		// the slice at this place
		double place[2] = {s->ct(), s->dp()};
		int k[2];
		for(int d = 0; d < 2; ++d)
		{
			long double p = place[d] - (adjust ? mean[4 + d] - centroid[d] : 0);
			k[d] = num[d] > 1 ? (int) std::floor((p - lo[d]) / width[d]) : 0;
			c.check(k[d] >= 0 && k[d] < num[d], "place of the slice");
			c.near((double) p, (double) (lo[d] + (k[d] + 0.5L) * width[d]), 1e-9, 1e-12, "centre of the slice");
		}
		double& want = charge[k[0] * ndp + k[1]];
		c.check(!std::isnan(want), "one slice at each place");
		c.near(s->Q(), want, 1e-10, 0, "charge of the slice");
		want = NAN;
	}
	if(!edge)
		c.label("charges judged");
}
