// P20: lattice functions, tunes, phase advance and dispersion describe the linear motion of the ring.
#include "ring.h"
#include "ClosedOrbit.h"
#include "TransferMatrix.h"
#include "LatticeFunctions.h"
#include "PhaseAdvance.h"
#include "BetatronTunes.h"
#include "Dispersion.h"
#include "MerlinException.h"
#include "RingDeltaTProcess.h"
#include "TWRFStructure.h"
using namespace ring;
pbt::Info pbt::info = {"P20", "the ring has at least four elements and two different quadrupole strengths",
	"Rings are stable and not close to the integer, the half integer or equal fractional tunes; the reference uses textbook matrices or the derivatives of tracked particles."};

namespace
{
double frac(double x)
{
	return x - std::floor(x);
}
double turns(double a, double b)     // distance modulo one
{
	double d = frac(a - b);
	return std::min(d, 1 - d);
}
struct Ref
{
	std::vector<Twiss> t;
	std::vector<double> mux, muy, s;    // in turns, not reduced
};
Ref reference(const Ring& r)
{
	Ref f;
	size_t N = r.parts.size();
	double mx = 0, my = 0, s = 0;
	for(size_t i = 0; i <= N; ++i)
	{
		Twiss t = twiss(r.turn(i % N));
		f.t.push_back(t);
		f.mux.push_back(mx);
		f.muy.push_back(my);
		f.s.push_back(s);
		if(i < N)
		{
			Lin m = r.parts[i].map();
			// thick focusing elements advance by less than half a turn
			double ax = std::atan2(m.x[0][1], t.bx * m.x[0][0] - t.ax * m.x[0][1]);
			double ay = std::atan2(m.y[0][1], t.by * m.y[0][0] - t.ay * m.y[0][1]);
			mx += (ax < -1e-12 ? ax + 2 * pi : ax) / (2 * pi);
			my += (ay < -1e-12 ? ay + 2 * pi : ay) / (2 * pi);
			s += r.parts[i].L;
		}
	}
	return f;
}
bool bends(const Ring& r)
{
	for(auto& p : r.parts)
		if(p.h != 0)
			return true;
	return false;
}
V6 guess_(Gen& g)
{
	return V6{g.coord(5e-4), g.coord(1e-4), g.coord(5e-4), g.coord(1e-4), 0, 0};
}
struct Quiet          // the tables report on cout
{
	std::streambuf* old;
	std::ostringstream sink;
	Quiet() :
		old(std::cout.rdbuf(sink.rdbuf()))
	{
	}
	~Quiet()
	{
		std::cout.rdbuf(old);
	}
};
}

LAW(twiss_functions, 500, 20000,
	"beta, alpha, phase and dispersion at every element equal the periodic solution of the textbook matrices, with one row per element entrance and one for the end")
{
	Ring r = make(g, c);
	size_t N = r.parts.size();
	Ref f = reference(r);
	bool disp = bends(r) && std::fabs(slip(r)) > 0.05 && g.chance(3, 4);
	bool symp = !disp && g.chance(1, 2); // (would undo the longitudinal stability)
	c.nontrivial();
	c.label(disp, "dispersion");
	c.label(symp, "symplectified");
	Quiet q;
	LatticeFunctionTable t(r.model.get(), r.P0);
	bool defaults = disp && g.b();
	if(!defaults)
	{
		t.RemoveAllFunctions();
		t.AddFunction(1, 1, 1);
		t.AddFunction(1, 2, 1);
		t.AddFunction(3, 3, 2);
		t.AddFunction(3, 4, 2);
		t.AddFunction(1, 0, 0);
		if(disp)
		{
			t.AddFunction(1, 6, 3);
			t.AddFunction(2, 6, 3);
			t.AddFunction(3, 6, 3);
			t.AddFunction(6, 6, 3);
		}
	}
	t.AddFunction(0, 0, 1);
	t.AddFunction(0, 0, 2);
	t.AddFunction(2, 2, 1);
	t.AddFunction(4, 4, 2);
	if(g.chance(1, 4))
		t.SetDelta(g.logu(1e-9, 3e-8));
	if(disp)
		t.SetForceLongitudinalStability(true);
	if(symp)
		t.MakeTMSymplectic(true);
	c.desc << " dispersion " << disp << " symplectify " << symp << " defaults " << defaults;
	t.Calculate();
	if(g.chance(1, 4))
		t.Calculate();
	int rows, cols;
	t.Size(rows, cols);
	c.eq(rows, (int) N + 1, "rows");
	c.eq(t.NumberOfRows(), (int) N + 1, "NumberOfRows");
	double bx = 0, by = 0, D = 0;
	for(auto& w : f.t)
	{
		bx = std::max(bx, w.bx);
		by = std::max(by, w.by);
		D = std::max(D, std::fabs(w.D));
	}
	const double tol = 1e-4;
	for(size_t i = 0; i <= N; ++i)
	{
		std::string at = " at row " + std::to_string(i);
		const Twiss& w = f.t[i];
		c.near(t.Value(0, 0, 0, i), f.s[i], 1e-12, 1e-12, "s" + at);
		c.near(t.Value(1, 1, 1, i), w.bx, tol, tol * bx, "beta x" + at);
		c.near(t.Value(1, 2, 1, i), -w.ax, tol, tol * 10, "-alpha x" + at);
		c.near(t.Value(2, 2, 1, i), (1 + w.ax * w.ax) / w.bx, tol, 1e-3, "gamma x" + at);
		c.near(t.Value(3, 3, 2, i), w.by, tol, tol * by, "beta y" + at);
		c.near(t.Value(3, 4, 2, i), -w.ay, tol, tol * 10, "-alpha y" + at);
		c.near(t.Value(4, 4, 2, i), (1 + w.ay * w.ay) / w.by, tol, 1e-3, "gamma y" + at);
		c.near(turns(t.Value(0, 0, 1, i), f.mux[i]), 0, 0, 5e-5, "phase x" + at + " (reference " + std::to_string(frac(f.mux[i])) + ")");
		c.near(turns(t.Value(0, 0, 2, i), f.muy[i]), 0, 0, 5e-5, "phase y" + at + " (reference " + std::to_string(frac(f.muy[i])) + ")");
		c.near(t.Value(1, 0, 0, i), 0, 0, 1e-12, "orbit" + at);
		if(disp)
		{
			double n = t.Value(6, 6, 3, i);
			c.near(t.Value(1, 6, 3, i) / n, w.D, 1e-3, 1e-3 * (D + 0.1), "dispersion" + at);
			c.near(t.Value(2, 6, 3, i) / n, w.Dp, 1e-3, 1e-3 * (D + 0.1), "dispersion derivative" + at);
			c.near(t.Value(3, 6, 3, i) / n, 0, 1e-3, 1e-3, "vertical dispersion" + at);
		}
	}
}

LAW(normal_modes, 300, 12000,
	"with cavities, errors and sextupoles, all 63 functions of the three modes propagate with the derivative of the tracked map, are periodic, and are normalised")
{
	Opts o;
	o.errors = g.b();
	o.err = 2e-5;
	o.sext = g.b();
	o.rf = true;
	Ring r = make(g, c, o);
	if(slip(r) < 0.2)
		c.discard();
	size_t N = r.parts.size();
	c.nontrivial();
	c.label(o.errors, "errors");
	Quiet q;
	// the table uses the orbit at dp=ct=0
	ClosedOrbit co(r.model.get(), r.P0);
	co.TransverseOnly(true);
	PSvector p(0);
	co.FindClosedOrbit(p);
	if(co.w > 1e-20)
		c.discard();
	V6 orbit = un(p);
	V6 h{1e-5, 1e-6, 1e-5, 1e-6, 1e-5, 1e-6};
	M6 J = jacobian([&](const V6& v)
		{
			return once(r, v);
		}, orbit, h);
	// stable in all three planes, with separate tunes
	{
		double tr5 = J[4][4] + J[5][5];
		if(!(tr5 < 1.9999 && tr5 > 0))
			c.discard();
		if(std::fabs(trx(r.turn()) - tr5) < 0.1 || std::fabs(try_(r.turn()) - tr5) < 0.1)
			c.discard();
	}
	LatticeFunctionTable t(r.model.get(), r.P0);
	t.RemoveAllFunctions();
	for(int i = 1; i <= 6; ++i)
	{
		t.AddFunction(i, 0, 0);
		for(int j = i; j <= 6; ++j)
			for(int k = 1; k <= 3; ++k)
				t.AddFunction(i, j, k);
	}
	if(g.b())
	{
		PSvector given = p;
		t.Calculate(&given);
	}
	else
		t.Calculate();
	auto B = [&](int k, size_t n)
		{
			M6 b;
			for(int i = 0; i < 6; ++i)
				for(int j = 0; j < 6; ++j)
					b[i][j] = t.Value(std::min(i, j) + 1, std::max(i, j) + 1, k, n);
			return b;
		};
	auto transpose = [](const M6& a)
		{
			M6 b;
			for(int i = 0; i < 6; ++i)
				for(int j = 0; j < 6; ++j)
					b[i][j] = a[j][i];
			return b;
		};
	auto same = [&](const M6& a, const M6& b, double tol, const std::string& what)
		{
			for(int i = 0; i < 6; ++i)
				for(int j = 0; j < 6; ++j)
				{
					double s = std::sqrt(std::fabs(b[i][i] * b[j][j]));
					double row = 0;
					for(int k = 0; k < 6; ++k)
						row = std::max(row, std::fabs(b[k][k]));
					c.near(a[i][j], b[i][j], tol, tol * s + 5e-2 * tol * row, what + " element " + std::to_string(i + 1) + "," + std::to_string(j + 1));
				}
		};
	const double tol = 1e-3;
	M6 S = {};
	for(int k = 0; k < 6; k += 2)
	{
		S[k][k + 1] = 1;
		S[k + 1][k] = -1;
	}
	// the tracked maps are symplectic to first order only: large orbits do not conserve the modes
	if(symplectic_error(J, 6) > 5e-5)
	{
		c.label("map not symplectic");
		c.discard();
	}
	for(int k = 1; k <= 3; ++k)
	{
		std::string m = "mode " + std::to_string(k);
		M6 b = B(k, 0);
		same(mul(mul(J, b), transpose(J)), b, tol, m + " after one turn");
		same(B(k, N), b, tol, m + " in the last row");
		// B S B S B = -B : emittance one
		M6 bs = mul(b, S);
		M6 n = mul(mul(bs, bs), b);
		for(auto& row : n)
			for(double& x : row)
				x = -x;
		same(n, b, tol, m + " normalisation");
		c.check(b[2 * k - 2][2 * k - 2] > 0, m + " is not the one of its plane");
		for(int pl = 1; pl <= 3; ++pl)
			if(pl != k)
				c.check(std::fabs(b[2 * k - 2][2 * k - 2] * b[2 * k - 1][2 * k - 1]) + 1e-9 >= std::fabs(b[2 * pl - 2][2 * pl - 2] * b[2 * pl - 1][2 * pl - 1]) * 0.01, m + " mostly moves in another plane");
		for(int rep = 0; rep < 3; ++rep)
		{
			size_t n2 = g.i(1, N - 1);
			M6 T = jacobian([&](const V6& v)
				{
					return along(r, v, 0, n2 - 1);
				}, orbit, h);
			same(B(k, n2), mul(mul(T, b), transpose(T)), tol, m + " propagated to row " + std::to_string(n2));
			V6 z = along(r, orbit, 0, n2 - 1);
			for(int i = 0; i < 6; ++i)
				c.near(t.Value(i + 1, 0, 0, n2), z[i], 1e-9, 1e-10, "orbit coordinate " + std::to_string(i + 1) + " in row " + std::to_string(n2));
		}
	}
}

LAW(phase_advance, 300, 12000,
	"the phase advance between any two elements, by index or name, is the one of the textbook matrices including whole turns; it is additive")
{
	Ring r = make(g, c);
	size_t N = r.parts.size();
	Ref f = reference(r);
	c.nontrivial();
	Quiet q;
	LatticeFunctionTable t(r.model.get(), r.P0);
	t.RemoveAllFunctions();
	t.AddFunction(0, 0, 1);
	t.AddFunction(0, 0, 2);
	t.Calculate();
	PhaseAdvance pa(r.model.get(), &t, r.P0);
	c.label(f.mux[N] > 1 || f.muy[N] > 1, "tune above one");
	for(int rep = 0; rep < 6; ++rep)
	{
		int n1 = g.i(0, N), n2 = g.i(0, N);
		if(rep == 0)
		{
			// next to the row where a turn is completed
			for(size_t i = 1; i <= N; ++i)
				if(std::floor(f.mux[i]) > std::floor(f.mux[i - 1]))
				{
					n2 = i;
					c.label("completed turn");
				}
		}
		// a phase within rounding of a whole turn may be counted either way
		bool edge = false;
		for(size_t i = 1; i <= N; ++i)
			edge = edge || turns(f.mux[i], 0) < 1e-5 || turns(f.muy[i], 0) < 1e-5;
		if(edge)
			c.discard();
		double x = f.mux[n2] - f.mux[n1], y = f.muy[n2] - f.muy[n1];
		std::string w = " between " + std::to_string(n1) + " and " + std::to_string(n2);
		c.near(pa.PhaseAdvanceBetween(n1, n2, true), x, 0, 5e-5, "horizontal" + w);
		c.near(pa.PhaseAdvanceBetween(n1, n2, false), y, 0, 5e-5, "vertical" + w);
		c.near(pa.GetPhaseAdvanceX(n2, n1), x, 0, 5e-5, "GetPhaseAdvanceX" + w);
		c.near(pa.GetPhaseAdvanceY(n2, n1), y, 0, 5e-5, "GetPhaseAdvanceY" + w);
		c.near(pa.GetPhaseAdvanceX(n2), f.mux[n2], 0, 5e-5, "GetPhaseAdvanceX" + w);
		c.near(pa.PhaseAdvanceBetween(n2, false), f.muy[n2], 0, 5e-5, "PhaseAdvanceBetween from the start" + w);
		if((size_t) n1 < N && (size_t) n2 < N)
		{
			c.near(pa.PhaseAdvanceBetween(r.parts[n1].name, r.parts[n2].name, true), x, 0, 5e-5, "horizontal, by name" + w);
			c.near(pa.PhaseAdvanceBetween(r.parts[n2].name, true), f.mux[n2], 0, 5e-5, "horizontal from the start, by name" + w);
		}
		std::pair<double, double> both = pa.CalcIntegerPart(n2);
		c.near(both.first, f.mux[n2], 0, 5e-5, "CalcIntegerPart" + w);
		c.near(both.second, f.muy[n2], 0, 5e-5, "CalcIntegerPart" + w);
	}
}

LAW(tunes, 250, 8000,
	"the tunes found by tracking are the fractions of a turn by which a particle oscillates, up to reflection, and a linear machine shows no diffusion")
{
	Ring r = make(g, c);
	Lin m = r.turn();
	double qx = std::acos(trx(m) / 2) / (2 * pi), qy = std::acos(try_(m) / 2) / (2 * pi);
	if(m.x[0][1] < 0)
		qx = 1 - qx;
	if(m.y[0][1] < 0)
		qy = 1 - qy;
	int n = 1 << g.i(6, 9);
	V6 a = {g.slogu(1e-7, 1e-5), g.coord(1e-7), g.slogu(1e-7, 1e-5), g.coord(1e-7), 0, 0};
	bool diff = g.b();
	// both signals of the vector (x,x') have components at q and 1-q; keep away from 0 and 1/2
	if(std::min(turns(qx, 0), turns(qy, 0)) < 6.0 / n || std::min(turns(qx, 0.5), turns(qy, 0.5)) < 6.0 / n)
		c.discard();
	c.nontrivial();
	c.label("turns " + std::to_string(n));
	c.desc << " turns " << n << " particle " << str(a) << " diffusion " << diff << " tunes " << qx << " " << qy;
	Quiet q;
	BetatronTunes bt(r.model.get(), r.P0);
	PSvector p = mk(a);
	bt.FindTunes(p, n, diff);
	// the interpolation of a windowed spectrum is much finer than a bin
	double acc = 0.05 / n;
	c.near(std::min(turns(bt.Qx, qx), turns(bt.Qx, -qx)), 0, 0, acc, "Qx " + std::to_string(bt.Qx) + " expected " + std::to_string(qx));
	c.near(std::min(turns(bt.Qy, qy), turns(bt.Qy, -qy)), 0, 0, acc, "Qy " + std::to_string(bt.Qy) + " expected " + std::to_string(qy));
	c.near(bt.GetQx(), bt.Qx, 0, 0, "GetQx");
	c.near(bt.GetQy(), bt.Qy, 0, 0, "GetQy");
	if(diff)
	{
		c.near(std::min(turns(bt.dQx + bt.Qx, qx), turns(bt.dQx + bt.Qx, -qx)), 0, 0, acc, "tune in the second half");
		c.near(std::min(turns(bt.dQy + bt.Qy, qy), turns(bt.dQy + bt.Qy, -qy)), 0, 0, acc, "tune in the second half");
	}
}

LAW(dispersion, 400, 15000,
	"dispersion is the periodic solution of the textbook matrices at any element, also around a distorted orbit; the rms is the one of the trapezoidal rule")
{
	Ring r = make(g, c);
	size_t N = r.parts.size();
	if(!bends(r))
		c.discard();
	Ref f = reference(r);
	c.nontrivial();
	Dispersion d(r.model.get(), r.P0);
	if(g.chance(1, 3))
	{
		double nd = g.logu(1e-10, 1e-7);
		c.near(d.SetDelta(nd), 1e-9, 0, 0, "the previous delta");
	}
	int n = g.i(0, N - 1);
	c.desc << " at " << n;
	d.FindDispersion(n);
	double D = 0;
	for(auto& w : f.t)
		D = std::max(D, std::fabs(w.D));
	c.near(d.Dx, f.t[n].D, 1e-5, 1e-5 * (D + 0.01), "Dx");
	c.near(d.Dxp, f.t[n].Dp, 1e-5, 1e-5 * (D + 0.01), "Dx'");
	c.near(d.Dy, 0, 0, 1e-9, "Dy");
	c.near(d.Dyp, 0, 0, 1e-9, "Dy'");
	std::ostringstream os;
	d.FindRMSDispersion(g.b() ? &os : nullptr);
	double sum = 0;
	for(size_t i = 0; i < N; ++i)
		sum += r.parts[i].L * (f.t[i].D * f.t[i].D + f.t[i + 1].D * f.t[i + 1].D) / 2;
	c.near(d.DxRMS, std::sqrt(sum / r.length()), 1e-4, 1e-6, "rms dispersion");
	c.near(d.DyRMS, 0, 0, 1e-9, "vertical rms dispersion");
}

LAW(energy_derivative, 300, 10000,
	"with cavities, the derivative of the orbit with respect to the energy is the dispersion of the textbook matrices")
{
	Opts o;
	o.rf = true;
	Ring r = make(g, c, o);
	if(slip(r) < 0.2)
		c.discard();
	size_t N = r.parts.size();
	Ref f = reference(r);
	double bend = 0, D = 0, Dp = 0;
	for(auto& p : r.parts)
		if(p.h != 0)
			bend += p.L;
	for(auto& w : f.t)
	{
		D = std::max(D, std::fabs(w.D));
		Dp = std::max(Dp, std::fabs(w.Dp));
	}
	Quiet q;
	LatticeFunctionTable t(r.model.get(), r.P0);
	t.UseOrbitFunctions();
	t.AddFunction(6, 0, 0);
	double dp = g.pick({1.0, -1.0}) * g.logu(1e-5, 1e-4);
	#pragma GCC diagnostic push
	#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
	t.ScaleBendPathLength(dp * slip(r) / bend);
	#pragma GCC diagnostic pop
	c.desc << " dp " << dp;
	c.nontrivial();
	// the closed orbit of the whole ring has to be found
	ClosedOrbit co(r.model.get(), r.P0);
	PSvector p(0);
	co.FindClosedOrbit(p);
	if(co.w > 1e-20)
		c.discard();
	t.CalculateEnergyDerivative();
	c.eq(t.NumberOfRows(), (int) N + 1, "rows");
	for(size_t i = 0; i <= N; ++i)
	{
		std::string at = " at row " + std::to_string(i);
		c.near(t.Value(0, 0, 0, i), f.s[i], 1e-12, 1e-12, "s" + at);
		c.near(t.Value(1, 0, 0, i), f.t[i].D, 1e-2, 3e-2 * (D + 0.1), "dispersion" + at);
		c.near(t.Value(2, 0, 0, i), f.t[i].Dp, 1e-2, 3e-2 * (Dp + 0.1), "dispersion derivative" + at);
		c.near(t.Value(3, 0, 0, i), 0, 0, 1e-6, "vertical dispersion" + at);
		c.near(t.Value(6, 0, 0, i), 1, 3e-2, 0, "momentum" + at);
	}
}

LAW(acceleration, 1500, 40000,
	"in an accelerating line the functions of given initial values propagate with the derivative of the tracked map, normalised to the momentum, on any orbit")
{
	double P0 = g.logu(0.05, 5);
	AcceleratorModelConstructor mc;
	mc.NewModel();
	int n = g.i(2, 9), cav = 0;
	c.desc << "P0=" << P0 << " ";
	double brho = P0 / 0.299792458;
	std::vector<double> s(1, 0);
	for(int i = 0; i < n; ++i)
	{
		std::string nm = std::to_string(i);
		double L = g.real(0.1, 1.5);
		switch(g.raw(4))
		{
		case 0:
			mc.AppendComponent(new Drift("D" + nm, L));
			c.desc << "drift " << L << "; ";
			break;
		case 1:
		case 2:
		{
			double k = g.sym(1);
			mc.AppendComponent(new Quadrupole("Q" + nm, L, k * brho));
			c.desc << "quad " << L << " k1=" << k << "; ";
			break;
		}
		case 3:
			mc.AppendComponent(new Sextupole("S" + nm, L, g.sym(5) * brho));
			c.desc << "sext " << L << "; ";
			break;
		default:
		{
			double E = g.real(0.02, 0.5) * P0 / L, ph = g.b() ? 0 : g.sym(1.2), fr = 1e9 * g.real(0.5, 3);
			mc.AppendComponent(new TWRFStructure("C" + nm, L, fr, E, ph));
			c.desc << "cavity " << L << " E=" << E << " phase=" << ph << " f=" << fr << "; ";
			++cav;
		}
		}
		s.push_back(s.back() + L);
	}
	std::unique_ptr<AcceleratorModel> model(mc.GetModel());
	double bx = g.logu(0.5, 20), ax = g.sym(2), by = g.logu(0.5, 20), ay = g.sym(2);
	V6 z{};
	bool off = g.chance(2, 3);
	if(off)
		for(int k = 0; k < 6; ++k)
			z[k] = g.sym(k == 4 ? 1e-4 : k % 2 ? 1e-4 : 1e-3);
	bool symp = !off && g.chance(1, 2); // (slopes are canonical on the reference momentum)
	c.desc << "beta " << bx << " " << by << " alpha " << ax << " " << ay << " from " << str(z) << (symp ? " symplectified" : "");
	c.nontrivial(cav > 0);
	c.label(cav > 0 && off, "accelerated off axis");
	RealMatrix M(6);
	for(int i = 0; i < 6; ++i)
		for(int j = 0; j < 6; ++j)
			M(i, j) = i == j;
	auto block = [&](int k, double b, double a, double mu)
		{
			double C = std::cos(mu), S = std::sin(mu);
			M(k, k) = C + a * S;
			M(k, k + 1) = b * S;
			M(k + 1, k) = -(1 + a * a) / b * S;
			M(k + 1, k + 1) = C - a * S;
		};
	block(0, bx, ax, 1.1);
	block(2, by, ay, 1.9);
	auto to = [&](const V6& v, int i, double& P)
		{
			P = P0;
			if(i == 0)
				return v;
			ParticleBunch b(P0, 1.0);
			b.AddParticle(mk(v));
			ParticleTracker t(model->GetBeamline(0, i - 1), &b, false);
			t.Run();
			P = t.GetTrackedBunch().GetReferenceMomentum();
			return un(t.GetTrackedBunch().GetParticles()[0]);
		};
	Quiet q;
	LatticeFunctionTable t(model.get(), P0);
	t.RemoveAllFunctions();
	for(int k = 1; k <= 2; ++k)
		for(int i = 1; i <= 4; ++i)
			for(int j = i; j <= 4; ++j)
				t.AddFunction(i, j, k);
	for(int k = 1; k <= 6; ++k)
		t.AddFunction(k, 0, 0);
	if(symp)
		t.MakeTMSymplectic(true);
	PSvector p = mk(z);
	t.Calculate(&p, &M);
	c.eq(t.NumberOfRows(), n + 1, "rows");
	double N0[4][4] = {};
	N0[0][0] = std::sqrt(bx);
	N0[1][0] = -ax / std::sqrt(bx);
	N0[1][1] = 1 / std::sqrt(bx);
	N0[2][2] = std::sqrt(by);
	N0[3][2] = -ay / std::sqrt(by);
	N0[3][3] = 1 / std::sqrt(by);
	for(int row = 0; row <= n; ++row)
	{
		std::string at = " at row " + std::to_string(row);
		double P, dummy;
		V6 o = to(z, row, P);
		c.near(t.Value(0, 0, 0, row), s[row], 1e-12, 1e-12, "s" + at);
		for(int k = 0; k < 6; ++k)
			c.near(t.Value(k + 1, 0, 0, row), o[k], 1e-9, 1e-14, "orbit " + std::to_string(k) + at);
		double J[4][4], N[4][4] = {}, big = 0, grown = 0;
		for(int k = 0; k < 4; ++k)
		{
			V6 u = z, d = z;
			double h = 1e-6;
			u[k] += h;
			d[k] -= h;
			u = to(u, row, dummy);
			d = to(d, row, dummy);
			for(int i = 0; i < 4; ++i)
				J[i][k] = std::sqrt(P / P0) * (u[i] - d[i]) / (2 * h);
		}
		for(int i = 0; i < 4; ++i)
			for(int j = 0; j < 4; ++j)
			{
				for(int k = 0; k < 4; ++k)
					N[i][j] += J[i][k] * N0[k][j];
				big = std::max(big, std::fabs(N[i][j]));
				grown = std::max(grown, std::fabs(J[i][j]));
			}
		if(grown > 30)
			break;       // differences of large numbers
		for(int k = 1; k <= 2; ++k)
			for(int i = 1; i <= 4; ++i)
				for(int j = i; j <= 4; ++j)
				{
					double w = N[i - 1][2 * k - 2] * N[j - 1][2 * k - 2] + N[i - 1][2 * k - 1] * N[j - 1][2 * k - 1];
					c.near(t.Value(i, j, k, row), w, 1e-4, 1e-4 * (big * big + 1), "function " + std::to_string(i) + std::to_string(j) + std::to_string(k) + at);
				}
	}
}

LAW(tables, 500, 15000,
	"means and rms values are trapezoidal averages, positions are found, columns keep their order, orbit tables have the same rows as others, and an absent column is reported")
{
	Opts o;
	o.errors = true;
	Ring r = make(g, c, o);
	size_t N = r.parts.size();
	c.nontrivial();
	Quiet q;
	LatticeFunctionTable t(r.model.get(), r.P0);
	bool orbit = g.b();
	t.RemoveAllFunctions();
	if(orbit)
		t.UseOrbitFunctions();
	else
	{
		t.AddFunction(1, 1, 1);
		t.AddFunction(3, 3, 2);
		t.AddFunction(1, 0, 0);
		t.AddFunction(3, 0, 0);
	}
	// on a given orbit: no search
	V6 a = guess_(g);
	PSvector p = mk(a);
	c.desc << " orbit functions only " << orbit << " from " << str(a);
	t.Calculate(&p);
	c.eq(t.NumberOfRows(), (int) N + 1, "rows");
	int rows, cols;
	t.Size(rows, cols);
	c.eq(cols, 5, "columns");
	V6 z = a;
	std::vector<double> s(1, 0), x(1, a[0]), y(1, a[2]);
	for(size_t i = 0; i < N; ++i)
	{
		z = along(r, z, i, i);
		s.push_back(s.back() + r.parts[i].L);
		x.push_back(z[0]);
		y.push_back(z[2]);
	}
	for(size_t i = 0; i <= N; ++i)
	{
		c.near(t.Value(0, 0, 0, i), s[i], 1e-12, 1e-12, "s in row " + std::to_string(i));
		c.near(t.Value(1, 0, 0, i), x[i], 1e-9, 1e-15, "x in row " + std::to_string(i));
		c.near(t.Value(3, 0, 0, i), y[i], 1e-9, 1e-15, "y in row " + std::to_string(i));
	}
	// (rows out of range are the first and the last)
	int n1 = g.i(-1, N), n2 = g.i(-1, N + 2);
	bool whole = g.b();
	int lo = whole || n1 < 0 ? 0 : n1, hi = whole || n2 < lo || n2 > (int) N ? (int) N : n2;
	double sw = 0, m = 0, m2 = 0;
	for(int i = lo; i < hi; ++i)
	{
		double w = s[i + 1] - s[i];
		sw += w;
		m += w * (x[i] + x[i + 1]) / 2;
		m2 += w * (x[i] * x[i] + x[i + 1] * x[i + 1]) / 2;
	}
	if(sw > 0)
	{
		double gm = whole ? t.Mean(1, 0, 0) : t.Mean(1, 0, 0, n1, n2), gr = whole ? t.RMS(1, 0, 0) : t.RMS(1, 0, 0, n1, n2);
		c.near(gm, m / sw, 1e-9, 1e-15, "mean of x over rows " + std::to_string(lo) + ".." + std::to_string(hi));
		c.near(gr, std::sqrt(m2 / sw), 1e-9, 1e-15, "rms of x over rows " + std::to_string(lo) + ".." + std::to_string(hi));
	}
	double sp = g.real(-1, s[N] * 1.1);
	int want = -1;
	for(size_t i = 0; i <= N && want < 0; ++i)
		if(t.Value(0, 0, 0, i) >= sp)
			want = i;
	c.eq(t.GetSPosIndex(sp), want, "first row at or after s=" + std::to_string(sp));
	// the printed table has the columns in order
	std::ostringstream os;
	t.PrintTable(os, n1, n2);
	std::istringstream is(os.str());
	int k1 = std::max(n1, 0), k2 = n2 < k1 || n2 > (int) N ? (int) N : n2, lines = 0;
	std::string line;
	while(std::getline(is, line))
	{
		std::istringstream l(line);
		double v, want_s = s[k1 + lines];
		int col = 0;
		while(l >> v)
		{
			if(col == 0)
				c.near(v, want_s, 1e-8, 1e-9, "printed s");
			if(col == (orbit ? 1 : 3))
				c.near(v, x[k1 + lines], 1e-8, 1e-13, "printed x");
			++col;
		}
		c.eq(col, 5, "printed columns");
		++lines;
	}
	c.eq(lines, k2 - k1 + 1, "printed rows");
	bool reported = false;
	try
	{
		t.Value(2, 2, 2, 0);
	}
	catch(std::exception&)
	{
		reported = true;
	}
	c.check(reported, "a column that is not in the table has a value");
	reported = false;
	try
	{
		t.Value(1, 0, 0, (int) N + 1 + g.i(0, 3));
	}
	catch(std::exception&)
	{
		reported = true;
	}
	c.check(reported, "a row that is not in the table has a value");
}
