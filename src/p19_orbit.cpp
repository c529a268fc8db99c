// P19: the closed orbit is a fixed point of one turn and the transfer matrix its derivative.
#include "ring.h"
#include "ClosedOrbit.h"
#include "ElectronBunch.h"
#include "TransferMatrix.h"
#include "SynchRadParticleProcess.h"
#include "RingDeltaTProcess.h"
using namespace ring;
pbt::Info pbt::info = {"P19", "the ring is stable (reference one-turn traces), and has errors, an energy offset, sextupoles or cavities, or bends",
	"One turn is tracked with ParticleTracker over AcceleratorModel::GetRing (tracking itself is decided by P03, P04 and P06)."};

namespace
{
V6 guess(Gen& g)
{
	return V6{g.coord(5e-4), g.coord(1e-4), g.coord(5e-4), g.coord(1e-4), 0, 0};
}
std::array<double, 6> scale(const Ring& r)
{
	double L = std::max(1.0, r.length());
	return {1e-3, 1e-4, 1e-3, 1e-4, 1e-3 * L, 1e-3};
}
M6 derivative(std::function<V6(const V6&)> f, const V6& at)
{
	return jacobian(f, at, V6{1e-5, 1e-6, 1e-5, 1e-6, 1e-5, 1e-6});
}
void same_matrix(Ctx& c, const RealMatrix& M, const M6& J, const std::string& what, double tol = 3e-5)
{
	// every entry is judged at the scale of the row and the column: maps of x and x' differ by a length
	double big = norm(J);
	for(int i = 0; i < 6; ++i)
		for(int j = 0; j < 6; ++j)
		{
			double rc = 0;
			for(int k = 0; k < 6; ++k)
				rc = std::max(rc, std::fabs(J[i][k]));
			c.near(M(i, j), J[i][j], tol, tol * std::min(big, std::max(1.0, rc)), what + " element " + std::to_string(i + 1) + "," + std::to_string(j + 1));
		}
}
}

LAW(transverse_fixed_point, 1500, 60000,
	"with TransverseOnly the orbit found repeats after one turn in the four transverse coordinates, keeps the given ct and dp, and does not depend on the starting guess")
{
	Opts o;
	o.errors = g.chance(4, 5);
	o.sext = g.chance(1, 3);
	Ring r = make(g, c, o);
	int n = g.b() ? 0 : g.i(0, r.parts.size() - 1);
	double dp = g.chance(1, 3) ? 0 : g.coord(5e-4), ct = g.coord(1e-2);
	V6 a = guess(g), b = guess(g);
	a[4] = b[4] = ct;
	a[5] = b[5] = dp;
	c.nontrivial(o.errors || dp != 0);
	c.label(o.sext, "sextupoles");
	c.label(dp != 0, "energy offset");
	c.desc << " at " << n << " dp=" << dp << " guess " << str(a);
	ClosedOrbit co(r.model.get(), r.P0);
	co.TransverseOnly(true);
	if(g.chance(1, 4))
		co.SetDelta(g.logu(1e-10, 1e-7));
	double tol = 1e-26;
	if(g.chance(1, 4))
		co.SetTolerance(tol = g.logu(1e-26, 1e-14));
	PSvector p = mk(a), q = mk(b);
	co.FindClosedOrbit(p, n);
	double w1 = co.w;
	int it1 = co.iter;
	co.FindClosedOrbit(q, n);
	V6 z = un(p), y = un(q);
	if(o.sext && (w1 > tol || co.w > tol))
	{
		c.label("sextupoles: not converged");   // the orbit may not exist
		c.discard();
	}
	c.check(w1 <= tol && co.w <= tol, "the search did not converge: w=" + std::to_string(w1) + " iterations " + std::to_string(it1));
	c.same(z[4], ct, "ct");
	c.same(z[5], dp, "dp");
	V6 t = once(r, z, n);
	V6 e;
	auto s = scale(r);
	double acc = 1e-7 + 1e3 * std::sqrt(tol);
	for(int i = 0; i < 4; ++i)
	{
		c.near(t[i], z[i], 0, acc * s[i] * 10, "one turn from the closed orbit, coordinate " + std::to_string(i + 1));
		c.near(y[i], z[i], 0, acc * s[i] * 100, "closed orbits from two starting points, coordinate " + std::to_string(i + 1));
	}
	if(o.errors && !o.sext && dp == 0)
	{
		// linear ring: the orbit is the superposition of the kicks of the reference model
		M3 T = {};
		size_t N = r.parts.size();
		// affine map: x -> A x + b, carried through the parts
		Lin A = unit();
		double bx[2] = {0, 0}, by[2] = {0, 0};
		for(size_t i = 0; i < N; ++i)
		{
			const Part& k = r.parts[(n + i) % N];
			Lin m = k.map();
			double vx[2] = {bx[0] - k.dx, bx[1]}, vy[2] = {by[0] - k.dy, by[1]};
			for(int j = 0; j < 2; ++j)
			{
				bx[j] = m.x[j][0] * vx[0] + m.x[j][1] * vx[1];
				by[j] = m.y[j][0] * vy[0] + m.y[j][1] * vy[1];
			}
			bx[0] += k.dx;
			by[0] += k.dy;
			if(k.kind == "xcor")
			{
				bx[1] -= k.kick;
				bx[0] -= k.kick * k.L / 2;
			}
			if(k.kind == "ycor")
			{
				by[1] += k.kick;
				by[0] += k.kick * k.L / 2;
			}
			A = m * A;
		}
		(void) T;
		auto solve = [](double a11, double a12, double a21, double a22, const double* b, double* v)
			{
				double d = (1 - a11) * (1 - a22) - a12 * a21;
				v[0] = ((1 - a22) * b[0] + a12 * b[1]) / d;
				v[1] = (a21 * b[0] + (1 - a11) * b[1]) / d;
			};
		double vx[2], vy[2];
		solve(A.x[0][0], A.x[0][1], A.x[1][0], A.x[1][1], bx, vx);
		solve(A.y[0][0], A.y[0][1], A.y[1][0], A.y[1][1], by, vy);
		double amp = 0;
		for(int i = 0; i < 2; ++i)
			amp = std::max(amp, std::max(std::fabs(vx[i]), std::fabs(vy[i])));
		c.label("linear reference");
		// quadratic terms of the bends are left out
		double at = 3e-2 * amp + 1e-9;
		c.near(z[0], vx[0], 0, at, "x of the closed orbit and of the linear reference");
		c.near(z[2], vy[0], 0, at, "y of the closed orbit and of the linear reference");
		c.near(z[1], vx[1], 0, at, "x' of the closed orbit and of the linear reference");
		c.near(z[3], vy[1], 0, at, "y' of the closed orbit and of the linear reference");
	}
}

LAW(full_fixed_point, 1200, 40000,
	"without TransverseOnly, with and without cavities and synchrotron radiation, all six coordinates repeat after one turn")
{
	Opts o;
	o.rf = g.chance(2, 3);
	o.errors = g.chance(2, 3);
	o.err = 2e-5;
	Ring r = make(g, c, o);
	if(r.parts.size() < 4)
		c.discard();
	bool rad = o.rf && g.b();
	if(rad)
	{
		// energy loss of electrons, from the classical formula: a part of what the cavities can give back
		double h2 = 0, V = 0;
		for(auto& p : r.parts)
		{
			h2 += p.h * p.h * p.L;
			V += p.kind == "rf" ? p.kick : 0;
		}
		if(h2 == 0)
			c.discard();
		r.P0 = g.real(0.3, 0.8) * std::cbrt(V * 2 * pi / (8.85e-5 * h2));
		build(r);
		c.desc << " P0=" << r.P0;
	}
	int n = g.b() ? 0 : g.i(0, r.parts.size() - 1);
	double h = 0;
	for(auto& p : r.parts)
		h = std::max(h, std::fabs(p.h));
	c.nontrivial((o.errors && h > 0) || rad);
	c.label(o.rf, "cavities");
	c.label(rad, "radiation");
	if(std::fabs(slip(r)) < 0.2)
		c.discard();       // the energy is not determined: ct does not depend on it
	V6 a = guess(g);
	for(double& x : a)
		x *= 0.1;
	int steps = g.i(1, 3);
	double ds = g.b() ? 0 : g.real(0.1, 2);
	ClosedOrbit co(r.model.get(), r.P0);
	if(rad)
	{
		co.Radiation(true);
		if(ds > 0)
			co.SetRadStepSize(ds);
		else
			co.SetRadNumSteps(steps);
	}
	c.desc << " at " << n << " radiation " << rad << " ds " << ds << " steps " << steps << " guess " << str(a);
	PSvector p = mk(a);
	co.SetMaxIterations(40);
	co.FindClosedOrbit(p, n);
	c.check(co.w <= 1e-26 || co.w <= 1e-20, "the search did not converge: w=" + std::to_string(co.w));
	V6 z = un(p);
	ElectronBunch* b = new ElectronBunch(r.P0, 1.0);
	b->AddParticle(p);
	ParticleTracker t(r.model->GetBeamline(n, r.parts.size() - 1), nullptr);
	if(rad)
	{
		SynchRadParticleProcess* sr = new SynchRadParticleProcess(1);
		sr->AdjustBunchReferenceEnergy(false);
		if(ds > 0)
			sr->SetMaxComponentStepSize(ds);
		else
			sr->SetNumComponentSteps(steps);
		t.AddProcess(sr);
	}
	t.Track(b);
	if(n)
	{
		t.SetBeamline(r.model->GetBeamline(0, n - 1));
		t.Track(b);
	}
	V6 e = un(b->GetParticles()[0]);
	delete b;
	auto s = scale(r);
	c.desc << " orbit " << str(z);
	for(int i = 0; i < 6; ++i)
		c.near(e[i], z[i], 0, 1e-6 * s[i], "one turn from the closed orbit, coordinate " + std::to_string(i + 1));
}

LAW(matrix_is_derivative, 1000, 40000,
	"FindTM on a given orbit, over the ring or over a range of elements, and on the closed orbit, is the derivative of the tracked map; ranges compose")
{
	Opts o;
	o.errors = g.b();
	int what = g.i(0, 3);
	o.sext = g.b();
	o.err = what < 2 ? 1e-4 : 2e-5;
	o.rf = g.chance(1, 3);
	Ring r = make(g, c, o);
	int N = r.parts.size();
	V6 a = guess(g);
	a[4] = g.coord(1e-3);
	a[5] = g.coord(5e-4);
	c.nontrivial();
	PSvector p = mk(a);
	TransferMatrix tm(r.model.get(), r.P0);
	int n = g.b() ? 0 : g.i(0, N - 1);
	if(n)
		tm.SetObservationPoint(n);
	RealMatrix M(6);
	auto whole = [&](const V6& v)
		{
			return once(r, v, n);
		};
	switch(what)
	{
	case 0:
		c.label("whole ring");
		c.desc << " ring from " << n << " orbit " << str(a);
		tm.FindTM(M, p);
		c.check(str(un(p)) == str(a), "FindTM changed the orbit");
		same_matrix(c, M, derivative(whole, a), "ring");
		break;
	case 1:
	{
		c.label("range");
		int n1 = g.i(0, N - 1), n2 = g.i(n1, N - 1);
		c.desc << " range " << n1 << ".." << n2 << " orbit " << str(a);
		tm.FindTM(M, p, n1, n2);
		same_matrix(c, M, derivative([&](const V6& v)
			{
				return along(r, v, n1, n2);
			}, a), "range");
		if(n2 > n1)
		{
			int m = g.i(n1, n2 - 1);
			RealMatrix A(6), B(6);
			PSvector p2 = mk(along(r, a, n1, m));
			tm.FindTM(A, p, n1, m);
			tm.FindTM(B, p2, m + 1, n2);
			M6 AA, BB;
			for(int i = 0; i < 6; ++i)
				for(int j = 0; j < 6; ++j)
				{
					AA[i][j] = A(i, j);
					BB[i][j] = B(i, j);
				}
			same_matrix(c, M, mul(BB, AA), "product of two ranges", 1e-4);
		}
		break;
	}
	default:
	{
		if(std::fabs(slip(r)) < 0.2)
			c.discard();
		a[4] = a[5] = 0;
		for(double& x : a)
			x *= 0.1;
		p = mk(a);
		bool given = g.b();
		c.label(given ? "closed orbit, with guess" : "closed orbit");
		c.desc << (given ? " FindClosedOrbitTM " : " FindTM(M) ") << n << " " << str(a);
		if(given)
			tm.FindClosedOrbitTM(M, p);
		else
		{
			tm.FindTM(M);
			p = PSvector(0);
			ClosedOrbit co(r.model.get(), r.P0);
			co.FindClosedOrbit(p, n);
		}
		V6 z = un(p), e = whole(z);
		auto s = scale(r);
		for(int i = 0; i < 6; ++i)
			c.near(e[i], z[i], 0, 1e-6 * s[i], "one turn from the orbit, coordinate " + std::to_string(i + 1));
		same_matrix(c, M, derivative(whole, z), "closed orbit");
	}
	}
}

LAW(matrix_with_radiation, 300, 12000,
	"with Radiation(true) the transfer matrix is the derivative of the map with the mean energy loss of electrons in the bends")
{
	Opts o;
	o.errors = g.b();
	o.err = 1e-4;
	Ring r = make(g, c, o);
	r.P0 = g.real(0.5, 15);
	build(r);
	double h = 0;
	for(auto& q : r.parts)
		h = std::max(h, std::fabs(q.h));
	c.nontrivial(h > 0 && r.P0 > 2);
	int N = r.parts.size();
	V6 a = guess(g);
	a[4] = g.coord(1e-3);
	a[5] = g.coord(5e-4);
	int n1 = g.i(0, N - 1), n2 = g.i(n1, N - 1);
	bool ring = g.b();
	if(ring)
		n1 = 0, n2 = N - 1;
	int steps = g.i(1, 3);
	double ds = g.b() ? 0 : g.real(0.1, 2);
	c.desc << " P0=" << r.P0 << " " << n1 << ".." << n2 << " ring " << ring << " steps " << steps << " ds " << ds << " orbit " << str(a);
	TransferMatrix tm(r.model.get(), r.P0);
	tm.Radiation(true);
	if(ds > 0)
		tm.SetRadStepSize(ds);
	else
		tm.SetRadNumSteps(steps);
	RealMatrix M(6);
	PSvector p = mk(a);
	if(ring)
		tm.FindTM(M, p);
	else
		tm.FindTM(M, p, n1, n2);
	same_matrix(c, M, derivative([&](const V6& v)
		{
			ElectronBunch* b = new ElectronBunch(r.P0, 1.0);
			b->AddParticle(mk(v));
			ParticleTracker t(r.model->GetBeamline(n1, n2), nullptr);
			SynchRadParticleProcess* sr = new SynchRadParticleProcess(1);
			sr->AdjustBunchReferenceEnergy(false);
			if(ds > 0)
				sr->SetMaxComponentStepSize(ds);
			else
				sr->SetNumComponentSteps(steps);
			t.AddProcess(sr);
			t.Track(b);
			V6 e = un(b->GetParticles()[0]);
			delete b;
			return e;
		}, a), "matrix");
}

LAW(rms_orbit, 500, 20000,
	"the rms orbit is the root mean square over the length of the tracked orbit (mid-points of every element)")
{
	Opts o;
	o.errors = true;
	Ring r = make(g, c, o);
	V6 a = guess(g);
	a[4] = g.coord(1e-3);
	a[5] = g.coord(5e-4);
	c.nontrivial();
	ClosedOrbit co(r.model.get(), r.P0);
	PSvector p = mk(a);
	co.FindRMSOrbit(p);
	V6 sum = {0, 0, 0, 0, 0, 0}, prev = a;
	double len = 0;
	for(size_t i = 0; i < r.parts.size(); ++i)
	{
		V6 z = along(r, prev, i, i);
		for(int k = 0; k < 6; ++k)
			sum[k] += r.parts[i].L * (z[k] + prev[k]) * (z[k] + prev[k]) / 4;
		len += r.parts[i].L;
		prev = z;
	}
	for(int k = 0; k < 6; ++k)
		c.near(p[k], std::sqrt(sum[k] / len), 1e-9, 1e-15, "rms of coordinate " + std::to_string(k + 1));
}
