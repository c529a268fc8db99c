// P04: element maps agree with independent reference optics.
#include "mlib.h"
#include "TransportMatrix.h"
#include "TransportRMap.h"
#include "BasicTransportMaps.h"
using namespace ml;

pbt::Info pbt::info = {"P04",
	"Elements of every kind with random length, strength, charge sign and momentum. Non-trivial: the element has a "
	"non-zero field (or is a drift) and the reference map differs from the identity.",
	"Linear references are matrix exponentials of the linearised equations of motion in the hard-edge field; second-order "
	"references are RK4 solutions of the exact equations. Ultra-relativistic path lengths (massless bunches)."};

namespace
{
typedef ParticleTracking::SYMPLECTIC::SectorBendCI_ef BendEF;
struct EFSet: public ISetBase
{
	void Init(TBunchCMPTracker<ParticleBunch>& ct) const
	{
		iset(SYMP_SET).Init(ct);
		ct.Register(new BendEF);
	}
};
// tracking with the exact-bend integrator
V6 track_ef(AcceleratorComponent& c, double P0, double q, const V6& v)
{
	static EFSet set;
	ParticleBunch b(P0, q);
	b.AddParticle(mk(v));
	ParticleComponentTracker t(set);
	t.SetBunch(b);
	c.PrepareTracker(t);
	t.Track();
	return un(b.GetParticles()[0]);
}
const char* const kinds[] = {"drift", "quad", "skewquad", "sext", "skewsext", "oct", "deca", "xcor", "ycor", "solenoid",
							 "bend", "bpm", "marker"};

M6 expm(M6 A, double L)
{
	int k = 0;
	double n = 0;
	for(auto& r : A)
		for(double& x : r)
		{
			x *= L;
			n = std::max(n, std::fabs(x));
		}
	while(n > 0.05)
	{
		n /= 2;
		++k;
	}
	double f = std::ldexp(1.0, -k);
	for(auto& r : A)
		for(double& x : r)
			x *= f;
	M6 E = unit6(), T = unit6();
	for(int i = 1; i < 12; ++i)
	{
		T = mul(T, A);
		for(auto& r : T)
			for(double& x : r)
				x /= i;
		for(int a = 0; a < 6; ++a)
			for(int b = 0; b < 6; ++b)
				E[a][b] += T[a][b];
	}
	for(int i = 0; i < k; ++i)
		E = mul(E, E);
	return E;
}
M6 rotation(double t)   // particle coordinates seen from axes rotated by t (x axis towards y)
{
	M6 R = unit6();
	double c = std::cos(t), s = std::sin(t);
	R[0][0] = R[1][1] = R[2][2] = R[3][3] = c;
	R[0][2] = R[1][3] = s;
	R[2][0] = R[3][1] = -s;
	return R;
}
M6 edge(double h, double beta, double fint, double hgap)
{
	M6 R = unit6();
	double sb = std::sin(beta), phi = 2 * fint * hgap * h * (1 + sb * sb) / std::cos(beta);
	R[1][0] = h * std::tan(beta);
	R[3][2] = -h * std::tan(beta - phi);
	return R;
}
// Linear map about the reference trajectory. d1 = 1+dp of the particle; slopes: coordinates are x',y'
// (otherwise momenta over the reference momentum).
M6 reference(const El& e, double P0, double q, double d1 = 1, bool slopes = true)
{
	double c = q * per_brho(P0);
	double k1 = e.B.size() > 1 ? c * e.B[1].real() : 0, ks = e.B.size() > 1 ? c * e.B[1].imag() : 0;
	M6 A{};
	double mx = slopes ? 1 : 1 / d1, fx = slopes ? 1 / d1 : 1;
	A[0][1] = A[2][3] = mx;
	if(e.Bz != 0)
	{
		// Larmor frame: focusing (bs/2)^2 and rotation by -bs L/2, entrance and exit fringes included
		double w = 0.5 * c * e.Bz / d1;
		M6 F{};
		F[0][1] = F[2][3] = 1;
		F[1][0] = F[3][2] = -w * w;
		return mul(rotation(w * e.L), expm(F, e.L));
	}
	A[1][0] = -(e.h * e.h + k1) * fx;
	A[1][2] = ks * fx;
	A[3][0] = ks * fx;
	A[3][2] = k1 * fx;
	A[1][5] = e.h;
	A[4][0] = -e.h;
	M6 R = expm(A, e.L);
	if(e.face1)
		R = mul(R, edge(e.h, e.rot1, e.fint1, e.gap1));
	if(e.face2)
		R = mul(edge(e.h, e.rot2, e.fint2, e.gap2), R);
	if(e.tilt)
		R = mul(rotation(-e.tilt), mul(R, rotation(e.tilt)));
	return R;
}
void compare(Ctx& c, const M6& A, const M6& B, double rtol, double atol, const std::string& what)
{
	double n = std::max(1.0, norm(B));
	for(int i = 0; i < 6; ++i)
		for(int j = 0; j < 6; ++j)
			c.near(A[i][j], B[i][j], 0, atol + rtol * n, what + " R" + std::to_string(i + 1) + std::to_string(j + 1));
}
const V6 H{1e-5, 1e-5, 1e-5, 1e-5, 1e-5, 1e-5};
// hard-edge dipole fringe field (positive curvature at the entrance, negative at the exit)
void fringe(V6& z, double h)
{
	z[3] -= h * z[1] * z[2];
	z[0] += h / 2 * z[2] * z[2];
}
bool weak_focus_gap(const El& e, double P0, double q)
{
	// K1 close to -h^2: the closed forms cancel (covered by kx_zero)
	double k1 = e.B.size() > 1 ? q * per_brho(P0) * e.B[1].real() : 0;
	return k1 != 0 && std::fabs(e.h * e.h + k1) < 1e-3;
}
}

LAW(first_order, 36000, 450000, "on-axis Jacobian of every element in every integrator set equals the textbook linear matrix")
{
	double P0 = beam_momentum(g), q = charge(g);
	std::string k = g.pick({"drift", "quad", "skewquad", "sext", "skewsext", "oct", "deca", "solenoid", "bend", "bend", "bend",
							"bend", "bpm", "marker"});
	ElOpts o;
	o.extra = false;
	auto e = element(g, P0, q, k, o);
	int set = g.i(0, 3);
	c.desc << (set == 3 ? "SYMPLECTIC(ef)" : setname((Set) set)) << " P0=" << P0 << " q=" << q << " " << e->text();
	c.label(k);
	c.label(set == 3 ? "SYMPLECTIC_EF" : setname((Set) set));
	if(k == "bend" && weak_focus_gap(*e, P0, q))
		c.discard();
	auto F = [&](const V6& v)
		{
			return set == 3 ? track_ef(*e->c, P0, q, v) : track1((Set) set, *e->c, P0, q, v);
		};
	M6 J = jacobian(F, V6{}, H), R = reference(*e, P0, q);
	c.nontrivial(symplectic_error(J, 2) < 1 && (e->L > 0));
	compare(c, J, R, 2e-7, 2e-7, k);
	V6 z = F(V6{});
	for(int i = 0; i < 6; ++i)
		c.near(z[i], 0, 0, 1e-15 * (1 + (e->h ? 4 / std::fabs(e->h) : 0)), "reference trajectory coordinate " + std::to_string(i));
}

LAW(kx_zero, 2400, 30000, "a bend whose gradient cancels its weak focusing disperses like a dipole without focusing")
{
	double P0 = 0.299792458, q = charge(g);   // q c/P0 = 1
	double L = g.i(1, 12) / 4.0, h = g.i(1, 4) / 16.0;
	if(g.b())
		h = -h;
	El e;
	e.kind = "bend";
	e.L = L;
	e.h = h;
	double scale = 1 / per_brho(P0);
	SectorBend* s = new SectorBend("B", L, h, h * scale / q);
	s->SetB1(-h * h * scale / q);
	e.c.reset(s);
	e.B = {h * scale / q, -h * h * scale / q};
	int set = g.i(1, 2);
	c.desc << setname((Set) set) << " " << e.text();
	c.nontrivial(true);
	M6 J = jacobian([&](const V6& v) {
			return track1((Set) set, *e.c, P0, q, v);
		}, V6{}, H);
	compare(c, J, reference(e, P0, q), 1e-6, 1e-6, "bend with K1=-h^2");
}

LAW(straight_bend, 2400, 30000, "a sector bend of zero angle acts as a drift or quadrupole")
{
	double P0 = beam_momentum(g), q = charge(g);
	double L = length(g, 0.05, 4), k1 = g.b() ? g.coord(1) : 0;
	double brho = 1 / per_brho(P0);
	SectorBend s("B", L, 0, 0);
	if(k1)
		s.SetB1(k1 * brho / q);
	Quadrupole Q("Q", L, k1 * brho / q);
	Drift D("D", L);
	Set set = (Set) g.i(0, 2);
	V6 v = particle(g);
	c.desc << setname(set) << " L=" << L << " k1=" << k1 << " " << str(v);
	c.nontrivial(k1 != 0);
	V6 a = track1(set, s, P0, q, v), b = k1 ? track1(set, Q, P0, q, v) : track1(set, D, P0, q, v);
	for(int i = 0; i < 6; ++i)
	{
		// chromatic focusing of a bend is left out by the thin-lens set, which tracks it with one matrix
		double tol = set == THIN_SET && k1 ? 4e-3 * (std::fabs(v[0]) + std::fabs(v[1]) + std::fabs(v[2]) + std::fabs(v[3])) *
			std::exp(std::sqrt(std::fabs(k1)) * L) * (1 + std::fabs(k1)) * (1 + L): 0;
		c.near(a[i], b[i], 1e-9, 1e-15 + tol, "coordinate " + std::to_string(i));
	}
}

LAW(chromatic, 16000, 200000, "focusing of quadrupoles, solenoids and bends scales with the particle's own rigidity")
{
	double P0 = beam_momentum(g), q = charge(g);
	std::string k = g.pick({"quad", "skewquad", "solenoid", "drift"});
	ElOpts o;
	o.extra = false;
	auto e = element(g, P0, q, k, o);
	Set set = (Set) g.i(0, 2);
	c.desc << setname(set) << " P0=" << P0 << " q=" << q << " " << e->text();
	c.label(k);
	bool slopes = set != SYMP_SET || k == "solenoid";   // the solenoid integrator is shared
	auto J = [&](double dp)
		{
			V6 v{};
			v[5] = dp;
			return jacobian([&](const V6& a) {
					return track1(set, *e->c, P0, q, a);
				}, v, H);
		};
	const double D = 1e-3;
	M6 Jp = J(D), Jm = J(-D);
	M6 Rp = reference(*e, P0, q, 1 + D, slopes), Rm = reference(*e, P0, q, 1 - D, slopes);
	double n = std::max(1.0, norm(Rp));
	c.nontrivial(e->Bz != 0 || (e->B.size() > 1 && std::abs(e->B[1]) != 0));
	for(int i = 0; i < 4; ++i)
		for(int j = 0; j < 4; ++j)
			c.near((Jp[i][j] - Jm[i][j]) / 2 / D, (Rp[i][j] - Rm[i][j]) / 2 / D, 0, 3e-4 * n * (1 + e->L * e->L),
				k + " dR/ddp " + std::to_string(i + 1) + std::to_string(j + 1));
}

LAW(multipole_kick, 24000, 300000, "thin elements, and thick ones in the limit of small length, kick by their multipole field")
{
	double P0 = beam_momentum(g), q = charge(g);
	double brho = 1 / per_brho(P0);
	Set set = (Set) g.i(0, 2);
	bool thin = set != THIN_SET && g.b();
	double L = thin ? 0 : 1e-4;
	const double scale[] = {1e-4, 0.02, 5, 1500, 6e5, 2e8};
	int nmax = g.i(0, 5), main = g.i(0, nmax);
	std::vector<std::complex<double> > k(nmax + 1);   // integrated q c/P0 B_n
	bool any = false;
	for(int n = 0; n <= nmax; ++n)
		if(n == main || g.chance(1, 2))
		{
			double r = g.chance(1, 4) ? 0 : g.sym(scale[n]), i = g.b() ? g.sym(scale[n]) : 0;
			k[n] = std::complex<double>(r, i) / fact(n);
			any = any || k[n] != 0.0;
		}
	// field constructor that takes order and n-th derivative, then further components
	std::complex<double> bn = k[main] * brho / q / (thin ? 1 : L);
	std::unique_ptr<RectMultipole> m;
	bool skew = bn.real() == 0;
	double b = (skew ? bn.imag() : bn.real());
	double d = b * fact(main);
	switch(main)
	{
	case 1:
		m.reset(skew ? static_cast<RectMultipole*>(new SkewQuadrupole("Q", L, d)) : new Quadrupole("Q", L, d));
		break;
	case 2:
		m.reset(skew ? static_cast<RectMultipole*>(new SkewSextupole("Q", L, d)) : new Sextupole("Q", L, d));
		break;
	case 3:
		skew ? (void) (d = 0) : (void) 0;
		m.reset(new Octupole("Q", L, d));
		break;
	case 4:
		skew ? (void) (d = 0) : (void) 0;
		m.reset(new Decapole("Q", L, d));
		break;
	default:
		m.reset(skew ? static_cast<RectMultipole*>(new YCor("Q", L, 0.0)) : new XCor("Q", L, 0.0));
	}
	for(int n = 0; n <= nmax; ++n)
	{
		std::complex<double> f = k[n] * brho / q / (thin ? 1 : L);
		if(n != main || bn.imag() != 0 || main == 0 || main > 2)
			m->GetField().SetComponent(n, f.real(), f.imag());
	}
	V6 v = particle(g, 2e-3, 5e-3);
	if(thin && !any)
		c.discard();
	std::complex<double> z(v[0], v[2]), w(1, 0), F(0, 0);
	double slope = 0, Fa = 0;
	for(int n = 0; n <= nmax; ++n)
	{
		F += k[n] * w;
		Fa += std::abs(k[n] * w);
		w *= z;
		slope += n * std::abs(k[n]) * std::pow(4e-3, n - 1);
	}
	c.desc << setname(set) << (thin ? " thin" : " short") << " P0=" << P0 << " q=" << q << " kL=";
	for(auto& x : k)
		c.desc << x;
	c.desc << " " << str(v);
	c.label(thin ? "thin" : "short");
	c.label("order " + std::to_string(nmax));
	c.nontrivial(std::abs(F) > 0);
	V6 a = track1(set, *m, P0, q, v);
	double d1 = 1 + v[5], f = set == SYMP_SET ? 1 : 1 / d1, s = set == SYMP_SET ? 1 / d1 : 1;
	// inside the short element the position moves by at most L*(slopes+kick); T matrices are linear in dp
	double move = L * (std::fabs(v[1]) + std::fabs(v[3]) + Fa);
	double chrom = (L ? 1.1 * v[5] * v[5] : 0) * Fa;
	if(set == TRANSPORT_SET && L && (nmax < 1 || k[1] == 0.0) && nmax > 1)
		chrom += 1.1 * std::fabs(v[5]) * std::abs(k[2] * z * z);   // a second-order map: its kick does not depend on dp
	double tol = 1e-13 * Fa + 1e-16 + 2 * slope * move + chrom;
	c.near(a[1] - v[1], -F.real() * f, 0, tol, "horizontal kick");
	c.near(a[3] - v[3], F.imag() * f, 0, tol, "vertical kick");
	c.near(a[0], v[0] + L * s * v[1], 0, 1e-15 + L * (tol + Fa + 1e-2 * (std::fabs(v[1]) + std::fabs(v[3]))), "x");
	c.near(a[2], v[2] + L * s * v[3], 0, 1e-15 + L * (tol + Fa + 1e-2 * (std::fabs(v[1]) + std::fabs(v[3]))), "y");
	c.same(a[5], v[5], "dp");
}

LAW(corrector_kick, 6000, 75000, "a corrector of any length deflects by its integrated field over the particle's rigidity")
{
	double P0 = beam_momentum(g), q = charge(g);
	Set set = (Set) g.i(0, 2);
	auto e = element(g, P0, q, g.b() ? "xcor" : "ycor", ElOpts{false, false, false});
	V6 v{};
	v[5] = g.coord(5e-3);
	c.desc << setname(set) << " P0=" << P0 << " q=" << q << " " << e->text() << " dp=" << v[5];
	std::complex<double> F = q * per_brho(P0) * e->L * e->B[0];
	c.nontrivial(std::abs(F) > 0);
	V6 a = track1(set, *e->c, P0, q, v);
	double d1 = 1 + v[5], f = set == SYMP_SET ? 1 : 1 / d1;
	c.near(a[1], -F.real() * f, 1e-10, 1e-18, "x'");
	c.near(a[3], F.imag() * f, 1e-10, 1e-18, "y'");
	double l = e->L / 2 / d1;
	// half way: deflection in the centre; sqrt of the exact drift is a higher order term
	c.near(a[0], -F.real() * l, 1e-4, 1e-18, "x");
	c.near(a[2], F.imag() * l, 1e-4, 1e-18, "y");
}

LAW(second_order, 6400, 100000, "second-order maps agree with the exact equations of motion to second order")
{
	double P0 = beam_momentum(g), q = charge(g);
	Set set = g.chance(3, 4) ? TRANSPORT_SET : SYMP_SET;
	std::string k = set == TRANSPORT_SET ? g.pick({"drift", "quad", "skewquad", "sext", "skewsext", "bend", "bend"}) :
		g.pick({"drift", "quad", "skewquad"});
	bool ef = g.chance(1, 8);
	if(ef)
	{
		set = SYMP_SET;
		k = "bend";
	}
	ElOpts o;
	o.maxk1 = 0.3;
	o.maxang = 0.2;
	o.extra = o.faces = o.tilt = false;
	auto e = element(g, P0, q, k, o);
	if(k == "bend" && e->B.size() > 1)
	{
		// combined function bends: transverse terms only, TRANSPORT
		if(ef || weak_focus_gap(*e, P0, q))
			c.discard();
	}
	c.desc << (ef ? "SYMPLECTIC(ef)" : setname(set)) << " P0=" << P0 << " q=" << q << " " << e->text();
	c.label(k);
	c.nontrivial(true);
	Exact ex;
	ex.h = e->h;
	for(auto b : e->B)
		ex.b.push_back(q * b * per_brho(P0));
	V6 u;
	for(double& x : u)
		x = g.sym(1);
	u[4] = 0;
	c.desc << " direction " << str(u);
	auto M = [&](double a)
		{
			V6 z;
			for(int i = 0; i < 6; ++i)
				z[i] = a * u[i];
			return ef ? track_ef(*e->c, P0, q, z) : track1(set, *e->c, P0, q, z);
		};
	auto F = [&](double a)
		{
			V6 z;
			for(int i = 0; i < 6; ++i)
				z[i] = a * u[i];
			if(set == SYMP_SET)
				return ex.run(z, e->L, 100);
			fringe(z, e->h);
			z = to_slopes(ex.run(to_canonical(z), e->L, 100));
			fringe(z, -e->h);
			return z;
		};
	const double A = 3e-4;
	V6 m2{}, f2{};
	for(int pass = 0; pass < 2; ++pass)   // second differences, fourth order removed by extrapolation
	{
		double a = pass ? A / 2 : A, w = pass ? 4. / 3 : -1. / 3;
		V6 mp = M(a), mm = M(-a), fp = F(a), fm = F(-a);
		for(int i = 0; i < 6; ++i)
		{
			m2[i] += w * (mp[i] + mm[i]) / 2 / a / a;
			f2[i] += w * (fp[i] + fm[i]) / 2 / a / a;
		}
	}
	int n = k == "bend" && e->B.size() > 1 ? 4 : 5;
	double big = 1;
	for(int i = 0; i < n; ++i)
		big = std::max(big, std::fabs(f2[i]));
	for(int i = 0; i < n; ++i)
		c.near(m2[i], f2[i], 0, 1e-4 * big + 1e-4,
			"second order coefficient of coordinate " + std::to_string(i));
}

LAW(exact_drift, 12000, 150000, "a drift moves particles along exact straight lines")
{
	double P0 = beam_momentum(g), q = charge(g);
	Set set = (Set) g.i(0, 2);
	double L = length(g, 0.01, 10);
	std::unique_ptr<AcceleratorComponent> d;
	int kind = g.i(0, 3);
	if(kind == 0 || set == SYMP_SET)
		d.reset(new Drift("D", L));
	else if(kind == 1)
		d.reset(new Quadrupole("Q", L, 0));
	else if(kind == 2)
		d.reset(new XCor("Q", L, 0));
	else
		d.reset(new Solenoid("Q", L, 0));
	V6 v = particle(g, 2e-2, 0.1);
	c.desc << setname(set) << " kind=" << kind << " L=" << L << " " << str(v);
	c.nontrivial(v[1] != 0 && v[3] != 0);
	V6 a = track1(set, *d, P0, q, v);
	double d1 = 1 + v[5], n = std::sqrt(d1 * d1 - v[1] * v[1] - v[3] * v[3]);
	double s = set == SYMP_SET ? 1 / n : 1;
	c.near(a[0], v[0] + L * v[1] * s, 1e-13, 1e-17, "x");
	c.near(a[2], v[2] + L * v[3] * s, 1e-13, 1e-17, "y");
	c.same(a[1], v[1], "xp");
	c.same(a[3], v[3], "yp");
	c.same(a[5], v[5], "dp");
	if(set == SYMP_SET)
		c.near(a[4], v[4] + L * (1 - d1 / n), 1e-12, 1e-14, "ct");
	else if(set == TRANSPORT_SET && kind == 0)
		c.near(a[4], v[4] - L * (v[1] * v[1] + v[3] * v[3]) / 2, 1e-13, 1e-17, "ct");
}

LAW(mismatch, 8000, 100000, "a bunch with another reference momentum is bent like an off-momentum particle of the matched bunch")
{
	double P1 = beam_momentum(g), q = charge(g);
	Set set = (Set) g.i(0, 2);
	ElOpts o;
	o.maxk1 = set == SYMP_SET ? 0.5 : 0;
	o.extra = false;
	o.faces = o.tilt = set == SYMP_SET;
	auto e = element(g, P1, q, "bend", o);
	double eps = g.slogu(1e-5, 1e-2);
	double P0 = P1 * (1 + eps);
	if(weak_focus_gap(*e, P1, q))
		c.discard();
	V6 v = particle(g);
	c.desc << setname(set) << " matched P=" << P1 << " bunch P=" << P0 << " q=" << q << " " << e->text() << " " << str(v);
	c.nontrivial(true);
	V6 a = track1(set, *e->c, P0, q, v);
	V6 w = v;
	double r = P0 / P1;
	w[5] = r * (1 + v[5]) - 1;
	if(set == SYMP_SET)
	{
		w[1] *= r;
		w[3] *= r;
	}
	V6 b = track1(set, *e->c, P1, q, w);
	if(set == SYMP_SET)
	{
		b[1] /= r;
		b[3] /= r;
	}
	b[5] = v[5];
	for(int i = 0; i < 6; ++i)
		c.near(a[i], b[i], 1e-9, 1e-13, "coordinate " + std::to_string(i));
}

LAW(slight_roll, 4000, 50000, "a tilt or skew gradient, however small, rolls a magnet by as much and no more")
{
	double P0 = beam_momentum(g), q = charge(g), brho = P0 / 0.299792458 * (q < 0 ? -1 : 1);
	double eps = g.pick({0., 1., -1.}) * g.logu(1e-20, 1e-11), L = g.real(0.1, 2), k1 = g.sym(1), h = g.sym(0.1);
	bool bend = g.b(), faces = g.b(), grad = g.b();
	double r1 = g.sym(0.2), r2 = g.sym(0.2);
	Set set = (Set) g.i(0, 2);
	auto make = [&](double e)
		{
			std::unique_ptr<AcceleratorComponent> a;
			if(bend)
			{
				SectorBend* b = new SectorBend("B", L, h, h * brho);
				if(grad)
					b->SetB1(k1 * brho);
				if(faces)
					b->SetPoleFaceInfo(new SectorBend::PoleFace(r1), new SectorBend::PoleFace(r2));
				b->GetGeometry().SetTilt(e);
				a.reset(b);
			}
			else
			{
				Quadrupole* b = new Quadrupole("Q", L, k1 * brho);
				b->GetField().SetComponent(1, k1 * brho, e * 2 * k1 * brho);
				a.reset(b);
			}
			return a;
		};
	V6 v = particle(g, 1e-3, 1e-3);
	c.desc << setname(set) << (bend ? " bend" : " quadrupole") << " L=" << L << " k1=" << k1 << " h=" << h << " roll " << eps << " " << str(v);
	c.nontrivial(eps != 0);
	c.label(std::fabs(eps) < 2.2e-16, "below rounding");
	auto a = make(0), b = make(eps);
	V6 x = track1(set, *a, P0, q, v), y = track1(set, *b, P0, q, v);
	for(int i = 0; i < 6; ++i)
		c.near(y[i], x[i], 1e-12, 1e-15 + 1e-12 + 0.1 * std::fabs(eps), "coordinate " + std::to_string(i));
}

LAW(functions, 12000, 150000, "the matrices and sparse maps of drifts, bends, quadrupoles, solenoids, pole faces and rolls are the textbook ones, in any number of planes")
{
	std::string k = g.pick({"drift", "quad", "bend", "solenoid", "face", "roll", "chromatic"});
	El e;
	e.L = g.chance(1, 8) ? 0 : g.real(0.05, 3);
	double k1 = g.chance(1, 6) ? 0 : g.sym(1), K0 = g.chance(1, 6) ? g.pick({0., 1e-17, 1e-9}) : g.sym(1);
	e.h = k == "bend" ? g.sym(0.2) : 0;
	if(k == "bend" && std::fabs(e.h * e.h + k1) < 1e-3 && e.h * e.h + k1 != 0 && k1 != 0)
		c.discard();
	double roll = g.pick({0., g.sym(3.2), g.sym(1e-9), g.sym(1e-17)});
	double fh = g.sym(0.2), fb = g.sym(0.4), fi = g.b() ? 0 : g.unit(), gap = g.b() ? 0 : g.unit() * 0.05;
	c.label(k);
	c.desc << k << " L=" << e.L << " k1=" << k1 << " K0=" << K0 << " h=" << e.h << " roll=" << roll << " face " << fh << "/" << fb << "/" << fi << "/" << gap;
	c.nontrivial();
	M6 w = unit6();
	if(k == "drift")
		w[0][1] = w[2][3] = e.L;
	else if(k == "solenoid")
	{
		M6 F{};
		F[0][1] = F[2][3] = 1;
		F[1][0] = F[3][2] = -K0 * K0 / 4;
		w = mul(rotation(K0 / 2 * e.L), expm(F, e.L));
	}
	else if(k == "face")
		w = edge(fh, fb, fi, gap);
	else if(k == "roll")
		w = rotation(-roll);
	else
	{
		M6 A{};
		A[0][1] = A[2][3] = 1;
		A[1][0] = -(e.h * e.h + k1);
		A[3][2] = k1;
		A[1][5] = e.h;
		A[4][0] = -e.h;
		w = expm(A, e.L);
	}
	int n = k == "drift" ? g.pick({2, 4, 6}) : g.pick({4, 6});
	RealMatrix R(n, n, g.sym(5));
	if(k == "chromatic")
	{
		// derivative of the map of a quadrupole with momentum at constant field, slopes as coordinates
		RealMatrix T(4, 4, 3.0);
		TransportMatrix::QuadrupoleT(e.L, k1, T);
		M6 d{};
		double s = 1e-4;
		for(int z = -1; z < 2; z += 2)
		{
			M6 A{};
			A[0][1] = A[2][3] = 1;
			A[1][0] = -k1 / (1 + z * s);
			A[3][2] = k1 / (1 + z * s);
			M6 x = expm(A, e.L);
			for(int i = 0; i < 4; ++i)
				for(int j = 0; j < 4; ++j)
					d[i][j] += z * x[i][j] / (2 * s);
		}
		if(e.L == 0 || k1 == 0)
			return;
		for(int i = 0; i < 4; ++i)
			for(int j = 0; j < 4; ++j)
				c.near(T(i, j), d[i][j], 1e-6, 1e-6 * norm(w), "T" + std::to_string(i + 1) + std::to_string(j + 1) + "6");
		return;
	}
	RMap m;
	std::unique_ptr<R2Map> x;
	if(k == "drift")
	{
		TransportMatrix::Drift(e.L, R);
		TransportRMap::Drift(e.L, m);
		x.reset(new R2Map);
		TransportRMap::Drift(e.L, *x);
	}
	else if(k == "quad")
	{
		if(g.b())
			TransportMatrix::Quadrupole(e.L, k1, R);
		else
			TransportMatrix::QuadrupoleR(e.L, k1, R);
		TransportRMap::Quadrupole(e.L, k1, m);
		x.reset(new R2Map);
		TransportRMap::Quadrupole(e.L, k1, *x);
	}
	else if(k == "bend")
	{
		TransportMatrix::SectorBend(e.L, e.h, k1, R);
		TransportRMap::SectorBend(e.L, e.h, k1, m);
	}
	else if(k == "solenoid")
	{
		TransportMatrix::Solenoid(e.L, K0, 0, true, true, R);
		TransportRMap::Solenoid(e.L, K0, 0, true, true, m);
	}
	else if(k == "face")
	{
		TransportMatrix::PoleFaceRot(fh, fb, fi, gap, R);
		TransportRMap::PoleFaceRot(fh, fb, fi, gap, m);
	}
	else
	{
		int how = g.i(0, 1);
		if(n == 4 && how)
			TransportMatrix::SrotR4(roll, R);
		else if(n == 4)
			TransportMatrix::SrotR4(std::cos(roll), std::sin(roll), R);
		else if(how)
			TransportMatrix::Srot(roll, R);
		else
			TransportMatrix::Srot(std::cos(roll), std::sin(roll), R);
		TransportRMap::Srot(roll, m);
	}
	double tol = 1e-11 * std::max(1.0, norm(w));
	if(K0 == 1e-9 && k == "solenoid")
		tol += 1e-9;
	for(int i = 0; i < 6; ++i)
		for(int j = 0; j < 6; ++j)
		{
			std::string el = std::to_string(i + 1) + std::to_string(j + 1);
			if(i < n && j < n)
				c.near(R(i, j), w[i][j], 0, tol, "matrix " + el);
			if(i < 4 || k != "quad")
				c.near(((const RMap&) m)(i + 1, j + 1), w[i][j], 0, tol, "sparse map " + el);
		}
	if(x)
	{
		c.near(x->r11, w[0][0], 0, tol, "one plane 11");
		c.near(x->r12, w[0][1], 0, tol, "one plane 12");
		c.near(x->r21, w[1][0], 0, tol, "one plane 21");
		c.near(x->r22, w[1][1], 0, tol, "one plane 22");
	}
}
