// P33: electromagnetic field objects evaluate the field they describe.
#include "mlib.h"
#include "TWRFStructure.h"
#include "SWRFStructure.h"
#include "TransverseRFStructure.h"
#include "CorrectorDipoles.h"
#include "StandardMultipoles.h"
using namespace ml;
typedef std::complex<double> C;

pbt::Info pbt::info = {"P33",
	"Multipole fields made by every constructor and histories of component, coefficient and scale settings, reads, rotations and "
	"copies, evaluated at points inside and outside of the reference radius; every standard magnet; radio-frequency fields at any "
	"place and time; every magnet tracked forwards and, rotated by 180 degrees, backwards. Non-trivial: the field is not zero.",
	"Fields with |B0| below the library's equality tolerance count as zero. The travelling wave of an accelerating structure cannot be "
	"reversed by RotateY180, its field is compared at its origin only."};

namespace
{
// |a-b| in units of a scale
void nearc(Ctx& c, C a, C b, double tol, const std::string& what)
{
	c.near(a.real(), b.real(), 0, tol, what + " (real part)");
	c.near(a.imag(), b.imag(), 0, tol, what + " (imaginary part)");
}
double facl(int n)
{
	return fact(n);
}
struct Model
{
	double B0 = 0;
	std::vector<C> e;                  // coefficients
	C field(double x, double y, int from, double& scale) const
	{
		C z(x, y), w(1, 0), s(0, 0);
		scale = 0;
		for(size_t n = 0; n < e.size(); ++n)
		{
			if((int) n >= from)
			{
				s += B0 * e[n] * w;
				scale += std::fabs(B0) * std::abs(e[n]) * std::abs(w);
			}
			w *= z;
		}
		return s;
	}
	void set(size_t n, C v)
	{
		if(e.size() <= n)
			e.resize(n + 1);
		e[n] = v;
	}
};
void judge(Ctx& c, const MultipoleField& f, const Model& m, Gen& g)
{
	c.near(f.GetFieldScale(), m.B0, 1e-14, 0, "field scale");
	double r = g.pick({0.01, 0.1, 1.0, 2.0});
	double x = g.coord(r), y = g.coord(r), s;
	c.desc << "[" << x << "," << y << "] ";
	bool null = std::fabs(m.B0) <= 2.3e-16;
	c.eq(f.IsNullField(), null, "null field");
	if(null)
		return;
	int ex = g.i(-1, (int) m.e.size() - 1);
	C ref = m.field(x, y, ex + 1, s);
	nearc(c, f.GetField2D(x, y, ex), ref, 1e-13 * s, "field without terms up to " + std::to_string(ex));
	ref = m.field(x, y, 0, s);
	nearc(c, f.GetField2D(x, y), ref, 1e-13 * s, "field");
	Vector3D B = f.GetBFieldAt(Point3D(x, y, g.sym(2)), g.sym(1));
	c.near(B.x, ref.imag(), 0, 1e-13 * s, "Bx");
	c.near(B.y, ref.real(), 0, 1e-13 * s, "By");
	c.eq(B.z, 0.0, "Bz");
	Vector3D E = f.GetEFieldAt(Point3D(x, y, 0));
	c.check(E.x == 0 && E.y == 0 && E.z == 0, "electric field of a magnet");
	double vx = g.sym(1), vy = g.sym(1), vz = g.sym(1), q = g.sym(2);
	Vector3D F = f.GetForceAt(Point3D(x, y, 0), Vector3D(vx, vy, vz), q);
	c.near(F.x, q * (0 - vz * B.y), 0, 1e-12 * s, "Fx = q (v x B)_x");
	c.near(F.y, q * vz * B.x, 0, 1e-12 * s, "Fy = q (v x B)_y");
	c.near(F.z, q * (vx * B.y - vy * B.x), 0, 1e-12 * s, "Fz = q (v x B)_z");
	// free space: curl and divergence vanish
	double big = std::max(std::fabs(x), std::fabs(y));
	if(big > 1e-30)
	{
		double h = 1e-3 * big;
		C dx = (f.GetField2D(x + h, y) - f.GetField2D(x - h, y)) / (2 * h), dy = (f.GetField2D(x, y + h) - f.GetField2D(x, y - h)) / (2 * h);
		double t, u;
		m.field(std::fabs(x) + 2 * h, std::fabs(y) + 2 * h, 0, t);
		u = 2e-4 * t / big + 1e-12 * t / h;
		c.near(dx.real(), dy.imag(), 0, u, "curl: dBy/dx - dBx/dy");
		c.near(dx.imag(), -dy.real(), 0, u, "divergence: dBx/dx + dBy/dy");
	}
	double rho = g.logu(0.1, 1e4);
	for(int n = 0; n < 7; ++n)
	{
		C v = n < (int) m.e.size() ? m.e[n] : C(0);
		double r0 = g.pick({1.0, 0.01, 0.5, 2.0}), p = std::pow(r0, n);
		nearc(c, f.GetCoefficient(n, r0), v * p, 1e-13 * std::abs(v) * p, "coefficient " + std::to_string(n));
		nearc(c, f.GetComponent(n, r0), m.B0 * v * p, 1e-13 * std::abs(v) * p * std::fabs(m.B0), "component " + std::to_string(n));
		nearc(c, f.GetKn(n, rho), m.B0 / rho * facl(n) * v, 1e-13 * std::fabs(m.B0 / rho) * facl(n) * std::abs(v), "K" + std::to_string(n));
	}
	size_t top = m.e.size();
	c.eq(f.HighestMultipole(), (int) top - 1, "highest multipole, which reads do not change");
	for(size_t n = 0; n < top; ++n)
		if(m.e[n] != C(0))
		{
			c.eq(f.LowestMultipole(), (int) n, "lowest multipole");
			break;
		}
	c.nontrivial(s > 0);
}
double strength(Gen& g)
{
	return g.chance(1, 5) ? g.pick({1.0, -1.0, 0.5, 1e-3}) : g.slogu(1e-6, 1e3);
}
}

LAW(multipole, 150000, 800000, "a multipole field is its polynomial after any history of settings")
{
	Model m;
	std::unique_ptr<MultipoleField> f;
	switch(g.i(0, 3))
	{
	case 0:
	{
		int nt = g.i(0, 4);
		m.B0 = strength(g);
		m.e.resize(nt);
		f.reset(new MultipoleField(m.B0, nt));
		c.desc << "scale " << m.B0 << " terms " << nt << " ";
		break;
	}
	case 1:
	{
		int n = g.i(0, 5);
		double b = strength(g), r0 = g.pick({1.0, 0.01, 0.1, 2.0});
		bool sk = g.b();
		f.reset(new MultipoleField(n, b, r0, sk));
		m.B0 = b / std::pow(r0, n);
		m.set(n, sk ? C(0, 1) : C(1, 0));
		c.desc << "pole " << n << " b=" << b << " r0=" << r0 << (sk ? " skew " : " ");
		break;
	}
	case 2:
	{
		int n = g.i(0, 5);
		double b = strength(g), a = g.chance(1, 3) ? 0 : strength(g), r0 = g.pick({1.0, 0.01, 0.1, 2.0});
		if(g.chance(1, 6))
			b = 0;
		f.reset(new MultipoleField(n, b, a, r0));
		c.desc << "pole " << n << " b=" << b << " a=" << a << " r0=" << r0 << " ";
		double h = std::hypot(b, a);
		m.B0 = h / std::pow(r0, n);
		m.set(n, h == 0 ? C(0) : C(b, a) / h);
		if(h == 0)
		{
			c.check(f->IsNullField() && f->GetField2D(0.1, 0.1) == C(0) && f->GetFieldScale() == 0, "a multipole of no strength");
			nearc(c, f->GetComponent(n), C(0), 0, "component of a multipole of no strength");
			return;
		}
		break;
	}
	default:
	{
		int n = g.i(0, 5);
		double b = strength(g);
		bool sk = g.b();
		f.reset(new MultipoleField(n, b, sk));
		m.B0 = b / facl(n);
		m.set(n, sk ? C(0, 1) : C(1, 0));
		c.desc << "pole " << n << " derivative " << b << (sk ? " skew " : " ");
	}
	}
	judge(c, *f, m, g);
	int ops = g.len(0, 12);
	for(int k = 0; k < ops; ++k)
	{
		int n = g.i(0, 6);
		double r0 = g.pick({1.0, 0.01, 0.5, 2.0}), p = std::pow(r0, n);
		switch(g.i(0, 5))
		{
		case 0:
		{
			double b = g.chance(1, 6) ? 0 : strength(g), a = g.b() ? 0 : strength(g);
			f->SetComponent(n, b, a, r0);
			m.set(n, C(b, a) / (m.B0 * p));
			c.desc << "component " << n << "=" << b << "," << a << " at " << r0 << " ";
			break;
		}
		case 1:
		{
			C v(g.sym(2), g.b() ? 0 : g.sym(2));
			f->SetCoefficient(n, v, r0);
			m.set(n, v / p);
			c.desc << "coefficient " << n << "=" << v.real() << "," << v.imag() << " at " << r0 << " ";
			break;
		}
		case 2:
			m.B0 = strength(g);
			f->SetFieldScale(m.B0);
			c.desc << "scale " << m.B0 << " ";
			break;
		case 3:
			f->RotateY180();
			for(size_t i = 0; i < m.e.size(); ++i)
				m.e[i] = i % 2 ? -std::conj(m.e[i]) : std::conj(m.e[i]);
			c.desc << "rotate ";
			break;
		case 4:
		{
			// a copy is independent
			std::unique_ptr<MultipoleField> old(f.release());
			f.reset(new MultipoleField(*old));
			old->SetFieldScale(17);
			old->SetCoefficient(2, C(3, 4));
			c.desc << "copy ";
			break;
		}
		default:
			judge(c, *f, m, g);
		}
	}
	judge(c, *f, m, g);
}

LAW(rotation, 40000, 400000, "a field rotated by 180 degrees about y is the field seen from behind, and twice is the field")
{
	Model m;
	m.B0 = strength(g);
	int n = g.i(1, 7);
	MultipoleField f(m.B0, n);
	for(int i = 0; i < n; ++i)
	{
		C v(g.coord(1), g.coord(1));
		f.SetCoefficient(i, v);
		m.set(i, v);
	}
	MultipoleField r(f);
	r.RotateY180();
	double x = g.coord(1), y = g.coord(1), s;
	m.field(x, y, 0, s);
	C a = f.GetField2D(-x, y), b = r.GetField2D(x, y);
	c.desc << n << " terms at " << x << "," << y;
	c.near(b.real(), a.real(), 0, 1e-13 * s, "By");
	c.near(b.imag(), -a.imag(), 0, 1e-13 * s, "Bx");
	r.RotateY180();
	nearc(c, r.GetField2D(x, y), f.GetField2D(x, y), 1e-14 * s, "twice rotated");
	// linear in the scale
	double k = strength(g);
	MultipoleField t(f);
	t.SetFieldScale(k * m.B0);
	nearc(c, t.GetField2D(x, y), k * f.GetField2D(x, y), 1e-13 * s * std::fabs(k), "scaled field");
	c.nontrivial(s > 0);
}

LAW(magnets, 40000, 400000, "every standard magnet is made with the pole number, orientation, length and strength asked for, and copies are independent")
{
	int kind = g.i(0, 9);
	double L = g.chance(1, 5) ? 0 : g.real(0.01, 5), b = strength(g), r0 = g.pick({1.0, 0.01, 0.05, 0.5});
	bool byR = g.b();
	static const int pole[] = {1, 1, 2, 2, 3, 4, 0, 0};
	static const bool skew[] = {false, true, false, true, false, false, false, true};
	std::unique_ptr<AcceleratorComponent> a;
	RectMultipole* m = nullptr;
	switch(kind)
	{
	case 0:
		a.reset(m = byR ? new Quadrupole("m", L, b, r0) : new Quadrupole("m", L, b));
		break;
	case 1:
		a.reset(m = byR ? new SkewQuadrupole("m", L, b, r0) : new SkewQuadrupole("m", L, b));
		break;
	case 2:
		a.reset(m = byR ? new Sextupole("m", L, b, r0) : new Sextupole("m", L, b));
		break;
	case 3:
		a.reset(m = byR ? new SkewSextupole("m", L, b, r0) : new SkewSextupole("m", L, b));
		break;
	case 4:
		a.reset(m = byR ? new Octupole("m", L, b, r0) : new Octupole("m", L, b));
		break;
	case 5:
		a.reset(m = byR ? new Decapole("m", L, b, r0) : new Decapole("m", L, b));
		break;
	case 6:
		a.reset(m = new XCor("m", L, b));
		byR = false;
		break;
	case 7:
		a.reset(m = new YCor("m", L, b));
		byR = false;
		break;
	}
	static const char* type[] = {"Quadrupole", "SkewQuadrupole", "Sextupole", "SkewSextupole", "Octupole", "Decapole", "XCor", "YCor"};
	double x = g.coord(0.1), y = g.coord(0.1);
	Point3D p(x, y, g.sym(1));
	if(m)
	{
		int n = pole[kind];
		c.desc << type[kind] << " L=" << L << " b=" << b << (byR ? " at radius" : "");
		C z = std::pow(C(x, y), n);
		if(n == 0)
			z = 1;
		double k = byR ? b / std::pow(r0, n) : b / facl(n);
		C B = k * z * (skew[kind] ? C(0, 1) : C(1, 0));
		c.eq(m->GetPrimaryPoleNo(), n, "primary pole number");
		c.eq(std::string(a->GetType()), std::string(type[kind]), "type");
		c.near(m->GetLength(), L, 0, 0, "length");
		auto at = [&](AcceleratorComponent* o, C ref, const std::string& what)
			{
				const EMField* f = o->GetEMField();
				c.check(f != nullptr, what + ": no field");
				Vector3D v = f->GetBFieldAt(p);
				double t = 1e-13 * std::abs(ref);
				c.near(v.x, ref.imag(), 0, t, what + " Bx");
				c.near(v.y, ref.real(), 0, t, what + " By");
				c.eq(v.z, 0.0, what + " Bz");
			};
		at(m, B, "field");
		std::unique_ptr<RectMultipole> cp(dynamic_cast<RectMultipole*>(m->Copy()));
		c.check(cp != nullptr, "copy of a magnet");
		c.eq(cp->GetPrimaryPoleNo(), n, "primary pole number of a copy");
		at(cp.get(), B, "field of the copy");
		double s2 = strength(g);
		cp->SetFieldStrength(s2);
		at(m, B, "field after the copy was changed");
		at(cp.get(), s2 * z * (skew[kind] ? C(0, 1) : C(1, 0)), "field of the changed copy");
		c.near(cp->GetFieldStrength(), s2, 0, 0, "strength of the copy");
		c.near(m->GetFieldStrength(), k, 1e-14, 0, "strength");
		cp->RotateY180();
		cp->RotateY180();
		at(cp.get(), s2 * z * (skew[kind] ? C(0, 1) : C(1, 0)), "field of the twice rotated copy");
	}
	else if(kind == 8)
	{
		Solenoid s("s", L + 0.1, b);
		Vector3D B = s.GetEMField()->GetBFieldAt(p), E = s.GetEMField()->GetEFieldAt(p);
		c.check(B.x == 0 && B.y == 0 && B.z == b && s.GetBz() == b && s.GetFieldStrength() == b, "solenoid field");
		c.check(E.x == 0 && E.y == 0 && E.z == 0, "electric field of a solenoid");
		double vx = g.sym(1), vy = g.sym(1), vz = g.sym(1), q = g.sym(2);
		Vector3D F = s.GetEMField()->GetForceAt(p, Vector3D(vx, vy, vz), q);
		c.near(F.x, q * vy * b, 1e-13, 0, "Fx");
		c.near(F.y, -q * vx * b, 1e-13, 0, "Fy");
		c.near(F.z, 0, 0, 0, "Fz");
		std::unique_ptr<Solenoid> cp(static_cast<Solenoid*>(s.Copy()));
		cp->RotateY180();
		c.check(cp->GetBz() == -b && s.GetBz() == b, "copied and rotated solenoid");
	}
	else
	{
		double h = g.slogu(1e-3, 1), b1 = strength(g);
		SectorBend s("b", L + 0.1, h, b);
		s.SetB1(b1);
		Vector3D B = s.GetEMField()->GetBFieldAt(p);
		double t = 1e-13 * (std::fabs(b) + std::fabs(b1));
		c.near(B.y, b + b1 * x, 0, t, "By of a bend with gradient");
		c.near(B.x, b1 * y, 0, t, "Bx of a bend with gradient");
		c.near(s.GetB0(), b, 0, 0, "B0");
		c.near(s.GetB1(), b1, 1e-14, 0, "B1");
		double q = charge(g);
		c.near(s.GetMatchedMomentum(q), b * CLIGHT * 1e-9 / h / q, 1e-13, 0, "matched momentum");
	}
	c.nontrivial();
}

LAW(rf, 40000, 400000, "radio-frequency fields follow their wave, travel at the speed of light and are related to their parameters")
{
	double f = g.logu(1e8, 3e10), E0 = strength(g), phi = g.chance(1, 4) ? g.pick({0.0, pi / 2, pi}) : g.sym(4);
	double k = twoPi * f / CLIGHT, w = twoPi * f, th = g.chance(1, 4) ? g.pick({0.0, pi / 2, pi}) : g.sym(4);
	int kind = g.i(0, 2);
	std::unique_ptr<RFStructure> s;
	double z = g.coord(2), t = g.coord(3) / w;
	Point3D p(g.sym(0.01), g.sym(0.01), z);
	double L = 1;
	if(kind == 0)
		s.reset(new TWRFStructure("s", L, f, E0, phi));
	else if(kind == 1)
		s.reset(new SWRFStructure("s", 1 + g.i(0, 4), f, E0, phi));
	else
		s.reset(new TransverseRFStructure("s", L, f, E0, phi, th));
	c.desc << (kind == 0 ? "travelling" : kind == 1 ? "standing" : "transverse") << " f=" << f << " E0=" << E0 << " phi=" << phi << " theta="
		   << th << " z=" << z << " t=" << t;
	double tol = std::fabs(E0) * (1e-11 + 1e-13 * (k * std::fabs(z) + w * std::fabs(t)));
	auto field = [&](double zz, double tt, double a, double ph, double theta)
		{
			double e = kind == 1 ? a * std::cos(k * zz) * std::cos(w * tt + ph) : a * std::cos(k * zz - w * tt + ph);
			return kind == 2 ? V6{e * std::cos(theta), e * std::sin(theta), 0, 0, 0, 0} : V6{0, 0, e, 0, 0, 0};
		};
	auto judge = [&](RFStructure* o, const V6& r, double zz, double tt, const std::string& what)
		{
			const EMField* m = o->GetEMField();
			Point3D pp(p.x, p.y, zz);
			Vector3D E = m->GetEFieldAt(pp, tt), B = m->GetBFieldAt(pp, tt);
			c.near(E.x, r[0], 0, tol, what + " Ex");
			c.near(E.y, r[1], 0, tol, what + " Ey");
			c.near(E.z, r[2], 0, tol, what + " Ez");
			c.check(B.x == 0 && B.y == 0 && B.z == 0, what + " magnetic field");
			double q = g.sym(2);
			Vector3D F = m->GetForceAt(pp, Vector3D(g.sym(1), g.sym(1), g.sym(1)), q, tt);
			c.near(F.x, q * E.x, 0, tol, what + " Fx");
			c.near(F.y, q * E.y, 0, tol, what + " Fy");
			c.near(F.z, q * E.z, 0, tol, what + " Fz");
		};
	judge(s.get(), field(z, t, E0, phi, th), z, t, "field");
	std::unique_ptr<RFStructure> cp(dynamic_cast<RFStructure*>(s->Copy()));
	c.check(cp != nullptr, "copy of a structure");
	double E2 = strength(g), phi2 = g.sym(3);
	cp->SetAmplitude(E2);
	cp->SetPhase(phi2);
	tol = (std::fabs(E0) + std::fabs(E2)) * (1e-11 + 1e-13 * (k * std::fabs(z) + w * std::fabs(t)));
	judge(s.get(), field(z, t, E0, phi, th), z, t, "field after the copy was changed");
	judge(cp.get(), field(z, t, E2, phi2, th), z, t, "field of the copy");
	// seen from behind: x and z reversed
	double zr = kind == 1 ? z : 0;
	Vector3D a = s->GetEMField()->GetEFieldAt(Point3D(-p.x, p.y, -zr), t);
	s->RotateY180();
	judge(s.get(), V6{-a.x, a.y, -a.z, 0, 0, 0}, zr, t, "rotated field");
	s->RotateY180();
	judge(s.get(), field(z, t, E0, phi, th), z, t, "twice rotated field");
	c.nontrivial();
}

LAW(reverse, 200000, 600000,
	"a magnet rotated by 180 degrees about y takes a particle of opposite charge back the way it came (time reversal)")
{
	Set set = g.pick({TRANSPORT_SET, THIN_SET, SYMP_SET});
	double P0 = beam_momentum(g), q = charge(g);
	std::string kind = g.pick({"quad", "bend", "sext", "skewquad", "skewsext", "oct", "xcor", "ycor", "solenoid", "drift", "bpm", "bend"});
	ElOpts o;
	o.maxang = 0.2;
	std::unique_ptr<El> e = element(g, P0, q, kind, o);
	double amp = 1e-5;
	V6 v{g.coord(amp), g.coord(amp), g.coord(amp), g.coord(amp), g.coord(amp), g.coord(amp)};
	c.desc << setname(set) << " P0=" << P0 << " q=" << q << " " << e->text() << " " << str(v);
	V6 w = track1(set, *e->c, P0, q, v);
	e->c->RotateY180();
	// x and the slope in y change sign; the slope in x is reversed twice; the time runs backwards
	V6 b{-w[0], w[1], w[2], -w[3], -w[4], w[5]};
	V6 r = track1(set, *e->c, P0, -q, b);
	V6 x{-r[0], r[1], r[2], -r[3], -r[4], r[5]};
	double s = amp;
	for(int i = 0; i < 4; ++i)
		s = std::max(s, std::fabs(w[i]));
	// the second-order maps are reversible up to third order
	double f = 1, k = 0;
	for(size_t n = 2; n < e->B.size(); ++n)
		k += std::abs(e->B[n]) * per_brho(P0) * std::pow(s, n - 1) * e->L;
	double tol = 2e-4 * s * f + 10 * k * k * s * (1 + e->L) + 1e-13;
	static const char* nm[] = {"x", "x'", "y", "y'", "ct", "dp"};
	for(int i : {0, 1, 2, 3, 5})
		c.near(x[i], v[i], 0, tol * (1 + e->L), std::string("returned ") + nm[i]);
	c.nontrivial(kind != "drift");
	c.label(e->face1, "pole faces");
	c.label(e->tilt != 0, "tilt");
}
