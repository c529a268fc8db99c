// P05: spatial transformations obey the group laws and arc geometry is consistent.
#include "geo.h"
#include "Rotation3D.h"
#include "Transform2D.h"
#include "ArcGeometry.h"
#include "RectangularGeometry.h"
#include "GeometryPatch.h"
#include "SequenceFrame.h"
#include "ComponentFrame.h"
#include "TComponentFrame.h"
#include "PSvectorTransform3D.h"
#include "Components.h"
#include <memory>
using namespace geo;

pbt::Info pbt::info = {"P05",
	"Products of up to 8 rotations about the axes and translations (with inverses, half turns, zero and very small angles), "
	"arcs and straights of any curvature, tilt and length, and nested sequences of frames with every kind of origin; random "
	"points, vectors and particles. Non-trivial: at least two factors (or frames) that are not the identity.",
	"Angles are in [-2 pi, 2 pi], translations in [-10, 10] m, particles in the paraxial acceptance."};

namespace
{
double angle(pbt::Gen& g)
{
	switch(g.raw(7))
	{
	case 0:
		return 0;
	case 1:
		return M_PI_2 * g.i(-4, 4);
	case 2:
		return g.slogu(1e-12, 1e-3);
	default:
		return g.sym(2 * M_PI);
	}
}
double dist(pbt::Gen& g)
{
	switch(g.raw(4))
	{
	case 0:
		return 0;
	case 1:
		return g.slogu(1e-9, 1);
	default:
		return g.sym(10);
	}
}
struct Both
{
	Rotation3D r;
	M3 m = unit();
	bool isId = true;
};
Both basic(pbt::Gen& g, pbt::Ctx& c)
{
	Both b;
	int ax = g.i(-1, 2);
	if(ax < 0)
	{
		c.desc << "I ";
		return b;
	}
	double a = angle(g);
	c.desc << "XYZ"[ax] << "(" << a << ") ";
	b.r = ax == 0 ? Rotation3D::rotationX(a) : ax == 1 ? Rotation3D::rotationY(a) : Rotation3D::rotationZ(a);
	b.m = rot(ax, a);
	b.isId = a == 0;
	return b;
}
Both rotation(pbt::Gen& g, pbt::Ctx& c, int maxn = 4)
{
	Both b = basic(g, c);
	for(int n = g.i(0, maxn); n > 0; --n)
	{
		Both x = basic(g, c);
		if(g.chance(1, 5))
		{
			x.r = x.r.inv();
			x.m = tr(x.m);
			c.desc << "^-1 ";
		}
		b.r = b.r * x.r;
		b.m = mul(b.m, x.m);
	}
	return b;
}
double offdiag(const M3& m)
{
	double w = 0;
	for(int i = 0; i < 3; ++i)
		for(int j = 0; j < 3; ++j)
			w = std::max(w, std::fabs(m.a[i][j] - (i == j)));
	return w;
}
void cmp(pbt::Ctx& c, const Rotation3D& r, const M3& m, const std::string& what)
{
	TLAS::RealMatrix a;
	r.getMatrix(a);
	for(int i = 0; i < 3; ++i)
		for(int j = 0; j < 3; ++j)
			c.near(a(i, j), m.a[i][j], 0, 2e-14, what + " element " + std::to_string(i) + std::to_string(j));
	// reported kinds are true; the resolution of small angles is that of the sine
	if(r.isIdentity())
		c.near(offdiag(m), 0, 0, 3e-15, what + ": reported as identity");
	if(r.isXrot() && r.type() == xrot)
		c.check(std::fabs(m.a[1][0]) < 1e-14 && std::fabs(m.a[2][0]) < 1e-14, what + ": reported as x rotation");
	if(r.isYrot() && r.type() == yrot)
		c.check(std::fabs(m.a[1][0]) < 1e-14 && std::fabs(m.a[1][2]) < 1e-14, what + ": reported as y rotation");
	if(r.isZrot() && r.type() == zrot)
		c.check(std::fabs(m.a[2][0]) < 1e-14 && std::fabs(m.a[2][1]) < 1e-14, what + ": reported as z rotation");
	c.eq(r.type() == ident, r.isIdentity() && r.type() == ident, what + ": type");
}
void cmpv(pbt::Ctx& c, double x, double y, double z, const V3& v, double tol, const std::string& what)
{
	c.near(x, v[0], 0, tol, what + " x");
	c.near(y, v[1], 0, tol, what + " y");
	c.near(z, v[2], 0, tol, what + " z");
}
}

LAW(rotations, 60000, 800000, "rotations act, compose, invert and describe themselves like the rotation matrices")
{
	Both a = rotation(g, c);
	c.desc << "| ";
	Both b = rotation(g, c);
	c.desc << "| ";
	Both d = rotation(g, c, 1);
	c.nontrivial(offdiag(a.m) > 1e-9 && offdiag(b.m) > 1e-9);
	cmp(c, a.r, a.m, "rotation");
	cmp(c, a.r * b.r, mul(a.m, b.m), "product");
	cmp(c, (a.r * b.r) * d.r, mul(mul(a.m, b.m), d.m), "product of three, left");
	cmp(c, a.r * (b.r * d.r), mul(mul(a.m, b.m), d.m), "product of three, right");
	cmp(c, a.r.inv(), tr(a.m), "inverse");
	cmp(c, a.r.inv() * a.r, unit(), "inverse product");
	cmp(c, a.r * a.r.inv(), unit(), "product with inverse");
	cmp(c, Rotation3D::identity() * a.r, a.m, "identity product");
	cmp(c, a.r * Rotation3D(), a.m, "product with identity");
	V3 v{dist(g), dist(g), dist(g)};
	Point3D p(v[0], v[1], v[2]);
	Vector3D w(v[0], v[1], v[2]);
	V3 e = mul(a.m, v);
	double tol = 1e-13 * (1 + std::fabs(v[0]) + std::fabs(v[1]) + std::fabs(v[2]));
	Point3D q = a.r(p), q2 = a.r * p;
	Vector3D u = a.r(w), u2 = a.r * w;
	cmpv(c, q.x, q.y, q.z, e, tol, "rotated point");
	cmpv(c, q2.x, q2.y, q2.z, e, tol, "rotated point (product)");
	cmpv(c, u.x, u.y, u.z, e, tol, "rotated vector");
	cmpv(c, u2.x, u2.y, u2.z, e, tol, "rotated vector (product)");
	c.near(u.dot(u), w.dot(w), 1e-13, 0, "length");
	// the same rotation seen after turning the axes by pi
	M3 X = rot(0, M_PI), Y = rot(1, M_PI), Z = rot(2, M_PI);
	cmp(c, a.r.rotXbyPI(), mul(mul(X, a.m), X), "turned about x");
	cmp(c, a.r.rotYbyPI(), mul(mul(Y, a.m), Y), "turned about y");
	cmp(c, a.r.rotZbyPI(), mul(mul(Z, a.m), Z), "turned about z");
	// copies are independent of the original
	Rotation3D s(a.r), t;
	t = a.r;
	a.r = b.r;
	cmp(c, s, a.m, "copy");
	cmp(c, t, a.m, "assigned");
	s = s;
	cmp(c, s, a.m, "self assigned");
	cmp(c, a.r, b.m, "overwritten");
}

LAW(repeated, 5000, 60000, "many small rotations about one axis add up")
{
	int ax = g.i(0, 2), n = g.i(1, 60);
	double a = g.slogu(1e-10, 1e-2), sum = 0;
	Transform3D t;
	Rotation3D r;
	for(int i = 0; i < n; ++i)
	{
		double x = g.chance(1, 3) ? a * g.unit() : a;
		Rotation3D s = ax == 0 ? Rotation3D::rotationX(x) : ax == 1 ? Rotation3D::rotationY(x) : Rotation3D::rotationZ(x);
		r = r * s;
		t *= ax == 0 ? Transform3D::rotationX(x) : ax == 1 ? Transform3D::rotationY(x) : Transform3D::rotationZ(x);
		sum += x;
	}
	c.desc << "axis " << ax << " n=" << n << " a=" << a;
	c.nontrivial(n > 1);
	M3 m = rot(ax, sum);
	TLAS::RealMatrix a1, a2;
	r.getMatrix(a1);
	t.R().getMatrix(a2);
	for(int i = 0; i < 3; ++i)
		for(int j = 0; j < 3; ++j)
		{
			c.near(a1(i, j), m.a[i][j], 1e-10, 1e-14, "rotation");
			c.near(a2(i, j), m.a[i][j], 1e-10, 1e-14, "transform");
		}
	c.check(!r.isIdentity() && !t.isIdentity(), "reported as identity");
}

namespace
{
struct BothT
{
	Transform3D t;
	Frame f;
};
BothT transform(pbt::Gen& g, pbt::Ctx& c, int maxn = 5)
{
	BothT b;
	for(int n = g.i(0, maxn); n > 0; --n)
	{
		BothT x;
		if(g.b())
		{
			double dx = dist(g), dy = dist(g), dz = dist(g);
			x.t = Transform3D::translation(dx, dy, dz);
			x.f = shift(dx, dy, dz);
			c.desc << "T(" << dx << "," << dy << "," << dz << ") ";
		}
		else
		{
			int ax = g.i(0, 2);
			double a = angle(g);
			x.t = ax == 0 ? Transform3D::rotationX(a) : ax == 1 ? Transform3D::rotationY(a) : Transform3D::rotationZ(a);
			x.f = turn(ax, a);
			c.desc << "XYZ"[ax] << "(" << a << ") ";
		}
		if(g.chance(1, 5))
		{
			x.t = x.t.inv();
			x.f = inverse(x.f);
			c.desc << "^-1 ";
		}
		switch(g.raw(2))
		{
		case 0:
			b.t *= x.t;      // then x
			b.f = then(b.f, x.f);
			break;
		case 1:
			b.t = x.t * b.t;
			b.f = then(b.f, x.f);
			break;
		default:
			b.t = b.t * x.t;
			b.f = then(x.f, b.f);
		}
	}
	return b;
}
}

LAW(transforms, 40000, 600000, "rigid transformations act, compose and invert like the reference frames")
{
	BothT a = transform(g, c);
	c.desc << "| ";
	BothT b = transform(g, c, 3);
	c.desc << "| ";
	BothT d = transform(g, c, 2);
	c.nontrivial(offdiag(a.f.R) > 1e-9 && offdiag(b.f.R) > 1e-9 && a.f.o[0] != 0);
	compare(c, a.t, a.f, 1e-13, "transformation");
	compare(c, a.t.inv(), inverse(a.f), 1e-13, "inverse");
	Transform3D inv(a.t);
	inv.invert();
	compare(c, inv, inverse(a.f), 1e-13, "inverted in place");
	compare(c, a.t.inv() * a.t, Frame(), 1e-12, "inverse product");
	compare(c, a.t * a.t.inv(), Frame(), 1e-12, "product with inverse");
	compare(c, b.t * a.t, then(a.f, b.f), 1e-12, "product");
	compare(c, d.t * (b.t * a.t), then(then(a.f, b.f), d.f), 1e-12, "product of three, right");
	compare(c, (d.t * b.t) * a.t, then(then(a.f, b.f), d.f), 1e-12, "product of three, left");
	compare(c, Transform3D(a.t.X(), a.t.R()), a.f, 1e-13, "constructed from parts");
	if(a.t.isIdentity())
		compare(c, a.t, Frame(), 3e-15, "reported as identity");
	compare(c, Transform3D() * a.t, a.f, 1e-13, "identity product");
	c.check(Transform3D().isIdentity(), "default transformation is the identity");
	V3 v{dist(g), dist(g), dist(g)};
	Point3D p(v[0], v[1], v[2]);
	Vector3D w(v[0], v[1], v[2]);
	V3 e = a.f(v), ev = mul(a.f.R, v);
	double tol = 1e-12 * (10 + std::fabs(v[0]) + std::fabs(v[1]) + std::fabs(v[2]) + std::fabs(a.f.o[0]) + std::fabs(a.f.o[1]) + std::fabs(a.f.o[2]));
	Point3D q = a.t(p), q2 = a.t * p;
	Vector3D u = a.t(w), u2 = a.t * w;
	cmpv(c, q.x, q.y, q.z, e, tol, "point");
	cmpv(c, q2.x, q2.y, q2.z, e, tol, "point (product)");
	cmpv(c, u.x, u.y, u.z, ev, tol, "vector");
	cmpv(c, u2.x, u2.y, u2.z, ev, tol, "vector (product)");
	// axes turned by pi
	Frame H[3] = {turn(0, M_PI), turn(1, M_PI), turn(2, M_PI)};
	for(int k = 0; k < 3; ++k)
	{
		Transform3D t(a.t);
		if(k == 0)
			t.rotXbyPI();
		else if(k == 1)
			t.rotYbyPI();
		else
			t.rotZbyPI();
		compare(c, t, then(then(H[k], a.f), H[k]), 1e-12, "turned by pi about axis " + std::to_string(k));
	}
}

LAW(particles, 40000, 600000, "particles are transformed like the straight lines that they are, and transformations of particles compose")
{
	auto small = [&](BothT& b)
		{
			for(int n = g.i(0, 4); n > 0; --n)
			{
				Transform3D t;
				Frame f;
				if(g.b())
				{
					double dx = g.coord(1e-2), dy = g.coord(1e-2), dz = g.chance(1, 2) ? 0 : g.sym(5);
					t = Transform3D::translation(dx, dy, dz);
					f = shift(dx, dy, dz);
					c.desc << "T(" << dx << "," << dy << "," << dz << ") ";
				}
				else
				{
					int ax = g.i(0, 2);
					double a = ax == 2 ? angle(g) : g.chance(1, 4) ? g.slogu(1e-10, 0.1) : g.sym(0.5);
					t = ax == 0 ? Transform3D::rotationX(a) : ax == 1 ? Transform3D::rotationY(a) : Transform3D::rotationZ(a);
					f = turn(ax, a);
					c.desc << "XYZ"[ax] << "(" << a << ") ";
				}
				b.t *= t;
				b.f = then(b.f, f);
			}
		};
	BothT a, b;
	small(a);
	c.desc << "| ";
	small(b);
	Ray r{g.coord(1e-2), g.coord(1e-2), g.coord(1e-2), g.coord(1e-2)};
	PSvector p(0);
	p.x() = r.x, p.xp() = r.xp, p.y() = r.y, p.yp() = r.yp;
	p.ct() = g.sym(1e-3), p.dp() = g.sym(1e-3);
	p.id() = 17;
	V3 d = mul(a.f.R, V3{r.xp, r.yp, 1}), d2 = mul(then(a.f, b.f).R, V3{r.xp, r.yp, 1});
	if(d[2] < 0.3 || d2[2] < 0.3)
		c.discard();
	c.desc << " (" << r.x << "," << r.xp << "," << r.y << "," << r.yp << ")";
	c.nontrivial(offdiag(a.f.R) > 1e-9 && offdiag(b.f.R) > 1e-9);
	PSvector q(p), s(p);
	PSvectorTransform3D(a.t).Apply(q);
	Ray e = see(a.f, r);
	auto cmpr = [&](const PSvector& v, const Ray& x, const std::string& what)
		{
			double tol = 1e-12 * (1 + std::fabs(x.x) + std::fabs(x.y) + std::fabs(x.xp) + std::fabs(x.yp)) * 10;
			c.near(v.x(), x.x, 0, tol, what + " x");
			c.near(v.xp(), x.xp, 0, tol, what + " xp");
			c.near(v.y(), x.y, 0, tol, what + " y");
			c.near(v.yp(), x.yp, 0, tol, what + " yp");
			c.same(v.dp(), p.dp(), what + " dp");
			c.eq(v.id(), p.id(), what + " id");
		};
	cmpr(q, e, "particle");
	PSvectorArray arr(3, p);
	PSvectorTransform3D(a.t).Apply(arr);
	for(auto& x : arr)
		cmpr(x, e, "particle of an array");
	PSvectorTransform3D(b.t)(q);
	PSvectorTransform3D(b.t * a.t).Apply(s);
	Ray e2 = see(then(a.f, b.f), r);
	cmpr(q, e2, "particle after two transformations");
	cmpr(s, e2, "particle after their product");
	PSvector back(s);
	PSvectorTransform3D((b.t * a.t).inv()).Apply(back);
	cmpr(back, r, "particle after product and inverse");
}

LAW(plane, 20000, 200000, "transformations of the plane form a group that acts on points and vectors")
{
	Transform2D t, id;
	std::vector<Transform2D> parts;
	for(int n = g.i(1, 5); n > 0; --n)
	{
		double dx = dist(g), dy = dist(g), a = angle(g);
		parts.push_back(Transform2D(dx, dy, a));
		c.desc << "(" << dx << "," << dy << "," << a << ") ";
	}
	c.nontrivial(parts.size() > 1);
	Point2D p(dist(g), dist(g)), q(p);
	Vector2D v(dist(g), dist(g)), w(v);
	double sum = 0;
	for(auto& x : parts)
	{
		t *= x;
		q = x(q);
		w = x(w);
		sum += x.rotationAngle();
	}
	c.near(t(p).x, q.x, 1e-11, 1e-11, "x of a point after the product");
	c.near(t(p).y, q.y, 1e-11, 1e-11, "y of a point after the product");
	c.near(t(v).x, w.x, 1e-11, 1e-11, "x of a vector after the product");
	c.near(t(v).y, w.y, 1e-11, 1e-11, "y of a vector after the product");
	c.near(v.dot(v), w.dot(w), 1e-12, 0, "length of a vector");
	c.near(std::cos(t.rotationAngle()), std::cos(sum), 0, 1e-12, "rotation angle");
	c.near(std::sin(t.rotationAngle()), std::sin(sum), 0, 1e-12, "rotation angle");
	Point2D b = t.inv()(t(p));
	c.near(b.x, p.x, 1e-11, 1e-10, "x after the inverse");
	c.near(b.y, p.y, 1e-11, 1e-10, "y after the inverse");
	if(t.isIdentity() || t.rotation().isIdentity())
		c.near(std::cos(t.rotationAngle()), 1, 0, 1e-12, "reported as identity");
	c.check(id.isIdentity(), "default transformation is the identity");
	// text
	std::stringstream s;
	s.precision(17);
	s << parts[0];
	Transform2D u;
	s >> u;
	c.near(u.translation().x, parts[0].translation().x, 1e-14, 0, "written and read x");
	c.near(u.translation().y, parts[0].translation().y, 1e-14, 0, "written and read y");
	c.near(u.sinphi(), parts[0].sinphi(), 1e-14, 0, "written and read sine");
	c.near(u.cosphi(), parts[0].cosphi(), 1e-14, 0, "written and read cosine");
}

namespace
{
bool beyond(const std::function<void ()>& f)
{
	try
	{
		f();
	}
	catch(AcceleratorGeometry::BeyondExtent&)
	{
		return true;
	}
	return false;
}
}

LAW(arcs, 40000, 500000, "arcs and straights: frames along them are those of the circle and path independent")
{
	double L = g.chance(1, 8) ? 0 : g.b() ? g.real(0.01, 10) : g.logu(1e-3, 100);
	bool straight = g.chance(1, 5);
	double h = straight ? 0 : g.chance(1, 8) ? 0 : g.slogu(1e-9, 2) / std::max(L, 0.1);
	double tilt = straight || g.chance(2, 3) ? 0 : g.coord(1.6);
	std::unique_ptr<AcceleratorGeometry> a;
	if(straight)
		a.reset(new RectangularGeometry(L));
	else
	{
		ArcGeometry* ag = new ArcGeometry(L, g.b() ? h : 0.1);
		a.reset(ag);
		ag->SetCurvature(h);
		ag->SetTilt(tilt);
		c.same(ag->GetCurvature(), h, "curvature");
		c.near(ag->GetAngle(), h * L, 1e-14, 0, "angle");
		c.same(ag->GetTilt(), tilt, "tilt");
	}
	auto pos = [&]()
		{
			switch(g.raw(4))
			{
			case 0:
				return -L / 2;
			case 1:
				return L / 2;
			case 2:
				return 0.0;
			default:
				return L * (g.unit() - 0.5);
			}
		};
	double s0 = pos(), s1 = pos(), s2 = pos();
	c.desc << "L=" << L << " h=" << h << " tilt=" << tilt << " " << s0 << " " << s1 << " " << s2;
	c.label(straight ? "straight" : h == 0 ? "arc without curvature" : tilt ? "tilted arc" : "arc");
	c.nontrivial(L > 0 && s0 != s1 && s1 != s2);
	c.same(a->GetGeometryLength(), L, "length");
	c.near(a->GetGeometryExtent().first, -L / 2, 1e-15, 0, "extent");
	c.near(a->GetGeometryExtent().second, L / 2, 1e-15, 0, "extent");
	auto ref = [&](double x, double y)
		{
			return arc(y - x, h, tilt);
		};
	double tol = 1e-11;
	compare(c, a->GetGeometryTransform(s0, s1), ref(s0, s1), tol, "from s0 to s1");
	compare(c, a->GetGeometryTransform(s1), ref(0, s1), tol, "from the origin to s1");
	compare(c, a->GetGeometryTransform(s1, s2) * a->GetGeometryTransform(s0, s1), ref(s0, s2), tol, "from s0 to s1 to s2");
	compare(c, a->GetGeometryTransform(s1, s0).inv(), ref(s0, s1), tol, "inverse of the way back");
	compare(c, a->GetGeometryTransform(s1, s1), Frame(), 1e-15, "from s1 to s1");
	compare(c, a->GetTotalGeometryTransform(), ref(0, L), tol, "total");
	compare(c, a->GetGeometryTransform(AcceleratorGeometry::entrance), ref(0, -L / 2), tol, "to the entrance");
	compare(c, a->GetGeometryTransform(AcceleratorGeometry::exit), ref(0, L / 2), tol, "to the exit");
	double out = (L / 2 + g.logu(1e-6, 10)) * (g.b() ? 1 : -1);
	c.check(beyond([&]()
		{
			a->GetGeometryTransform(s0, out);
		}), "beyond the end");
	c.check(beyond([&]()
		{
			a->GetGeometryTransform(out, s0);
		}), "start beyond the end");
}

namespace
{
struct Piece
{
	double L, h, tilt;
	Frame patch;
	bool isPatch = false;
};
struct Seq
{
	std::vector<Piece> p;
	double L() const
	{
		double s = 0;
		for(auto& x : p)
			s += x.L;
		return s;
	}
	// frame at distance s from the entrance (patches at s are passed if after is true)
	Frame at(double s) const
	{
		Frame f;
		for(auto& x : p)
		{
			double d = std::min(s, x.L);
			f = then(f, arc(d, x.h, x.tilt));
			s -= d;
			if(s <= 0)
				break;
		}
		return f;
	}
};
// frames own what they contain only through the model, so the test keeps everything here
struct Store
{
	std::vector<std::unique_ptr<LatticeFrame> > frames;
	std::vector<std::unique_ptr<AcceleratorComponent> > comps;
};
SequenceFrame* sequence(pbt::Gen& g, pbt::Ctx& c, Seq& s, Store& st, int depth)
{
	int om = g.i(0, 2);
	SequenceFrame* f = new SequenceFrame("F", (SequenceFrame::Origin) om);
	st.frames.emplace_back(f);
	c.desc << "[" << "ecx"[om] << " ";
	int n = g.i(1, 4);
	for(int i = 0; i < n; ++i)
	{
		if(depth > 0 && g.chance(1, 4))
		{
			f->AppendFrame(*sequence(g, c, s, st, depth - 1));
			continue;
		}
		Piece p{g.chance(1, 6) ? 0 : g.b() ? g.i(1, 4) * 0.1 : g.real(0.05, 3), 0, 0, Frame()};
		if(g.b())
		{
			p.h = g.slogu(1e-3, 1);
			if(g.chance(1, 4))
				p.tilt = g.coord(1.5);
			SectorBend* b = new SectorBend("B", p.L, p.h, 1);
			b->GetGeometry().SetTilt(p.tilt);
			st.comps.emplace_back(b);
		}
		else
			st.comps.emplace_back(new Drift("D", p.L));
		ComponentFrame* cf = new ComponentFrame(*st.comps.back());
		st.frames.emplace_back(cf);
		f->AppendFrame(*cf);
		s.p.push_back(p);
		c.desc << "L=" << p.L << " h=" << p.h << " t=" << p.tilt << "; ";
	}
	c.desc << "] ";
	return f;
}
}

LAW(sequences, 40000, 500000, "nested sequences of frames: geometry is path independent and that of the concatenated parts")
{
	Seq s;
	Store st;
	SequenceFrame* f = sequence(g, c, s, st, 2);
	f->ConsolidateConstruction();
	double L = s.L();
	if(L == 0)
		c.discard();
	std::unique_ptr<ModelElement> cp;
	if(g.chance(1, 4))
	{
		// a copy is in the same state (its parts are not deleted with it)
		cp.reset(f->Copy());
		f = static_cast<SequenceFrame*>(cp.get());
		c.desc << "copy ";
		c.label("copy");
	}
	AcceleratorGeometry::Extent e = f->GetLocalGeometryExtent();
	c.near(f->GetGeometryLength(), L, 1e-13, 1e-14, "length");
	c.near(e.second - e.first, L, 1e-13, 1e-14, "extent");
	// boundaries of the parts and points within them
	std::vector<double> edges(1, 0);
	for(auto& p : s.p)
		edges.push_back(edges.back() + p.L);
	auto pos = [&]() -> double
		{
			switch(g.raw(4))
			{
			case 0:
				return e.first;
			case 1:
				return e.second;
			case 2:
				return std::min(e.first + g.pick(edges), e.second);
			default:
				return e.first + (e.second - e.first) * g.unit();
			}
		};
	double a = pos(), b = pos(), d = pos();
	c.desc << a << " " << b << " " << d;
	c.nontrivial(s.p.size() > 1 && a != b && b != d);
	const AcceleratorGeometry* geom = f->GetGeometry();
	auto ref = [&](double x, double y)
		{
			return then(inverse(s.at(x - e.first)), s.at(y - e.first));
		};
	const double tol = 1e-11;
	compare(c, geom->GetGeometryTransform(a, b), ref(a, b), tol, "from a to b");
	compare(c, geom->GetGeometryTransform(b, a).inv(), ref(a, b), tol, "inverse of the way back");
	compare(c, geom->GetGeometryTransform(b, d) * geom->GetGeometryTransform(a, b), ref(a, d), tol, "from a to b to c");
	compare(c, geom->GetTotalGeometryTransform(), ref(e.first, e.second), tol, "total");
	compare(c, geom->GetGeometryTransform(AcceleratorGeometry::entrance), ref(0, e.first), tol, "to the entrance");
	compare(c, geom->GetGeometryTransform(AcceleratorGeometry::exit), ref(0, e.second), tol, "to the exit");
	compare(c, geom->GetGeometryTransform(a), ref(0, a), tol, "from the origin");
	c.check(beyond([&]()
		{
			geom->GetGeometryTransform(e.second + 0.01, a);
		}) && beyond([&]()
		{
			geom->GetGeometryTransform(a, e.first - 0.01);
		}), "beyond the ends");
	// every part lies where it should
	size_t k = 0;
	double pos0 = 0;
	std::function<void (LatticeFrame*)> visit;
	struct Visit: public FrameTraverser
	{
		std::vector<LatticeFrame*> v;
		void ActOn(LatticeFrame* x)
		{
			if(dynamic_cast<ComponentFrame*>(x))
				v.push_back(x);
		}
	} vis;
	f->Traverse(vis);
	c.eq(vis.v.size(), s.p.size(), "parts");
	for(LatticeFrame* x : vis.v)
	{
		double mid = pos0 + s.p[k].L / 2 + e.first;
		c.near(x->GetPosition(f), mid, 0, 1e-12, "position of part " + std::to_string(k));
		AcceleratorGeometry::Extent xe = x->GetGeometryExtent(f);
		c.near(xe.first, pos0 + e.first, 0, 1e-12, "begin of part " + std::to_string(k));
		pos0 += s.p[k].L;
		c.near(xe.second, pos0 + e.first, 0, 1e-12, "end of part " + std::to_string(k));
		compare(c, x->GetPhysicalTransform(f), ref(0, mid), tol, "frame of part " + std::to_string(k));
		++k;
	}
}
