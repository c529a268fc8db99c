// geo.h - independent reference geometry: 3x3 matrices and rigid frames.
#ifndef GEO_H
#define GEO_H
#include <array>
#include <cmath>
#include "pbt.h"
#include "Transform3D.h"
#include "RotationMatrix.h"
namespace geo
{
typedef std::array<double, 3> V3;
struct M3
{
	double a[3][3];
};
inline M3 unit()
{
	return M3{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}};
}
inline M3 mul(const M3& x, const M3& y)
{
	M3 r;
	for(int i = 0; i < 3; ++i)
		for(int j = 0; j < 3; ++j)
			r.a[i][j] = x.a[i][0] * y.a[0][j] + x.a[i][1] * y.a[1][j] + x.a[i][2] * y.a[2][j];
	return r;
}
inline M3 tr(const M3& x)
{
	M3 r;
	for(int i = 0; i < 3; ++i)
		for(int j = 0; j < 3; ++j)
			r.a[i][j] = x.a[j][i];
	return r;
}
inline V3 mul(const M3& m, const V3& v)
{
	V3 r;
	for(int i = 0; i < 3; ++i)
		r[i] = m.a[i][0] * v[0] + m.a[i][1] * v[1] + m.a[i][2] * v[2];
	return r;
}
inline V3 add(const V3& a, const V3& b)
{
	return V3{a[0] + b[0], a[1] + b[1], a[2] + b[2]};
}
inline V3 sub(const V3& a, const V3& b)
{
	return V3{a[0] - b[0], a[1] - b[1], a[2] - b[2]};
}
// coordinates in axes that have been turned right-handedly by angle about an axis
inline M3 rot(int axis, double t)
{
	double c = std::cos(t), s = std::sin(t);
	switch(axis)
	{
	case 0:
		return M3{{{1, 0, 0}, {0, c, s}, {0, -s, c}}};
	case 1:
		return M3{{{c, 0, -s}, {0, 1, 0}, {s, 0, c}}};
	default:
		return M3{{{c, s, 0}, {-s, c, 0}, {0, 0, 1}}};
	}
}
// a frame with origin o and axes R in its parent: p -> R (p-o)
struct Frame
{
	V3 o{0, 0, 0};
	M3 R = unit();
	V3 operator()(const V3& p) const
	{
		return mul(R, sub(p, o));
	}
};
inline Frame shift(double x, double y, double z)
{
	Frame f;
	f.o = V3{x, y, z};
	return f;
}
inline Frame turn(int axis, double t)
{
	Frame f;
	f.R = rot(axis, t);
	return f;
}
// first a, then b (b given in the coordinates of a)
inline Frame then(const Frame& a, const Frame& b)
{
	Frame r;
	r.R = mul(b.R, a.R);
	r.o = add(a.o, mul(tr(a.R), b.o));
	return r;
}
inline Frame inverse(const Frame& a)
{
	Frame r;
	r.R = tr(a.R);
	V3 o = mul(a.R, a.o);
	r.o = V3{-o[0], -o[1], -o[2]};
	return r;
}
// the frame at distance s along an arc of curvature h that starts along z and bends towards -x,
// in the plane that is rolled by tilt about z
inline Frame arc(double s, double h, double tilt = 0)
{
	double phi = s * h;
	double sh = std::sin(phi / 2);
	Frame f = shift(h == 0 ? 0 : -2 * sh * sh / h, 0, h == 0 ? s : std::sin(phi) / h);
	f.R = rot(1, -phi);
	if(tilt)
		f = then(then(turn(2, tilt), f), turn(2, -tilt));
	return f;
}
inline void compare(pbt::Ctx& c, const Transform3D& t, const Frame& f, double tol, const std::string& what)
{
	TLAS::RealMatrix m;
	t.R().getMatrix(m);
	for(int i = 0; i < 3; ++i)
		for(int j = 0; j < 3; ++j)
			c.near(m(i, j), f.R.a[i][j], 0, tol, what + ": rotation (" + std::to_string(i) + "," + std::to_string(j) + ")");
	double s = tol * (1 + std::fabs(f.o[0]) + std::fabs(f.o[1]) + std::fabs(f.o[2]));
	c.near(t.X().x, f.o[0], 0, s, what + ": origin x");
	c.near(t.X().y, f.o[1], 0, s, what + ": origin y");
	c.near(t.X().z, f.o[2], 0, s, what + ": origin z");
}
// straight line of slope coordinates seen from another frame: crossing of its z=0 plane
struct Ray
{
	double x, xp, y, yp;
};
inline Ray see(const Frame& f, const Ray& r)
{
	V3 p = f(V3{r.x, r.y, 0}), d = mul(f.R, V3{r.xp, r.yp, 1});
	Ray o;
	o.xp = d[0] / d[2];
	o.yp = d[1] / d[2];
	o.x = p[0] - p[2] * o.xp;
	o.y = p[1] - p[2] * o.yp;
	return o;
}
}
#endif
