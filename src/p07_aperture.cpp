// P07: an aperture admits exactly the points of the shape it describes.
#include "pbt.h"
#include "Aperture.h"
#include "CollimatorAperture.h"
#include "InterpolatedApertures.h"
#include "DataTable.h"
#include <memory>
using namespace pbt;
using std::string;
using std::vector;

pbt::Info pbt::info = {"P07",
	"Apertures of every type with log-uniform half sizes (1e-5..2 m, aspect ratio up to 1e3), tilts, offsets, tapers and "
	"interpolation tables of 2-8 rows; points are placed relative to the boundary (gauge 1 +- 1e-7 .. far) in all "
	"quadrants and, for z-dependent shapes, at random z including rows and ends. Non-trivial: the verdict is decided by "
	"the part of the shape that is not the enclosing |x|+|y| shortcut, i.e. gauge in [0.5, 1.5].",
	"Half sizes are positive; z lies within the described length; points closer than 1e-9 (relative) to the boundary "
	"are not judged; octagon angles satisfy tan(a1) < h/w < tan(a2)."};

namespace
{
double sq(double a)
{
	return a * a;
}
struct Shape
{
	string type;
	double a1 = 0, a2 = 0, a3 = 0, a4 = 0;
};
// gauge function: < 1 inside, > 1 outside, homogeneous of degree one
double gauge(const Shape& s, double x, double y)
{
	double ax = std::fabs(x), ay = std::fabs(y);
	if(s.type == "CIRCLE")
		return std::hypot(x, y) / s.a1;
	if(s.type == "RECTANGLE")
		return std::max(ax / s.a1, ay / s.a2);
	if(s.type == "ELLIPSE")
		return std::sqrt(sq(x / s.a1) + sq(y / s.a2));
	if(s.type == "RECTELLIPSE")
		return std::max(std::max(ax / s.a1, ay / s.a2), std::sqrt(sq(x / s.a3) + sq(y / s.a4)));
	// OCTAGON: corner cut along the line from (w, w tan a1) to (h / tan a2, h)
	double x1 = s.a1, y1 = s.a1 * std::tan(s.a3), x2 = s.a2 / std::tan(s.a4), y2 = s.a2;
	double nx = y2 - y1, ny = x1 - x2;    // outward normal of the cut
	double d = nx * x1 + ny * y1;
	return std::max(std::max(ax / s.a1, ay / s.a2), (nx * ax + ny * ay) / d);
}
double dim(Gen& g)
{
	switch(g.raw(3))
	{
	case 0:
		return g.pick({0.01, 0.02, 0.05, 0.1, 1.0});
	default:
		return g.logu(1e-5, 2);
	}
}
double aspect(Gen& g, double a)
{
	return g.chance(1, 4) ? a : a * g.logu(1e-2, 1e2);
}
Shape gen_shape(Gen& g, string t)
{
	Shape s;
	s.type = t;
	s.a1 = dim(g);
	s.a2 = aspect(g, s.a1);
	if(t == "RECTELLIPSE")
	{
		s.a3 = s.a1 * g.logu(0.3, 3);
		s.a4 = s.a2 * g.logu(0.3, 3);
	}
	if(t == "OCTAGON")
	{
		double r = std::atan2(s.a2, s.a1);
		s.a3 = r * g.real(0.05, 0.95);
		s.a4 = r + (std::acos(-1.0) / 2 - r) * g.real(0.05, 0.95);
	}
	if(t == "CIRCLE")
	{
		s.a2 = 0;
	}
	return s;
}
string show(const Shape& s)
{
	std::ostringstream o;
	o << s.type << "(" << s.a1 << "," << s.a2 << "," << s.a3 << "," << s.a4 << ")";
	return o.str();
}
// target gauge of the generated point
double gen_t(Gen& g)
{
	switch(g.raw(6))
	{
	case 0:
		return g.real(0, 0.99);
	case 1:
		return g.real(1.01, 3);
	case 2:
		return 1 - g.logu(1e-7, 1e-2);
	case 3:
		return 1 + g.logu(1e-7, 1e-2);
	case 4:
		return g.real(0.5, 1.0);
	case 5:
		return g.real(1.0, 1.5);
	default:
		return g.logu(1e-3, 1e3);
	}
}
// a direction: axes and diagonals of the shape included
void gen_dir(Gen& g, double w, double h, double& x, double& y)
{
	switch(g.raw(5))
	{
	case 0:
		x = w;
		y = 0;
		break;
	case 1:
		x = 0;
		y = h;
		break;
	case 2:
		x = w;
		y = h;
		break;
	case 3:
		x = 1;
		y = 1;
		break;
	default:
	{
		double phi = g.real(0, std::acos(-1.0) / 2);
		x = w * std::cos(phi);
		y = h * std::sin(phi);
	}
	}
	if(g.b())
		x = -x;
	if(g.b())
		y = -y;
}
DataTable table(const vector<std::pair<double, Shape> >& rows)
{
	DataTable t;
	t.AddColumn("APERTYPE", 's');
	t.AddColumn("S", 'd');
	t.AddColumn("APER_1", 'd');
	t.AddColumn("APER_2", 'd');
	t.AddColumn("APER_3", 'd');
	t.AddColumn("APER_4", 'd');
	for(auto& r : rows)
	{
		size_t i = t.AddRow();
		t.Set_s("APERTYPE", i, r.second.type);
		t.Set_d("S", i, r.first);
		t.Set_d("APER_1", i, r.second.a1);
		t.Set_d("APER_2", i, r.second.a2);
		t.Set_d("APER_3", i, r.second.a3);
		t.Set_d("APER_4", i, r.second.a4);
	}
	return t;
}
void judge(Ctx& c, const Aperture& ap, double x, double y, double z, double gg, const string& what)
{
	bool in = ap.CheckWithinApertureBoundaries(x, y, z);
	c.nontrivial(gg > 0.5 && gg < 1.5);
	c.label(gg < 1 ? "inside" : "outside");
	if(std::fabs(gg - 1) < 1e-9)
	{
		c.label("boundary");
		return;
	}
	std::ostringstream o;
	o.precision(17);
	o << what << " point (" << x << ", " << y << ", z=" << z << ") with gauge " << gg << " is reported "
	  << (in ? "inside" : "outside");
	c.check(in == (gg < 1), o.str());
}
}

LAW(shapes, 500000, 8000000, "A fixed-shape aperture contains a point iff it lies inside the described circle, rectangle, "
	"ellipse, rectangle-ellipse intersection or octagon, at every z; built directly or by the factory")
{
	string t = g.pick<string>({"CIRCLE", "RECTANGLE", "ELLIPSE", "RECTELLIPSE", "OCTAGON"});
	Shape s = gen_shape(g, t);
	std::unique_ptr<Aperture> ap;
	bool factory = g.b();
	double lat = g.real(0, 100);
	if(factory)
	{
		Shape r = s;
		if(g.b())
		{
			// MAD-X may give the radius / semi-axes as APER_3 / APER_4
			if(t == "CIRCLE")
			{
				r.a3 = s.a1;
				r.a1 = g.b() ? 0 : s.a1 * 3;
				c.label("circle_aper3");
			}
			if(t == "ELLIPSE")
			{
				r.a3 = s.a1;
				r.a4 = s.a2;
				r.a1 = r.a2 = 0;
				c.label("ellipse_aper34");
			}
		}
		DataTable dt = table({{lat, r}});
		ap.reset(ApertureFactory::GetInstance(*dt.begin()));
		c.check(ap != nullptr, "factory returned no aperture for " + t);
		c.eq(ap->GetLatticeLocation(), lat, "lattice location");
	}
	else if(t == "CIRCLE")
		ap.reset(g.b() ? new CircularAperture(s.a1) : new CircularAperture(t, lat, s.a1));
	else if(t == "RECTANGLE")
		ap.reset(g.b() ? new RectangularAperture(s.a1, s.a2) : new RectangularAperture(t, lat, s.a1, s.a2));
	else if(t == "ELLIPSE")
		ap.reset(new EllipticalAperture(t, lat, s.a1, s.a2));
	else if(t == "RECTELLIPSE")
		ap.reset(new RectEllipseAperture(t, lat, s.a1, s.a2, s.a3, s.a4));
	else
		ap.reset(new OctagonalAperture(t, lat, s.a1, s.a2, s.a3, s.a4));
	c.eq(ap->GetType(), t, "GetType()");
	c.label(t);
	double x, y;
	gen_dir(g, s.a1, t == "CIRCLE" ? s.a1 : s.a2, x, y);
	double q = gauge(s, x, y);
	double tt = gen_t(g);
	x *= tt / q;
	y *= tt / q;
	c.desc << show(s) << " x=" << x << " y=" << y;
	judge(c, *ap, x, y, g.sym(10), gauge(s, x, y), show(s));
}

LAW(jaws, 400000, 6000000, "A collimator aperture contains a point iff it lies strictly between the jaws: full entrance/exit "
	"width and height and offsets interpolated linearly along the length, in the frame rotated by the tilt")
{
	double w = dim(g) * 2, h = aspect(g, w), L = g.logu(0.05, 3);
	double tilt = g.chance(1, 3) ? 0 : (g.chance(1, 3) ? std::acos(-1.0) / 2 * g.i(-2, 2) : g.sym(3.2));
	double ox = 0, oy = 0, ox2 = 0, oy2 = 0;
	if(!g.chance(1, 3))
	{
		ox = g.sym(w);
		oy = g.sym(h);
	}
	int kind = g.i(0, 3);
	double w2 = w, h2 = h;
	if(kind == 0)
	{
		if(g.b())
		{
			w2 = w * g.logu(0.2, 5);
			h2 = h * g.logu(0.2, 5);
			c.label("tapered");
		}
		if(g.b())
		{
			ox2 = g.sym(w);
			oy2 = g.sym(h);
		}
		else
		{
			ox2 = ox;
			oy2 = oy;
		}
	}
	std::unique_ptr<CollimatorAperture> ap;
	bool side = g.b();
	bool resize = false;
	double wi = w, hi = h;
	if(kind == 0 && g.chance(1, 3))
	{
		// built with one opening, then opened/closed to another
		resize = true;
		wi = w * g.logu(0.2, 5);
		hi = h * g.logu(0.2, 5);
		c.label("resized");
	}
	if(kind == 0)
	{
		ap.reset(new CollimatorAperture(wi, hi, tilt, L, ox, oy));
		auto exits = [&]() {
				ap->SetExitWidth(w2);
				ap->SetExitHeight(h2);
				ap->SetExitXOffset(ox2);
				ap->SetExitYOffset(oy2);
			};
		bool order = g.b();
		if(order)
		{
			exits();
		}
		if(resize)
		{
			ap->SetEntranceWidth(w);
			ap->SetEntranceHeight(h);
		}
		if(!order)
		{
			exits();
		}
		c.near(ap->GetFullEntranceWidth(), w, 1e-15, 0, "GetFullEntranceWidth");
		c.near(ap->GetFullEntranceHeight(), h, 1e-15, 0, "GetFullEntranceHeight");
		c.near(ap->GetFullExitWidth(), w2, 1e-15, 0, "GetFullExitWidth");
		c.near(ap->GetFullExitHeight(), h2, 1e-15, 0, "GetFullExitHeight");
	}
	else if(kind == 1)
		ap.reset(new UnalignedCollimatorAperture(w, h, tilt, L, ox, oy));
	else
	{
		ap.reset(new OneSidedUnalignedCollimatorAperture(w, h, tilt, L, ox, oy, kind == 2 ? side : !side));
		if(kind == 3)
		{
			static_cast<OneSidedUnalignedCollimatorAperture*>(ap.get())->SetJawSide(side);
		}
	}
	c.label(kind == 0 ? "aligned" : kind == 1 ? "unaligned" : "onesided");
	double z = g.chance(1, 4) ? (g.b() ? 0 : L) : g.real(0, L);
	double f = kind == 0 ? z / L : 0;
	double W = w + (w2 - w) * f, H = h + (h2 - h) * f;
	double cx = ox + (kind == 0 ? (ox2 - ox) * f : 0), cy = oy + (kind == 0 ? (oy2 - oy) * f : 0);
	// point in the jaw frame
	double u, v;
	gen_dir(g, W / 2, H / 2, u, v);
	double q = std::max(std::fabs(u) / (W / 2), std::fabs(v) / (H / 2)), t = gen_t(g);
	u *= t / q;
	v *= t / q;
	// the jaw frame is rotated by +tilt: lab = R(tilt) * jaw
	double x = cx + u * std::cos(tilt) - v * std::sin(tilt), y = cy + u * std::sin(tilt) + v * std::cos(tilt);
	double gg;
	if(kind >= 2)
	{
		double su = side ? u : -u;
		gg = std::max(su / (W / 2), std::fabs(v) / (H / 2));
	}
	else
	{
		gg = std::max(std::fabs(u) / (W / 2), std::fabs(v) / (H / 2));
	}
	// rounding of the rotation relative to the jaw size
	double eps = 1e-14 * (std::fabs(x) + std::fabs(y) + std::fabs(cx) + std::fabs(cy)) / (std::min(W, H) / 2);
	c.desc << "kind " << kind << " w=" << w << "->" << w2 << " h=" << h << "->" << h2 << " tilt=" << tilt << " L=" << L
	       << " off=(" << ox << "," << oy << ")->(" << ox2 << "," << oy2 << ") x=" << x << " y=" << y << " z=" << z;
	if(std::fabs(gg - 1) < eps)
	{
		c.label("boundary");
		return;
	}
	judge(c, *ap, x, y, z, gg, "collimator");
}

LAW(interpolated, 400000, 6000000, "An interpolated aperture contains a point at z iff it lies inside the shape whose parameters "
	"are interpolated linearly between the two table rows around z")
{
	string t = g.pick<string>({"CIRCLE", "ELLIPSE", "RECTELLIPSE", "OCTAGON"});
	int n = g.len(2, 8);
	vector<std::pair<double, Shape> > rows;
	double s = g.b() ? 0 : -g.real(0, 2);
	Shape base = gen_shape(g, t);
	for(int i = 0; i < n; ++i)
	{
		Shape r = base;
		r.a1 *= g.logu(0.3, 3);
		r.a2 = t == "OCTAGON" ? base.a2 * r.a1 / base.a1 * g.real(0.99, 1.01) : r.a2 * g.logu(0.3, 3);
		if(t == "CIRCLE")
		{
			r.a2 = 0;
		}
		if(t == "RECTELLIPSE")
		{
			r.a3 *= g.logu(0.3, 3);
			r.a4 *= g.logu(0.3, 3);
		}
		if(t == "OCTAGON")
		{
			double rr = std::atan2(base.a2, base.a1);
			r.a3 = rr * g.real(0.1, 0.8);
			r.a4 = rr + (std::acos(-1.0) / 2 - rr) * g.real(0.2, 0.9);
		}
		rows.push_back({s, r});
		s += g.logu(0.01, 3);
	}
	DataTable dt = table(rows);
	std::unique_ptr<Aperture> ap(InterpolatorFactory::GetInstance(dt));
	c.check(ap != nullptr, "no interpolated aperture for " + t);
	double z0 = std::max(0.0, rows[0].first), z1 = rows.back().first;
	if(z1 <= 0)
	{
		c.discard();
	}
	double z;
	size_t k = 1 + g.raw(n - 2);
	switch(g.raw(3))
	{
	case 0:
		z = rows[k].first;
		break;
	default:
		z = rows[k - 1].first + (rows[k].first - rows[k - 1].first) * g.unit();
	}
	z = std::min(std::max(z, z0), z1);
	for(k = 1; k + 1 < rows.size() && rows[k].first < z; ++k)
	{
	}
	double f = (z - rows[k - 1].first) / (rows[k].first - rows[k - 1].first);
	Shape m = base;
	auto lerp = [&](double a, double b) {
			return a + (b - a) * f;
		};
	m.a1 = lerp(rows[k - 1].second.a1, rows[k].second.a1);
	m.a2 = lerp(rows[k - 1].second.a2, rows[k].second.a2);
	m.a3 = lerp(rows[k - 1].second.a3, rows[k].second.a3);
	m.a4 = lerp(rows[k - 1].second.a4, rows[k].second.a4);
	double x, y;
	gen_dir(g, m.a1, t == "CIRCLE" ? m.a1 : m.a2, x, y);
	double q = gauge(m, x, y), tt = gen_t(g);
	x *= tt / q;
	y *= tt / q;
	c.label(t);
	c.desc << t << " rows " << n << " around z=" << z << ": " << show(rows[k - 1].second) << "@" << rows[k - 1].first
	       << " " << show(rows[k].second) << "@" << rows[k].first << " x=" << x << " y=" << y;
	double gg = gauge(m, x, y);
	if(std::fabs(gg - 1) < 1e-8)
	{
		return;
	}
	judge(c, *ap, x, y, z, gg, "interpolated " + show(m));
}
