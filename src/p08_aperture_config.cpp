// P08: aperture configuration gives every component the apertures of its s range; survey.
#include "mlib.h"
#include <fstream>
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "Aperture.h"
#include "InterpolatedApertures.h"
#include "ApertureConfiguration.h"
#include "ApertureSurvey.h"
#include "CollimatorAperture.h"
#include "DataTable.h"
using namespace ml;

pbt::Info pbt::info = {"P08",
	"Lattices of 1 to 10 drifts, magnets and markers; tables in order of s with rows for any of the elements, partial and "
	"overlapping ranges, all aperture types, steps, gaps and positions rounded by up to 1e-8; points around the aperture at the "
	"ends, the table positions and random positions of every component. Non-trivial: at least two table rows and two components.",
	"Points within 1e-6 of an edge are not judged; at a step of the table either side is right; between rows of different type "
	"a point is judged only if it is inside both or outside the box of both; octagons are not mixed with other types."};

namespace
{
struct Quiet
{
	std::ostringstream sink;
	std::streambuf* old;
	Quiet() : old(std::cout.rdbuf(sink.rdbuf())) {}
	~Quiet() { std::cout.rdbuf(old); }
};
const double PI = 3.14159265358979323846;
struct Shape
{
	std::string type;
	double p[4];
	// largest relative margin: >0 inside
	double inside(double x, double y) const
	{
		x = std::fabs(x);
		y = std::fabs(y);
		if(type == "CIRCLE")
			return 1 - std::hypot(x, y) / p[0];
		if(type == "RECTANGLE")
			return std::min(1 - x / p[0], 1 - y / p[1]);
		if(type == "ELLIPSE")
			return 1 - std::hypot(x / p[0], y / p[1]);
		if(type == "RECTELLIPSE")
			return std::min(std::min(1 - x / p[0], 1 - y / p[1]), 1 - std::hypot(x / p[2], y / p[3]));
		// octagon: the corners are cut by the line through (hw, hw tan a1) and (hh tan(pi/2 - a2), hh)
		double x1 = p[0], y1 = p[0] * std::tan(p[2]), x2 = p[1] * std::tan(PI / 2 - p[3]), y2 = p[1];
		double d = std::hypot(x2 - x1, y2 - y1);
		double cut = d > 0 ? ((y2 - y1) * (x1 - x) + (x1 - x2) * (y1 - y)) / d / std::min(p[0], p[1]) : 1;
		return std::min(std::min(1 - x / p[0], 1 - y / p[1]), cut);
	}
	double hw() const { return type == "RECTELLIPSE" ? std::min(p[0], p[2]) : p[0]; }
	double hh() const { return type == "CIRCLE" ? p[0] : type == "RECTELLIPSE" ? std::min(p[1], p[3]) : p[1]; }
	bool operator==(const Shape& o) const
	{
		return type == o.type && std::equal(p, p + 4, o.p);
	}
};
std::string str(const Shape& s)
{
	std::ostringstream o;
	o.precision(6);
	o << s.type << "(" << s.p[0] << "," << s.p[1] << "," << s.p[2] << "," << s.p[3] << ")";
	return o.str();
}
Shape shape(Gen& g, const std::string& type)
{
	Shape s;
	s.type = type;
	for(double& x : s.p)
		x = g.chance(1, 3) ? g.pick({0.02, 0.01, 0.04}) : g.real(5e-3, 5e-2);
	if(type == "OCTAGON")
	{
		// angles for which the cut corner is convex
		double a = std::atan2(s.p[1], s.p[0]);
		s.p[2] = a * g.real(0.2, 0.9);
		s.p[3] = a + (PI / 2 - a) * g.real(0.1, 0.8);
	}
	if(type == "CIRCLE")
		s.p[1] = s.p[2] = s.p[3] = 0;
	if(type == "RECTANGLE" || type == "ELLIPSE")
		s.p[2] = s.p[3] = 0;
	return s;
}
struct Point
{
	double s;
	Shape a;
};
struct Cmp
{
	AcceleratorComponent* c;
	double s0, L;
	bool drift;
	Aperture* preset;
};
struct Lat
{
	std::unique_ptr<AcceleratorModel> m;
	std::vector<Cmp> c;
	double C = 0;
};
void lattice(Gen& g, Ctx& c, Lat& l, bool preset)
{
	AcceleratorModelConstructor mc;
	mc.NewModel();
	int n = g.i(1, 10);
	double s = 0;
	for(int i = 0; i < n; ++i)
	{
		std::string k = i == n - 1 && s == 0 ? "drift" : g.pick({"drift", "drift", "quad", "bend", "marker"});
		double L = k == "marker" ? 0 : length(g, 0.05, 3);
		std::string name = "E" + std::to_string(i);
		AcceleratorComponent* x = k == "drift" ? new Drift(name, L) : k == "quad" ? static_cast<AcceleratorComponent*>(new Quadrupole(name, L, 1)) :
			k == "bend" ? static_cast<AcceleratorComponent*>(new SectorBend(name, L, 0.01, 0.01)) : new Marker(name);
		x->SetComponentLatticePosition(s);
		mc.AppendComponent(*x);
		l.c.push_back({x, s, L, k == "drift", nullptr});
		c.desc << name << ":" << k << " " << s << "+" << L << "; ";
		s += L;
	}
	l.C = s;
	l.m.reset(mc.GetModel());
	if(preset)
		for(auto& x : l.c)
			if(g.chance(1, 8))
				x.c->SetAperture(x.preset = new CircularAperture(0.0123));
}
// what the table says at s (and z>0: approached from within); either of the two at a step
struct Where
{
	const Point* a;
	const Point* b;
	double f;
};
Where between(const std::vector<Point>& pts, double s)
{
	size_t k = 1;
	while(k < pts.size() - 1 && pts[k].s < s)
		++k;
	double d = pts[k].s - pts[k - 1].s;
	return {&pts[k - 1], &pts[k], d > 0 ? (s - pts[k - 1].s) / d : 0};
}
// 1 inside, 0 outside, -1 not judged
int judge(const Where& w, double x, double y)
{
	double m;
	if(w.a->a == w.b->a || w.f <= 0)
		m = w.a->a.inside(x, y);
	else if(w.f >= 1)
		m = w.b->a.inside(x, y);
	else if(w.a->a.type == w.b->a.type && w.a->a.type != "RECTANGLE")
	{
		Shape s = w.a->a;
		for(int i = 0; i < 4; ++i)
			s.p[i] += w.f * (w.b->a.p[i] - s.p[i]);
		m = s.inside(x, y);
	}
	else if(w.a->a.type == "RECTANGLE" && w.b->a.type == "RECTANGLE")
	{
		Shape s = w.a->a;
		for(int i = 0; i < 4; ++i)
			s.p[i] += w.f * (w.b->a.p[i] - s.p[i]);
		m = s.inside(x, y);
	}
	else
	{
		if(w.a->a.inside(x, y) > 1e-6 && w.b->a.inside(x, y) > 1e-6)
			return 1;
		// (the interpolation of two rect-ellipses may be wider than either where the narrower of rectangle and ellipse changes)
		if(std::fabs(x) > std::max(w.a->a.p[0], w.b->a.p[0]) + 1e-7 ||
			std::fabs(y) > std::max(w.a->a.p[w.a->a.type != "CIRCLE"], w.b->a.p[w.b->a.type != "CIRCLE"]) + 1e-7)
			return 0;
		return -1;
	}
	return std::fabs(m) < 1e-6 ? -1 : m > 0;
}
}

LAW(configure, 30000, 1500000, "each component admits the points that the table admits at its position in the lattice")
{
	Quiet quiet;
	Lat l;
	lattice(g, c, l, true);
	// rows, in order of s, for elements or parts of them
	struct Row { double s, L; Shape a; };
	std::vector<Row> rows;
	bool oct = g.chance(1, 5);
	std::string only = g.chance(1, 3) ? g.pick({"CIRCLE", "RECTANGLE", "ELLIPSE", "RECTELLIPSE"}) : "";
	bool noise = g.b();
	double last = 0;
	for(auto& x : l.c)
	{
		if(g.chance(1, 3))
			continue;
		Shape a = shape(g, oct ? "OCTAGON" : !only.empty() ? only : g.pick({"CIRCLE", "RECTANGLE", "ELLIPSE", "RECTELLIPSE"}));
		if(!rows.empty() && g.chance(1, 4))
			a = rows.back().a;
		double b = x.s0, e = x.s0 + x.L;
		if(x.drift && x.L > 0 && g.chance(1, 3))
		{
			b += x.L * g.pick({0.25, 0.5, 0.1});
			e = g.b() ? b : e;
		}
		double ns = noise ? g.sym(1e-8) : 0;
		e = std::max(e + ns, last);
		b = std::min(std::max(b + ns, last), e);
		last = e;
		rows.push_back({e, e - b, a});
		if(g.chance(1, 6) && x.drift)
		{
			// a step in the table
			Shape a2 = shape(g, a.type);
			rows.push_back({e, 0, a2});
		}
	}
	if(rows.empty())
		rows.push_back({l.C / 2, 0, shape(g, "CIRCLE")});
	c.nontrivial(rows.size() > 1 && l.c.size() > 1);
	if(oct)
		c.label("octagons");
	std::vector<Point> pts;
	std::string file = "ap.tfs";
	{
		std::ofstream f(file);
		f.precision(17);
		f << "@ NAME %05s \"TWISS\"\n* NAME KEYWORD S L APER_1 APER_2 APER_3 APER_4 APERTYPE\n$ %s %s %le %le %le %le %le %le %s\n";
		int i = 0;
		for(auto& r : rows)
		{
			if(g.chance(1, 4))
				f << " \"M" << i << "\" \"MARKER\" " << r.s << " 0 0 0 0 0 \"CIRCLE\"\n";     // no aperture
			f << " \"R" << i++ << "\" \"DRIFT\" " << r.s << " " << r.L << " " << r.a.p[0] << " " << r.a.p[1] << " " << r.a.p[2] << " " << r.a.p[3]
			  << " \"" << r.a.type << "\"\n";
			pts.push_back({r.s - r.L, r.a});
			pts.push_back({r.s, r.a});
			c.desc << "row " << r.s - r.L << ".." << r.s << " " << str(r.a) << "; ";
		}
	}
	ApertureConfiguration conf(file);
	conf.ConfigureElementApertures(l.m.get());
	// around the ring
	std::vector<Point> ring;
	ring.push_back({pts.back().s - l.C, pts.back().a});
	ring.insert(ring.end(), pts.begin(), pts.end());
	ring.push_back({pts.front().s + l.C, pts.front().a});
	for(auto& x : l.c)
	{
		Aperture* a = x.c->GetAperture();
		std::string nm = x.c->GetName();
		if(x.preset)
		{
			c.check(a == x.preset, nm + " had an aperture and keeps it");
			continue;
		}
		if(x.L == 0)
		{
			c.check(a == nullptr, nm + " has no length and no aperture");
			continue;
		}
		c.check(a != nullptr, nm + " has an aperture");
		std::vector<double> zs{0, x.L, g.real(0, x.L), g.real(0, x.L)};
		for(auto& p : pts)
			if(p.s > x.s0 && p.s < x.s0 + x.L)
				zs.push_back(p.s - x.s0);
		for(double z : zs)
			for(int k = 0; k < 6; ++k)
			{
				double s = x.s0 + z;
				std::vector<Where> ws;
				if(!x.drift)
				{
					const Point* p = &pts.back();
					for(auto i = pts.rbegin(); i != pts.rend(); ++i)
						if(i->s > x.s0 + 1e-7)
							p = &*i;
					ws.push_back({p, p, 0});
				}
				else
				{
					ws.push_back(between(ring, s));
					for(double d : {-1e-7, 1e-7})
						ws.push_back(between(ring, s + d));
				}
				const Shape& w = g.b() ? ws[0].a->a : ws[0].b->a;
				double px, py;
				if(g.b())
				{
					double t = g.real(0, PI * 2), r = g.real(0.8, 1.2);
					px = w.hw() * std::cos(t) * r;
					py = w.hh() * std::sin(t) * r;
				}
				else
				{
					px = w.hw() * g.sym(1.3);
					py = w.hh() * g.sym(1.3);
				}
				int can = 0;      // 1: may be inside, 2: may be outside
				if(x.drift)
					for(size_t j = 1; j < ring.size(); ++j)
						if(std::fabs(ring[j].s - s) < 1e-7 && std::fabs(ring[j - 1].s - s) < 1e-7 && !(ring[j].a == ring[j - 1].a) &&
							!(ring[j].a.inside(px, py) > 1e-6 && ring[j - 1].a.inside(px, py) > 1e-6))
							can = 3;      // on a step
				for(auto& q : ws)
				{
					int r = judge(q, px, py);
					can |= r < 0 ? 3 : r ? 1 : 2;
				}
				if(can == 3)
					continue;
				bool in = a->CheckWithinApertureBoundaries(px, py, z);
				if(in != (can == 1))
				{
					// KF-02: an element other than a drift has the aperture of an entry at its entrance, where the element before it ends
					bool kf = false;
					if(!x.drift)
						for(auto& p : pts)
							if(p.s >= x.s0)
							{
								double m = p.a.inside(px, py);
								kf = p.s < x.s0 + 1e-7 && (std::fabs(m) < 1e-6 || (m > 0) == in);
								break;
							}
					if(kf && c.known("KF-02"))
						continue;
					std::ostringstream o;
					o.precision(10);
					o << nm << " at z=" << z << " (s=" << s << ") says " << (in ? "inside" : "outside") << " for (" << px << "," << py << "), the table is between "
					  << str(ws[0].a->a) << " at " << ws[0].a->s << " and " << str(ws[0].b->a) << " at " << ws[0].b->s;
					c.fail(o.str());
				}
			}
	}
	if(g.chance(1, 3))
	{
		conf.DeleteAllApertures(l.m.get());
		for(auto& x : l.c)
			c.check(x.c->GetAperture() == nullptr, "no aperture is left after deleting all");
		conf.ConfigureElementApertures(l.m.get());
		for(auto& x : l.c)
			c.check((x.c->GetAperture() != nullptr) == (x.L > 0), "apertures are configured again");
	}
	conf.DeleteAllApertures(l.m.get());
}

LAW(survey, 6000, 200000, "the survey reports the half-widths that the aperture of each component has at each surveyed position")
{
	Quiet quiet;
	Lat l;
	lattice(g, c, l, false);
	std::vector<std::unique_ptr<Aperture> > own;
	for(auto& x : l.c)
		if(g.chance(4, 5) && x.L > 0)
		{
			Shape a = shape(g, g.pick({"CIRCLE", "RECTANGLE", "ELLIPSE", "RECTELLIPSE"}));
			Aperture* p;
			if(g.chance(1, 3))
			{
				CollimatorAperture* q = new CollimatorAperture(2 * a.p[0], 2 * a.p[1], 0, x.L, g.sym(2e-3), g.sym(2e-3));
				q->SetExitWidth(2 * g.real(5e-3, 5e-2));
				q->SetExitHeight(2 * g.real(5e-3, 5e-2));
				p = q;
			}
			else
				p = a.type == "CIRCLE" ? static_cast<Aperture*>(new CircularAperture(a.p[0])) : a.type == "RECTANGLE" ? static_cast<Aperture*>(new RectangularAperture(a.p[0], a.p[1])) :
					a.type == "ELLIPSE" ? static_cast<Aperture*>(new EllipticalAperture("ELLIPSE", 0, a.p[0], a.p[1])) : new RectEllipseAperture("RECTELLIPSE", 0, a.p[0], a.p[1], a.p[2], a.p[3]);
			own.emplace_back(p);
			x.c->SetAperture(p);
		}
	ApertureSurvey::SurveyType mode = (ApertureSurvey::SurveyType) g.i(0, 2);
	double step = mode == ApertureSurvey::points_per_element ? g.i(1, 6) : g.pick({0.1, 0.25, 0.33, 1.0, 7.0});
	c.desc << "mode " << (int) mode << " step " << step;
	c.nontrivial(l.c.size() > 1);
	c.label(mode == ApertureSurvey::points_per_element ? "points_per_element" : mode == ApertureSurvey::distance ? "distance" : "abs_distance");
	std::string text;
	if(g.chance(1, 4))
	{
		ApertureSurvey::ApertureSurvey(l.m.get(), std::string("survey.txt"), mode, step);
		std::ifstream f("survey.txt");
		std::ostringstream o;
		o << f.rdbuf();
		text = o.str();
	}
	else
	{
		std::ostringstream o;
		if(g.b())
			o.precision(12);
		ApertureSurvey::ApertureSurvey(l.m.get(), &o, mode, step);
		text = o.str();
	}
	std::istringstream is(text);
	std::string line;
	std::getline(is, line);
	c.check(line[0] == '#', "header");
	struct W { size_t e; double z; };
	std::vector<W> want;
	std::vector<bool> got;
	for(size_t i = 0; i < l.c.size(); ++i)
	{
		auto& x = l.c[i];
		if(x.L == 0)
			continue;
		if(mode == ApertureSurvey::points_per_element)
			for(int k = 0; k < (int) step; ++k)
				want.push_back({i, step > 1 ? x.L * k / (step - 1) : 0});
		else if(mode == ApertureSurvey::distance)
		{
			for(int k = 0; k * step < x.L - 1e-9; ++k)
				want.push_back({i, k * step});
			want.push_back({i, x.L});
		}
		else
			for(int k = 0; k * step < x.s0 + x.L + 1e-9; ++k)
				if(k * step >= x.s0 - 1e-9)
					want.push_back({i, k * step - x.s0});
	}
	got.assign(want.size(), false);
	double lasts = -1;
	while(std::getline(is, line))
	{
		std::istringstream ls(line);
		std::string nm, ty;
		double se, len, s, lim[4];
		ls >> nm >> ty >> se >> len >> s >> lim[0] >> lim[1] >> lim[2] >> lim[3];
		c.check((bool) ls, "row: " + line);
		size_t i = std::stoul(nm.substr(1));
		c.check(i < l.c.size(), "name");
		auto& x = l.c[i];
		c.check(ty == x.c->GetType(), "type");
		c.near(se, x.s0 + x.L, 1e-5, 1e-6, "end of the element");
		c.near(len, x.L, 1e-5, 1e-6, "length of the element");
		c.check(s >= lasts - 1e-4, "the survey goes along the lattice");
		lasts = s;
		bool found = false;
		double z = 0;
		for(size_t k = 0; k < want.size(); ++k)
			if(want[k].e == i && std::fabs(want[k].z + x.s0 - s) < 1e-5 * std::max(1.0, s))
			{
				found = got[k] = true;
				z = want[k].z;
			}
		c.check(found, "surveyed position in " + nm + " at s=" + std::to_string(s) + " is one of those asked for");
		Aperture* a = x.c->GetAperture();
		for(int d = 0; d < 4; ++d)
		{
			if(!a)
			{
				c.near(lim[d], 1, 0, 1e-5, "no aperture");
				continue;
			}
			double ux = d == 0 ? 1 : d == 1 ? -1 : 0, uy = d == 2 ? 1 : d == 3 ? -1 : 0;
			double r = lim[d];
			// z is known to the printed precision only
			c.check(r < 5e-6 || a->CheckWithinApertureBoundaries(ux * (r - 5e-6), uy * (r - 5e-6), z), "just inside the reported width of " + nm + " " + std::to_string(r));
			c.check(!a->CheckWithinApertureBoundaries(ux * (r + 5e-6), uy * (r + 5e-6), z), "just outside the reported width of " + nm + " " + std::to_string(r));
		}
	}
	for(size_t k = 0; k < want.size(); ++k)
	{
		// a point on the boundary of two elements may belong to either
		auto& x = l.c[want[k].e];
		bool edge = mode == ApertureSurvey::abs_distance && (want[k].z < 1e-8 || want[k].z > x.L - 1e-8);
		c.check(got[k] || edge, "position z=" + std::to_string(want[k].z) + " of " + x.c->GetName() + " is surveyed");
	}
}
