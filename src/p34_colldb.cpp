// P34: collimators get the jaws and the material that the settings file describes.
#include "ring.h"
#include <fstream>
#include "Collimator.h"
#include "CollimatorAperture.h"
#include "CollimatorDatabase.h"
#include "MaterialData.h"
#include "LatticeFunctions.h"
#include "Aperture.h"
#include "RandomNG.h"
#include "MerlinException.h"
using namespace ring;
pbt::Info pbt::info = {"P34", "at least one collimator of the lattice is named in the file and the lattice has another element",
	"Collimators have a length and distinct names; components know their lattice position as the MAD interface sets it; points within 1e-7 of a jaw are not judged."};

namespace
{
struct Quiet
{
	std::streambuf* old;
	std::ostringstream sink;
	Quiet() :
		old(std::cout.rdbuf(sink.rdbuf()))
	{
	}
	~Quiet()
	{
		std::cout.rdbuf(old);
	}
};
struct Row
{
	std::string name, mat;
	double nx, ny, tilt, ox = 0, oy = 0;   // sigmas or full gaps
};
const char* const MATS[] = {"Cu", "W", "C", "Al", "Be"};
std::string num(Gen& g, double v)
{
	std::ostringstream s;
	s.precision(17);
	if(g.chance(1, 4))
		s << std::scientific;
	s << v;
	return s.str();
}
std::vector<Row> table(Gen& g, const std::vector<std::string>& names, bool sigma, const std::string& file)
{
	std::vector<Row> t;
	std::vector<std::string> pool = names;
	for(int k = g.i(0, 3); k > 0; --k)
		pool.push_back("OTHER" + std::to_string(k));
	for(size_t i = pool.size(); i > 1; --i)
		std::swap(pool[i - 1], pool[g.raw(i - 1)]);
	std::ofstream f(file);
	for(auto& n : pool)
	{
		if(g.chance(1, 5))
			continue;            // not in the file
		Row r;
		r.name = n;
		r.mat = MATS[g.i(0, 4)];
		r.nx = sigma ? g.real(1, 20) : g.logu(1e-4, 5e-2);
		r.ny = g.chance(1, 3) ? (sigma ? 99 : 1) : sigma ? g.real(1, 20) : g.logu(1e-4, 5e-2);
		r.tilt = g.pick({0.0, pi / 2, g.real(0, pi), g.sym(pi)});
		const char* sep = g.chance(1, 3) ? " " : "\t";
		std::string x = num(g, r.nx), y = num(g, r.ny), a = num(g, r.tilt);
		r.nx = std::stod(x);
		r.ny = std::stod(y);
		r.tilt = std::stod(a);
		f << r.name << sep << x << sep << y << sep << a << sep;
		if(!sigma)
		{
			if(g.chance(1, 2))
			{
				r.ox = g.sym(1e-2);
				r.oy = g.sym(1e-2);
			}
			std::string p = num(g, r.ox), q = num(g, r.oy);
			r.ox = std::stod(p);
			r.oy = std::stod(q);
			f << p << sep << q << sep << 0 << sep << 0 << sep << g.real(0.1, 2) << sep;
		}
		f << r.mat << (g.chance(1, 4) ? "\n\n" : "\n");
		t.push_back(r);
	}
	return t;
}
struct Jaws                 // half gaps and centre at one end
{
	double w, h, x, y;
};
// the beam passes between the jaws: points around the edges at the entrance, the exit and inside
void admits(Gen& g, Ctx& c, const Aperture& ap, const Jaws& a, const Jaws& b, double tilt, double L, bool oneside, const std::string& who)
{
	for(int k = 0; k < 24; ++k)
	{
		double z = k % 4 == 0 ? 0 : k % 4 == 1 ? L : g.real(0, L), t = z / L;
		double w = a.w + t * (b.w - a.w), h = a.h + t * (b.h - a.h), x0 = a.x + t * (b.x - a.x), y0 = a.y + t * (b.y - a.y);
		double u = w * (k < 12 ? g.pick({-1, 1}) * (1 + g.slogu(1e-4, 0.5)) : g.sym(1.5)), v = h * (k < 12 ? g.sym(0.9) : g.sym(1.5));
		if(k % 3 == 2)
		{
			u = w * g.sym(0.9);
			v = h * g.pick({-1, 1}) * (1 + g.slogu(1e-4, 0.5));
		}
		if(std::fabs(std::fabs(u) - w) < 1e-7 || std::fabs(std::fabs(v) - h) < 1e-7)
			continue;
		double x = x0 + u * std::cos(tilt) - v * std::sin(tilt), y = y0 + u * std::sin(tilt) + v * std::cos(tilt);
		bool in = (oneside ? u < w : std::fabs(u) < w) && std::fabs(v) < h;
		if(ap.CheckWithinApertureBoundaries(x, y, z) != in)
		{
			std::ostringstream s;
			s.precision(12);
			s << who << ": jaw coordinates (" << u << "," << v << ") of half gaps (" << w << "," << h << ") at z=" << z << " of " << L
			  << " should be " << (in ? "free" : "in the jaws");
			c.fail(s.str());
		}
	}
}
void optics(LatticeFunctionTable& tw)
{
	tw.RemoveAllFunctions();
	tw.AddFunction(0, 0, 0);
	tw.AddFunction(1, 0, 0);
	tw.AddFunction(3, 0, 0);
	tw.AddFunction(1, 1, 1);
	tw.AddFunction(3, 3, 2);
	tw.Calculate();
}
struct Lattice
{
	Ring r;
	std::vector<size_t> coll;            // indices of the collimators
	std::vector<std::string> names;
	std::vector<Aperture*> before;
	std::vector<MaterialProperties*> mat;
	std::vector<double> s;
};
Lattice lattice(Gen& g, Ctx& c, bool errors)
{
	Lattice l;
	Opts o;
	o.errors = errors;
	l.r.P0 = beam_momentum(g);
	for(int k = 0;; ++k)
	{
		draw(g, l.r, o);
		if(stable(l.r))
			break;
		if(k == 12)
			c.discard();
	}
	for(size_t i = 0; i < l.r.parts.size(); ++i)
	{
		Part& p = l.r.parts[i];
		if(p.kind == "drift" && p.L > 0.05 && g.chance(2, 3))
		{
			p.kind = "coll";
			p.name = g.chance(1, 6) ? std::string("TCDQA.") + "ABC"[l.coll.size() % 3] + "4R6.B1" : "TCP." + std::to_string(i);
			if(std::find(l.names.begin(), l.names.end(), p.name) != l.names.end())
				p.name = "TCS." + std::to_string(i);
			l.coll.push_back(i);
			l.names.push_back(p.name);
		}
	}
	if(l.coll.empty())
		c.discard();
	build(l.r);
	double s = 0;
	for(auto* x : l.r.comp)
	{
		x->SetComponentLatticePosition(s);
		l.s.push_back(s);
		s += x->GetLength();
		if(g.chance(1, 2))
			x->SetAperture(new CircularAperture(0.1));
		l.before.push_back(x->GetAperture());
		Collimator* k = dynamic_cast<Collimator*>(x);
		l.mat.push_back(k ? k->GetMaterialProperties() : nullptr);
	}
	c.desc << l.r.text();
	return l;
}
const Row* row_of(const std::vector<Row>& t, const std::string& n)
{
	for(auto& r : t)
		if(r.name == n)
			return &r;
	return nullptr;
}
void untouched(Ctx& c, Lattice& l, const std::vector<Row>& t)
{
	for(size_t i = 0; i < l.r.comp.size(); ++i)
	{
		bool k = l.r.parts[i].kind == "coll";
		if(k && row_of(t, l.r.parts[i].name))
			continue;
		c.check(l.r.comp[i]->GetAperture() == l.before[i], "the aperture of " + l.r.parts[i].name + ", which the file does not name, changed");
		if(k)
			c.check(static_cast<Collimator*>(l.r.comp[i])->GetMaterialProperties() == l.mat[i], "the material of " + l.r.parts[i].name + " changed");
	}
}
double spot(double bx, double ex, double by, double ey, double tilt)
{
	return std::sqrt(bx * ex * std::cos(tilt) * std::cos(tilt) + by * ey * std::sin(tilt) * std::sin(tilt));
}
}

LAW(gaps, 1500, 60000,
	"with gaps in the file every collimator named there, and nothing else, gets parallel jaws of the stated full gaps, tilt and centre and the stated material")
{
	Quiet q;
	Lattice l = lattice(g, c, false);
	std::vector<Row> t = table(g, l.names, false, "coll.db");
	StandardMaterialData* db = new StandardMaterialData;
	CollimatorDatabase d("coll.db", db, false);
	c.eq(d.number_collimators, t.size(), "collimators read");
	d.ConfigureCollimators(l.r.model.get());
	int hit = 0;
	for(size_t i : l.coll)
	{
		const Row* r = row_of(t, l.r.parts[i].name);
		if(!r)
			continue;
		++hit;
		Collimator* k = static_cast<Collimator*>(l.r.comp[i]);
		c.check(k->GetMaterialProperties() == db->property[r->mat], "material of " + r->name);
		c.check(k->GetAperture() != nullptr && k->GetAperture() != l.before[i], "no jaws at " + r->name);
		Jaws j{r->nx / 2, r->ny / 2, r->ox, r->oy};
		c.label(r->ox != 0, "offset");
		admits(g, c, *k->GetAperture(), j, j, r->tilt, k->GetLength(), false, r->name);
	}
	untouched(c, l, t);
	c.nontrivial(hit > 0);
}

LAW(sigmas, 800, 30000,
	"with settings in beam sizes the jaws stand at the stated number of standard deviations of the beam at the collimator itself, around the orbit: following the beam from entrance to exit, or straight and as wide as the wider end needs")
{
	Quiet q;
	bool errors = g.chance(2, 3), match = g.b();
	Lattice l = lattice(g, c, errors);
	std::vector<Row> t = table(g, l.names, true, "coll.db");
	StandardMaterialData* db = new StandardMaterialData;
	CollimatorDatabase d("coll.db", db, true);
	c.eq(d.number_collimators, t.size(), "collimators read");
	LatticeFunctionTable tw(l.r.model.get(), l.r.P0);
	optics(tw);
	double ex = g.logu(1e-10, 1e-6), ey = g.chance(1, 4) ? ex : g.logu(1e-10, 1e-6);
	if(!match || g.b())
		d.MatchBeamEnvelope(match);
	bool logged = g.chance(1, 3);
	std::ostringstream log;
	if(logged)
	{
		d.SetLogFile(log);
		d.EnableLogging(true);
	}
	std::string prim;
	double impact = 0;
	if(!t.empty() && g.chance(1, 2))
	{
		prim = t[g.raw(t.size() - 1)].name;
		impact = g.logu(1e-8, 1e-3);
		d.SelectImpactFactor(prim, impact);
	}
	c.desc << " ex=" << ex << " ey=" << ey << " match=" << match << " primary " << prim;
	double res = d.ConfigureCollimators(l.r.model.get(), ex, ey, &tw), want = 1;
	int hit = 0;
	for(size_t i : l.coll)
	{
		const Row* r = row_of(t, l.r.parts[i].name);
		if(!r)
			continue;
		++hit;
		std::string w = r->name + " tilt " + std::to_string(r->tilt);
		Collimator* k = static_cast<Collimator*>(l.r.comp[i]);
		c.check(k->GetMaterialProperties() == db->property[r->mat], "material of " + r->name);
		c.check(k->GetAperture() != nullptr && k->GetAperture() != l.before[i], "no jaws at " + r->name);
		Jaws e[2];
		for(int n = 0; n < 2; ++n)
		{
			double bx = tw.Value(1, 1, 1, i + n), by = tw.Value(3, 3, 2, i + n);
			e[n] = Jaws{r->nx * spot(bx, ex, by, ey, r->tilt), r->ny * spot(bx, ex, by, ey, r->tilt + pi / 2), tw.Value(1, 0, 0, i + n), tw.Value(3, 0, 0, i + n)};
		}
		if(r->name == prim)
			want = r->nx + impact / (e[0].w / r->nx);
		if(logged)
		{
			std::istringstream is(log.str());
			std::string line;
			bool found = false;
			while(std::getline(is, line))
			{
				std::istringstream ls(line);
				std::string n;
				int j;
				double v[7];
				if(!(ls >> n >> j) || n != r->name || j != (int) i)
					continue;
				for(double& x : v)
					ls >> x;
				c.check(bool(ls), "incomplete line of " + r->name + " in the log");
				found = true;
				c.near(v[0], l.s[i], 1e-4, 1e-9, w + " logged position");
				c.near(v[3], e[0].x, 1e-4, 1e-12, w + " logged orbit");
				c.near(v[4], e[0].y, 1e-4, 1e-12, w + " logged orbit");
				c.near(v[5], e[0].w, 1e-4, 0, w + " logged half gap");
				c.near(v[6], e[0].h, 1e-4, 0, w + " logged half gap");
			}
			c.check(found, r->name + " is not in the log");
		}
		if(!match)
		{
			// straight jaws that clear both ends; orbit offsets along x and y
			double x1 = std::max(e[0].x + e[0].w, e[1].x + e[1].w), x2 = std::min(e[0].x - e[0].w, e[1].x - e[1].w);
			double y1 = std::max(e[0].y + e[0].h, e[1].y + e[1].h), y2 = std::min(e[0].y - e[0].h, e[1].y - e[1].h);
			e[0] = e[1] = Jaws{(x1 - x2) / 2, (y1 - y2) / 2, (x1 + x2) / 2, (y1 + y2) / 2};
		}
		bool one = !match && r->name.substr(0, 5) == "TCDQA";
		c.label(one, "one-sided");
		admits(g, c, *k->GetAperture(), e[0], e[1], r->tilt, k->GetLength(), one, w);
	}
	c.near(res, want, 1e-9, 0, "impact in sigmas");
	untouched(c, l, t);
	c.nontrivial(hit > 0);
	c.label(errors, "orbit");
	c.label(!match, "straight jaws");
}

LAW(jaw_errors, 400, 15000,
	"alignment errors move and turn each jaw by at most three standard deviations in the collimation plane, around the error-free position, the same for the same seed")
{
	Quiet q;
	Lattice l = lattice(g, c, g.b());
	std::vector<Row> t = table(g, l.names, true, "coll.db");
	StandardMaterialData* db = new StandardMaterialData;
	LatticeFunctionTable tw(l.r.model.get(), l.r.P0);
	optics(tw);
	double ex = g.logu(1e-10, 1e-6), ey = g.logu(1e-10, 1e-6);
	double pos = g.chance(1, 3) ? 0 : g.logu(1e-12, 1e-8), ang = g.chance(1, 3) ? 0 : g.logu(1e-12, 1e-8);
	int seed = g.i(1, 1 << 30);
	c.desc << " position " << pos << " angle " << ang << " seed " << seed;
	std::map<size_t, std::array<double, 8> > first;
	int hit = 0;
	for(int rep = 0; rep < 2; ++rep)
	{
		RandomNG::init(seed);
		CollimatorDatabase d("coll.db", db, true);
		d.MatchBeamEnvelope(false);
		d.EnableJawAlignmentErrors(true);
		d.SetJawPositionError(pos);
		d.SetJawAngleError(ang);
		std::ostringstream log;
		if(g.b())
		{
			d.SetErrorLogFile(log);
			d.EnableErrorLogging(true);
		}
		d.ConfigureCollimators(l.r.model.get(), ex, ey, &tw);
		for(size_t i : l.coll)
		{
			const Row* r = row_of(t, l.r.parts[i].name);
			if(!r)
				continue;
			++hit;
			CollimatorAperture* a = dynamic_cast<CollimatorAperture*>(l.r.comp[i]->GetAperture());
			c.check(a != nullptr, "no jaws at " + r->name);
			std::array<double, 8> v{{a->GetFullEntranceWidth(), a->GetFullEntranceHeight(), a->GetFullExitWidth(), a->GetFullExitHeight(),
									 a->GetEntranceXOffset(), a->GetEntranceYOffset(), a->GetExitXOffset(), a->GetExitYOffset()}};
			if(rep)
			{
				c.check(v == first[i], "the same seed gives other jaws");
				continue;
			}
			first[i] = v;
			double bx = tw.Value(1, 1, 1, i), by = tw.Value(3, 3, 2, i), w = r->nx * spot(bx, ex, by, ey, r->tilt);
			double L = a->GetCollimatorLength(), p = 3 * std::sqrt(pos), b = 3 * L * std::sqrt(ang), whole = 3 * std::sqrt(2.5e-9);
			c.near(L, l.r.parts[i].L, 1e-12, 0, "length");
			c.near(a->GetCollimatorTilt(), r->tilt, 1e-15, 0, "tilt");
			// jaw positions along x relative to the orbit and the nominal gap
			double x0 = tw.Value(1, 0, 0, i), x1 = tw.Value(1, 0, 0, i + 1);
			double j1 = v[4] + v[0] / 2 - x0 - w, j2 = v[4] - v[0] / 2 - x0 + w;
			double k1 = v[6] + v[2] / 2 - x1 - w, k2 = v[6] - v[2] / 2 - x1 + w;
			double eps = 1e-12 + 1e-12 * w;
			c.check(std::fabs(j1) <= p + whole + eps && std::fabs(j2) <= p + whole + eps, r->name + ": a jaw moved too far");
			c.check(std::fabs(j1 - j2) <= 2 * p + eps, r->name + ": the gap changed too much");
			c.check(std::fabs(k1 - j1) <= b + eps && std::fabs(k2 - j2) <= b + eps, r->name + ": a jaw turned too far");
			if(pos > 1e-11)
				c.check(std::fabs(j1 - j2) > 1e-14, r->name + ": the jaws did not move independently");
			if(ang > 1e-11 && L > 0.1)
				c.check(std::fabs(k1 - j1) > 1e-14 && std::fabs(k2 - j2) > 1e-14 && std::fabs(k1 - j1 - (k2 - j2)) > 1e-15, r->name + ": the jaws did not turn independently");
			c.near(v[5], tw.Value(3, 0, 0, i), 0, 1e-15, "vertical centre");
			c.near(v[7], tw.Value(3, 0, 0, i + 1), 0, 1e-15, "vertical centre at the exit");
			c.near(v[1], 2 * r->ny * spot(bx, ex, by, ey, r->tilt + pi / 2), 1e-9, 0, "height");
		}
	}
	untouched(c, l, t);
	c.nontrivial(hit > 0 && pos + ang > 0);
}

LAW(materials, 150, 3000,
	"a file with a material that the material data do not have is refused, and the material data stay as they were")
{
	Quiet q;
	bool sigma = g.b();
	int n = g.i(1, 6), bad = g.i(-1, n - 1);
	{
		std::ofstream f("coll.db");
		for(int i = 0; i < n; ++i)
			f << "C" << i << (sigma ? " 6 7 0 " : " 0.1 0.2 0 0 0 0 0 1 ") << (i == bad ? g.pick({"Xx", "cu", "Unobtainium"}) : MATS[g.i(0, 4)]) << "\n";
	}
	c.nontrivial(bad >= 0);
	StandardMaterialData db;
	size_t had = db.property.size();
	auto read = [&]()
		{
			CollimatorDatabase d("coll.db", &db, sigma);
		};
	if(bad < 0)
		read();
	else
		c.check(pbt::throws<MerlinException>(read), "an unknown material was accepted");
	c.eq(db.property.size(), had, "materials");
}
