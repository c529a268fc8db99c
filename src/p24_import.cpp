// P24: importing an optics table builds the described lattice.
// Grammar-based generation of MAD-X tables and MAD8 tapes against a model of the rows.
#include "mlib.h"
#include <fstream>
#include <unistd.h>
#include <iomanip>
#include "MADInterface.h"
#include "XTFFInterface.h"
#include "AcceleratorModel.h"
#include "AcceleratorModelConstructor.h"
#include "SequenceFrame.h"
#include "ComponentFrame.h"
#include "BeamData.h"
#include "SWRFStructure.h"
#include "TWRFStructure.h"
#include "TransverseRFStructure.h"
#include "Collimator.h"
#include "CrabMarker.h"
#include "HollowElectronLens.h"
#include "RMSProfileMonitor.h"
#include "Aperture.h"
#include "MerlinIO.h"
#include "PhysicalConstants.h"
using namespace ml;
using std::string;
using std::vector;

pbt::Info pbt::info = {"P24",
	"Optics tables of 0-30 rows of every supported type, with nested lines, rotations, drift overrides and ignored zero lengths, in "
	"random column orders with unused columns, read at once or appended from several files, with and without radiation scaling; "
	"MAD8 tapes of every supported record. Non-trivial: at least two elements were built.",
	"Strength columns (also KS) are integrated strengths; types that the importer does not know are only generated without length; "
	"zero-length bends, multipoles, solenoids and cavities (whose strength per length is undefined) are not generated; pole-face "
	"angles are those of the E1 and E2 columns."};

namespace
{
struct Exp
{
	string type, name;
	double L = 0, z = 0;
	std::map<string, double> v;          // other values that the component must have
};
struct FrameExp
{
	string type, name;
	double L = 0;
};
struct Row
{
	std::map<string, string> s;
	std::map<string, double> d;
};
string num(double x)
{
	std::ostringstream o;
	o.precision(17);
	o << x;
	return o.str();
}
const vector<string>& texts()
{
	static vector<string> t{"NAME", "KEYWORD", "PARENT"};
	return t;
}
const vector<string>& numbers()
{
	static vector<string> t{"S", "L", "ANGLE", "K0L", "K1L", "K2L", "K3L", "K4L", "TILT", "E1", "E2", "HKICK", "VKICK", "KS", "FREQ", "LAG",
		"VOLT", "MUX", "MUY"};
	return t;
}
string table(Gen& g, const vector<Row>& rows, bool noangle)
{
	vector<string> cols = texts();
	for(auto& n : numbers())
		if(!(noangle && n == "ANGLE"))
			cols.push_back(n);
	int extra = g.i(0, 3);
	for(int k = 0; k < extra; ++k)
		cols.push_back("X" + std::to_string(k));
	if(g.b())
		for(size_t k = cols.size() - 1; k > 0; --k)
			std::swap(cols[k], cols[g.raw(k)]);
	std::ostringstream o;
	if(g.b())
		o << "@ NAME             %05s \"TWISS\"\n@ ENERGY           %le 7000\n";
	o << "*";
	for(auto& x : cols)
		o << " " << x;
	o << "\n$";
	auto text = [](const string& n)
		{
			return n == "NAME" || n == "KEYWORD" || n == "PARENT" || n == "X1";
		};
	for(auto& x : cols)
		o << " " << (text(x) ? "%s" : "%le");
	o << "\n";
	for(auto& r : rows)
	{
		for(auto& x : cols)
			if(text(x))
				o << " \"" << (r.s.count(x) ? r.s.at(x) : string("none")) << "\"";
			else
				o << " " << (r.d.count(x) ? num(r.d.at(x)) : x[0] == 'X' ? num(g.sym(1)) : string("0"));
		o << "\n";
	}
	return o.str();
}
struct FrameList: public FrameTraverser
{
	vector<FrameExp> f;
	void ActOn(LatticeFrame* x) override
	{
		if(dynamic_cast<SequenceFrame*>(x))
			f.push_back({x->GetType(), x->GetName(), x->GetGeometryLength()});
	}
};
void value(Ctx& c, const Exp& e, const string& k, double got, double rtol = 1e-12)
{
	auto i = e.v.find(k);
	double want = i == e.v.end() ? 0 : i->second;
	c.near(got, want, rtol, 1e-300, e.type + " " + e.name + ": " + k);
}
void compare(Ctx& c, AcceleratorModel& m, const vector<Exp>& ex, const vector<FrameExp>& frames, bool position)
{
	vector<AcceleratorComponent*> got;
	if(!ex.empty())                      // the beamline of an empty model is not defined
	{
		AcceleratorModel::Beamline bl = m.GetBeamline();
		for(auto i = bl.begin(); i != bl.end(); ++i)
			if((*i)->IsComponent())
				got.push_back(&(*i)->GetComponent());
	}
	size_t n = std::min(got.size(), ex.size());
	for(size_t k = 0; k < n; ++k)
	{
		AcceleratorComponent* a = got[k];
		const Exp& e = ex[k];
		string w = "element " + std::to_string(k) + " ";
		c.eq(string(a->GetType()), e.type, w + "type (" + e.name + ")");
		c.eq(a->GetName(), e.name, w + "name");
		c.near(a->GetLength(), e.L, 1e-12, 1e-15, w + e.type + " " + e.name + " length");
		if(position)
			c.near(a->GetComponentLatticePosition(), e.z, 1e-12, 1e-12, w + e.type + " position");
		if(auto* b = dynamic_cast<SectorBend*>(a))
		{
			value(c, e, "B0", b->GetB0());
			value(c, e, "B1", b->GetB1());
			value(c, e, "h", b->GetGeometry().GetCurvature());
			value(c, e, "tilt", b->GetGeometry().GetTilt());
			auto& p = b->GetPoleFaceInfo();
			value(c, e, "e1", p.entrance ? p.entrance->rot : 0);
			value(c, e, "e2", p.exit ? p.exit->rot : 0);
			for(int i = 2; i < 5; ++i)
				c.check(b->GetField().GetComponent(i) == 0.0, w + "other field components of a bend");
		}
		else if(auto* r = dynamic_cast<RectMultipole*>(a))
			for(int i = 0; i < 6; ++i)
			{
				std::complex<double> z = r->GetField().GetComponent(i);
				value(c, e, "b" + std::to_string(i), z.real());
				value(c, e, "a" + std::to_string(i), z.imag());
			}
		else if(auto* s = dynamic_cast<Solenoid*>(a))
			value(c, e, "Bz", s->GetBz());
		else if(auto* f = dynamic_cast<RFStructure*>(a))
		{
			value(c, e, "freq", f->GetFrequency());
			value(c, e, "volt", f->GetVoltage(), 1e-9);
			c.near(f->GetPhase(), e.v.count("phase") ? e.v.at("phase") : 0, 1e-12, 1e-12, w + "phase");
			if(auto* t = dynamic_cast<TransverseRFStructure*>(a))
				value(c, e, "theta", t->GetFieldOrientation());
		}
		else if(auto* x = dynamic_cast<CrabMarker*>(a))
		{
			value(c, e, "mux", x->GetMuX());
			value(c, e, "muy", x->GetMuY());
		}
		if(auto* ap = a->GetAperture())
		{
			c.check(e.v.count("aper") || e.v.count("xgap"), w + "an aperture that was not described");
			if(e.v.count("aper"))
			{
				double R = e.v.at("aper");
				c.check(ap->CheckWithinApertureBoundaries(0.999 * R, 0, 0) && !ap->CheckWithinApertureBoundaries(1.001 * R, 0, 0)
					&& ap->CheckWithinApertureBoundaries(0.7 * R, 0.7 * R, 0) && !ap->CheckWithinApertureBoundaries(-0.71 * R, 0.71 * R, 0),
					w + "circular aperture of radius " + num(R));
			}
			else
			{
				double X = e.v.at("xgap"), Y = e.v.at("ygap");
				c.check(ap->CheckWithinApertureBoundaries(0.999 * X, -0.999 * Y, 0) && !ap->CheckWithinApertureBoundaries(1.001 * X, 0, 0)
					&& !ap->CheckWithinApertureBoundaries(0, 1.001 * Y, 0), w + "rectangular aperture of half gaps " + num(X) + "," + num(Y));
			}
		}
		else
			c.check(!e.v.count("aper") && !e.v.count("xgap"), w + e.name + ": the aperture is missing");
	}
	c.eq(got.size(), ex.size(), "number of elements");
	FrameList fl;
	m.GetGlobalFrame().Traverse(fl);
	// the first one is the global frame
	c.eq(fl.f.size(), frames.size() + 1, "number of frames");
	for(size_t k = 0; k < frames.size(); ++k)
	{
		c.eq(fl.f[k + 1].name, frames[k].name, "name of frame " + std::to_string(k));
		c.eq(fl.f[k + 1].type, frames[k].type, "type of frame " + frames[k].name);
		c.near(fl.f[k + 1].L, frames[k].L, 1e-12, 1e-12, "length of frame " + frames[k].name);
	}
	double L = 0;
	for(auto& e : ex)
		L += e.L;
	c.near(fl.f[0].L, L, 1e-12, 1e-12, "length of the model");
	c.nontrivial(ex.size() >= 2);
}
struct Options
{
	bool flat = false, honour = false, sr = false, single = false, noangle = false;
	std::set<string> drift, zero;
};
// model of the importer: rows and what they become
struct Mad
{
	Options o;
	double P = 1, z = 0;
	vector<Row> rows;
	vector<Exp> ex;
	vector<FrameExp> frames;
	vector<int> open;                  // enclosing frames (index into frames, -1: a line without frame)
	vector<string> openname;
	int count = 0;
	void add(Exp e)
	{
		e.z = z;
		z += e.L;
		for(int i : open)
			if(i >= 0)
				frames[i].L += e.L;
		ex.push_back(e);
	}
	string name(Gen& g, const string& p)
	{
		return g.chance(1, 4) ? p + "_SAME" : p + "." + std::to_string(++count);
	}
	void line(Gen& g)
	{
		Row r;
		r.s["KEYWORD"] = "LINE";
		if(!openname.empty() && g.b())
		{
			r.s["NAME"] = openname.back();
			rows.push_back(r);
			openname.pop_back();
			open.pop_back();
			return;
		}
		string n = string(g.pick({"G_", "S_", "F_", "M_", "LINE", "ARC"})) + "N" + std::to_string(++count);
		r.s["NAME"] = n;
		rows.push_back(r);
		openname.push_back(n);
		if(o.flat || (n[1] != '_' && !o.honour))
		{
			open.push_back(-1);
			return;
		}
		FrameExp f;
		f.name = n[1] == '_' ? n.substr(2) : n;
		f.type = n[1] != '_' || n[0] == 'F' ? "SequenceFrame" : n[0] == 'S' ? "SimpleMount" : n[0] == 'G' ? "GirderMount" : "MagnetMover";
		open.push_back(frames.size());
		frames.push_back(f);
	}
	void closeall()
	{
		while(!openname.empty())
		{
			Row r;
			r.s["KEYWORD"] = "LINE";
			r.s["NAME"] = openname.back();
			rows.push_back(r);
			openname.pop_back();
			open.pop_back();
		}
	}
	void row(Gen& g)
	{
		static const vector<string> kinds{"DRIFT", "QUADRUPOLE", "SBEND", "RBEND", "SEXTUPOLE", "OCTUPOLE", "SKEWQUAD", "SKEWSEXT", "HKICKER",
			"VKICKER", "MARKER", "MONITOR", "SOLENOID", "RFCAVITY", "LCAV", "RCOLLIMATOR", "ECOLLIMATOR", "COLLIMATOR", "XCOR", "YCOR",
			"INSTRUMENT", "HMONITOR", "VMONITOR", "KICKER", "TKICKER", "PLACEHOLDER", "MATRIX", "CRABMARKER", "CRABRF", "HEL", "TRANSLATION"};
		string kind = g.pick(kinds);
		Row r;
		double brho = 1 / per_brho(P);
		Exp e;
		e.name = name(g, kind);
		double L = length(g, 0.1, 5);
		static const std::set<string> may0{"DRIFT", "HKICKER", "VKICKER", "MARKER", "MONITOR", "RCOLLIMATOR", "ECOLLIMATOR", "COLLIMATOR",
			"XCOR", "YCOR", "INSTRUMENT", "HMONITOR", "VMONITOR", "KICKER", "TKICKER", "PLACEHOLDER", "MATRIX", "CRABMARKER", "HEL"};
		if((may0.count(kind) && g.chance(1, 3)) || kind == "TRANSLATION")
			L = 0;
		if(kind == "MARKER")
			L = 0;
		double f = 0;
		int cells = 0;
		if(kind == "RFCAVITY" || kind == "LCAV")
		{
			f = g.pick({400.8, 200.0, 1300.0, 500.0}) * g.real(0.9, 1.1);
			cells = g.i(1, 9);
			L = cells * CLIGHT / (f * 1e6) / 2;
		}
		if(kind == "MONITOR" && g.b())
			e.name = g.pick({"WS", "WS", "WS", "W", "S", "BWS", "ws"}) + e.name;
		r.s["NAME"] = e.name;
		r.s["KEYWORD"] = kind;
		r.s["PARENT"] = kind;
		r.d["L"] = L;
		r.d["S"] = z + L;
		// values that this type does not use
		for(auto* k : {"K1L", "K2L", "K3L", "TILT", "E1", "E2", "HKICK", "VKICK", "KS", "FREQ", "LAG", "VOLT", "MUX", "MUY", "K4L"})
			r.d[k] = g.chance(1, 3) ? g.sym(1) : 0;
		double ang = g.slogu(1e-4, 0.3);
		r.d["ANGLE"] = ang;
		r.d["K0L"] = kind == "RBEND" && !o.noangle && g.b() ? 0 : ang;
		if(f)
		{
			r.d["FREQ"] = f;
			r.d["VOLT"] = g.sym(20);
			r.d["LAG"] = g.chance(1, 3) ? g.pick({0.0, 0.5, 0.25}) : g.sym(1);
		}
		rows.push_back(r);
		if(L == 0 && o.zero.count(kind))
			return;
		auto& d = r.d;
		e.L = L;
		if(o.drift.count(kind))
		{
			e.type = "Drift";
			if(L != 0)
				add(e);
			return;
		}
		double K[] = {0, d["K1L"], d["K2L"], d["K3L"]};
		auto mp = [&](const char* t, int n, bool skew)
			{
				e.type = t;
				double fac[] = {1, 1, 2, 6};
				e.v[string(skew ? "a" : "b") + std::to_string(n)] = K[n] / L * brho / fac[n];
			};
		if(kind == "DRIFT")
		{
			e.type = "Drift";
			if(L == 0)
				return;
		}
		else if(kind == "TRANSLATION")
			return;
		else if(kind == "QUADRUPOLE")
			mp("Quadrupole", 1, false);
		else if(kind == "SKEWQUAD")
			mp("SkewQuadrupole", 1, true);
		else if(kind == "SEXTUPOLE")
			mp("Sextupole", 2, false);
		else if(kind == "SKEWSEXT")
			mp("SkewSextupole", 2, true);
		else if(kind == "OCTUPOLE")
			mp("Octupole", 3, false);
		else if(kind == "SBEND" || kind == "RBEND")
		{
			e.type = "SectorBend";
			e.v["h"] = ang / L;
			e.v["B0"] = ang / L * brho;
			e.v["B1"] = K[1] / L * brho;
			e.v["tilt"] = d["TILT"];
			e.v["e1"] = d["E1"];
			e.v["e2"] = d["E2"];
			if(o.sr)
				P -= 8.85e-5 / twoPi * P * P * P * P * ang * ang / L;
		}
		else if(kind == "HKICKER")
		{
			e.type = "XCor";
			e.v["b0"] = -d["HKICK"] * brho / (L > 0 ? L : 1);
		}
		else if(kind == "VKICKER")
		{
			e.type = "YCor";
			e.v["a0"] = d["VKICK"] * brho / (L > 0 ? L : 1);
		}
		else if(kind == "XCOR")
			e.type = "XCor";
		else if(kind == "YCOR")
			e.type = "YCor";
		else if(kind == "MARKER")
			e.type = "Marker";
		else if(kind == "MONITOR")
			e.type = e.name.substr(0, 2) == "WS" ? "RMSProfileMonitor" : "BPM";
		else if(kind == "SOLENOID")
		{
			e.type = "Solenoid";
			e.v["Bz"] = d["KS"] / L * brho;
		}
		else if(f)
		{
			e.type = "SWRFStructure";
			e.v["freq"] = f * 1e6;
			e.v["volt"] = d["VOLT"] * 1e-3;
			e.v["phase"] = twoPi * (d["LAG"] - 0.25);
			if(o.single)
			{
				e.L = CLIGHT / (f * 1e6) / 2;
				add(e);
				Exp t;
				t.type = "Drift";
				t.name = "Drift_" + e.name;
				t.L = L - e.L;
				add(t);
				return;
			}
		}
		else if(kind.find("COLL") != string::npos)
			e.type = "Collimator";
		else if(kind == "CRABMARKER")
		{
			e.type = "CrabMarker";
			e.v["mux"] = d["MUX"];
			e.v["muy"] = d["MUY"];
		}
		else if(kind == "CRABRF")
			e.type = "TransverseRFStructure";
		else if(kind == "HEL")
			e.type = "HollowElectronLens";
		else
		{
			// instruments, monitors of one plane, kickers of unknown kind
			e.type = "Drift";
			if(L == 0)
				return;
		}
		add(e);
	}
};
string summary(const vector<Row>& r)
{
	string s;
	for(auto& x : r)
		s += x.s.at("KEYWORD") + (x.d.count("L") && x.d.at("L") == 0 ? "(0) " : " ");
	return s;
}
void generate(Gen& g, Mad& m, int lo, int hi)
{
	int n = g.len(lo, hi);
	for(int k = 0; k < n; ++k)
		if(g.chance(1, 8))
			m.line(g);
		else
			m.row(g);
	m.closeall();
}
void options(Gen& g, Options& o)
{
	o.flat = g.chance(1, 4);
	o.honour = g.chance(1, 3);
	o.sr = g.chance(1, 4);
	o.single = g.chance(1, 4);
	o.noangle = !o.sr && g.chance(1, 8);   // the loss in bends needs the angles
	o.zero.insert("RCOLLIMATOR");
	for(int k = g.i(0, 2); k > 0; --k)
		o.zero.insert(g.pick({"MARKER", "MONITOR", "ECOLLIMATOR", "HKICKER", "DRIFT"}));
	for(int k = g.i(0, 2); k > 0; --k)
	{
		string d = g.pick({"QUADRUPOLE", "ECOLLIMATOR", "RCOLLIMATOR", "LCAV", "RFCAVITY", "MONITOR", "SOLENOID", "SEXTUPOLE", "SBEND", "RBEND", "HEL"});
		if(!(o.sr && d[1] == 'B'))     // the loss in a bend that is not one
			o.drift.insert(d);
	}
}
void configure(MADInterface& i, const Options& o, std::ostream& log, Gen& g)
{
	i.SetLogFile(log);
	if(g.b())
		i.SetLoggingOn();
	if(o.flat)
		i.ConstructFlatLattice(true);
	if(o.honour)
		i.HonourMadStructure(true);
	if(o.sr)
		i.ScaleForSynchRad(true);
	if(o.single)
		i.SetSingleCellRF(true);
	for(auto& x : o.zero)
		i.IgnoreZeroLengthType(x);
	for(auto& x : o.drift)
		i.TreatTypeAsDrift(x);
}
string text(const Options& o)
{
	string s = string(o.flat ? "flat " : "") + (o.honour ? "honour " : "") + (o.sr ? "radiation " : "") + (o.single ? "single-cell " : "")
		+ (o.noangle ? "no ANGLE " : "");
	for(auto& d : o.drift)
		s += d + "->drift ";
	return s;
}
struct Quiet
{
	Quiet()
	{
		static std::ofstream null("/dev/null");
		MerlinIO::std_warn = &null;
		MerlinIO::std_err = &null;
	}
};
}

LAW(mad, 6000, 100000, "a MAD-X table becomes one element per row, with its type, name, length, fields and position, in the frames of its lines")
{
	Quiet quiet;
	Mad m;
	m.P = g.pick({7000.0, 450.0, 5.0, 1.0}) * g.real(0.9, 1.1);
	options(g, m.o);
	if(m.o.sr)
		m.P = g.real(0.5, 5);
	double P0 = m.P;
	generate(g, m, 0, 30);
	string t = table(g, m.rows, m.o.noangle);
	c.desc << text(m.o) << "P0=" << P0 << " " << summary(m.rows);
	std::istringstream is(t);
	std::ostringstream log;
	MADInterface mi(&is, P0);
	configure(mi, m.o, log, g);
	std::unique_ptr<AcceleratorModel> model(mi.ConstructModel());
	c.check(model != nullptr, "no model");
	compare(c, *model, m.ex, m.frames, true);
	c.near(mi.GetMomentum(), m.P, 1e-12, 0, "momentum after the import");
	c.label(!m.frames.empty(), "frames");
	c.label(m.o.sr, "radiation");
}

LAW(append, 1500, 20000, "a model appended from several tables is the concatenation of them, each at its own momentum")
{
	Quiet quiet;
	Mad m;
	options(g, m.o);
	m.o.sr = false;
	int n = g.i(1, 3);
	vector<string> files;
	vector<double> P;
	for(int k = 0; k < n; ++k)
	{
		m.P = g.real(1, 100);
		P.push_back(m.P);
		m.rows.clear();
		generate(g, m, 0, 10);
		c.desc << "P=" << m.P << " " << summary(m.rows) << "; ";
		files.push_back("part" + std::to_string(k) + ".tfs");
		std::ofstream(files.back()) << table(g, m.rows, m.o.noangle);
	}
	std::ostringstream log;
	MADInterface mi(files[0], P[0]);
	configure(mi, m.o, log, g);
	for(int k = 0; k < n; ++k)
		mi.AppendModel(files[k], P[k]);
	std::unique_ptr<AcceleratorModel> model(mi.GetModel());
	for(auto& f : files)
		unlink(f.c_str());
	c.check(model != nullptr, "no model");
	compare(c, *model, m.ex, m.frames, true);
}

// MAD8 tapes: five lines per element, fixed columns
namespace
{
struct Rec
{
	string key, label;
	double d[11] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
};
string field(double x, int w)
{
	std::ostringstream o;
	o << std::setw(w) << std::setprecision(w == 12 ? 6 : 9) << std::uppercase << std::scientific << x;
	string s = o.str();
	return s.substr(0, w);
}
double rounded(double x, int w)
{
	return atof(field(x, w).c_str());
}
string record(const Rec& r)
{
	std::ostringstream o;
	o << std::left << std::setw(4) << r.key << std::setw(16) << r.label << field(r.d[0], 12);
	for(int k = 1; k < 5; ++k)
		o << field(r.d[k], 16);
	o << " " << std::setw(16) << "TYPE" << " " << field(r.d[5], 16) << "\n";
	for(int k = 6; k < 11; ++k)
		o << field(r.d[k], 16);
	o << "\n";
	return o.str();
}
string five(double a, double b, double c, double d, double e)
{
	return field(a, 16) + field(b, 16) + field(c, 16) + field(d, 16) + field(e, 16) + "\n";
}
struct Tape
{
	string body;
	vector<Exp> ex;
	vector<FrameExp> frames;
	vector<string> open;
	vector<int> openidx;
	int n = 0, count = 0;
	double P = 1;
	bool apertures = true, girders = false;
	double Qt = 0;
	std::set<string> drift;
	string keys;
	void put(Gen& g, const Rec& r)
	{
		body += record(r);
		for(int k = 0; k < 3; ++k)
			body += five(g.sym(1), g.sym(1), g.sym(1), g.sym(1), g.sym(1));
		++n;
		keys += r.key + " ";
	}
	void add(const Exp& e)
	{
		for(int i : openidx)
			frames[i].L += e.L;
		ex.push_back(e);
	}
	void element(Gen& g)
	{
		if(girders && g.chance(1, 6))
		{
			Rec r;
			r.key = "MARK";
			if(!open.empty() && g.b())
			{
				r.label = open.back();
				open.pop_back();
				openidx.pop_back();
			}
			else
			{
				r.label = string(g.pick({"G_", "S_", "F_", "M_"})) + "N" + std::to_string(++count);
				open.push_back(r.label);
				openidx.push_back(frames.size());
				char t = r.label[0];
				frames.push_back({t == 'F' ? "SequenceFrame" : t == 'S' ? "SimpleMount" : t == 'G' ? "GirderMount" : "MagnetMover",
					r.label.substr(2), 0});
			}
			put(g, r);
			return;
		}
		static const vector<string> kinds{"DRIF", "QUAD", "SBEN", "RBEN", "SEXT", "OCTU", "LCAV", "SOLE", "HKIC", "VKIC", "MONI", "HMON", "VMON",
			"WIRE", "MARK", "RCOL", "INST"};
		Rec r;
		r.key = g.pick(kinds);
		r.label = r.key + std::to_string(++count);
		double brho = 1 / per_brho(P);
		Exp e;
		bool thin = r.key == "HKIC" || r.key == "VKIC" || r.key == "MONI" || r.key == "WIRE" || r.key == "HMON" || r.key == "VMON";
		double L = (thin && g.b()) || r.key == "MARK" ? 0 : rounded(g.real(0.1, 5), 12);
		r.d[0] = e.L = L;
		auto set = [&](int i, double x)
			{
				return r.d[i] = rounded(x, 16);
			};
		double ap = r.key == "SBEN" || r.key == "RBEN" || r.key == "RCOL" || g.b() ? 0 : set(4, g.real(0.01, 0.1));
		set(5, g.real(1, 100));
		bool drift_it = drift.count(r.key == "HMON" || r.key == "VMON" ? "MONI" : r.key);
		string k = r.key;
		if(k == "QUAD" || k == "SEXT")
		{
			int n = k == "QUAD" ? 1 : 2;
			bool skew = g.chance(1, 3);
			double K = set(n + 1, g.sym(2));
			if(skew)
				set(6, n == 1 ? pi / 4 : pi / 6);
			e.type = string(skew ? "Skew" : "") + (n == 1 ? "Quadrupole" : "Sextupole");
			e.v[string(skew ? "a" : "b") + std::to_string(n)] = K * brho / n;
		}
		else if(k == "SBEN" || k == "RBEN")
		{
			double ang = set(1, g.slogu(1e-3, 0.3)), K = g.b() ? set(2, g.sym(1)) : 0, tilt = g.chance(1, 4) ? set(6, g.sym(1)) : 0;
			double e1 = g.b() ? set(7, g.sym(0.3)) : 0, e2 = g.b() ? set(8, g.sym(0.3)) : 0;
			e.type = "SectorBend";
			double h = ang / L;
			if(k == "RBEN")
			{
				// the tape gives the length of the chord, the faces are parallel
				h = 2 * std::sin(ang / 2) / L;
				e.L = ang / h;
				e1 = e2 = ang / 2;
			}
			e.v["h"] = h;
			e.v["B0"] = h * brho;
			e.v["B1"] = K * brho;
			e.v["tilt"] = tilt;
			e.v["e1"] = e1;
			e.v["e2"] = e2;
		}
		else if(k == "OCTU")
		{
			e.type = "Octupole";
			e.v["b3"] = set(7, g.sym(100)) * brho / 6;
		}
		else if(k == "LCAV")
		{
			double f = set(7, g.real(100, 3000)), V = set(8, g.sym(30)), lag = set(9, g.sym(0.5)), loss = g.b() ? set(10, g.real(0, 1e15)) : 0;
			e.v["freq"] = f * 1e6;
			e.v["volt"] = V * 1e-3;
			e.v["phase"] = twoPi * lag;
			if(g.chance(1, 3))
			{
				bool v = g.b();
				r.label = string("CRAB") + (v ? "V" : "H") + std::to_string(count);
				e.type = "TransverseRFStructure";
				e.v["theta"] = v ? pi / 2 : 0;
			}
			else
			{
				e.type = "TWRFStructure";
				if(!drift_it)
					P += V * 1e-3 * std::cos(twoPi * lag) - loss * Qt * 1e-9;
			}
		}
		else if(k == "SOLE")
		{
			e.type = "Solenoid";
			e.v["Bz"] = set(7, g.sym(1)) * brho;
		}
		else if(k == "HKIC")
			e.type = "XCor";
		else if(k == "VKIC")
			e.type = "YCor";
		else if(k == "MONI" || k == "HMON" || k == "VMON")
			e.type = "BPM";
		else if(k == "WIRE")
			e.type = "RMSProfileMonitor";
		else if(k == "MARK")
			e.type = "Marker";
		else
		{
			e.type = "Drift";
			if(k == "RCOL")
			{
				double x = set(6, g.real(0.001, 0.02)), y = set(7, g.real(0.001, 0.02));
				if(apertures && !drift_it)
				{
					e.v["xgap"] = x;
					e.v["ygap"] = y;
				}
			}
		}
		if(drift_it)
		{
			e.type = "Drift";
			e.L = L;
		}
		if(apertures && ap)
			e.v["aper"] = ap;
		e.name = r.label;
		put(g, r);
		add(e);
	}
	void closeall(Gen& g)
	{
		while(!open.empty())
		{
			Rec r;
			r.key = "MARK";
			r.label = open.back();
			open.pop_back();
			openidx.pop_back();
			put(g, r);
		}
	}
	string text(Gen& g, double p0, const double* b)
	{
		std::ostringstream o;
		o << std::left << std::setw(56) << "MAD8.51 TAPE" << std::right << std::setw(9) << n + 1 << "\nheader line\n";
		Rec r;
		r.label = "INITIAL";
		r.d[5] = p0;
		o << record(r);
		// alfx betx mux dx dpx / alfy bety muy dy dpy / x px y py suml
		o << five(b[0], b[1], 0.1, b[2], b[3]) << five(b[4], b[5], 0.2, b[6], b[7]) << five(b[8], b[9], b[10], b[11], 0);
		return o.str() + body;
	}
};
}

LAW(tape, 5000, 60000, "a MAD8 tape becomes one element per record, with its type, name, length, fields and aperture, and the energy follows its cavities")
{
	Quiet quiet;
	int parts = g.chance(1, 3) ? 2 : 1;
	bool override = parts == 1 && g.chance(1, 3);
	double p0 = rounded(g.real(1, 300), 16), pref = override ? g.real(1, 300) : p0;
	Tape t;
	t.apertures = g.b();
	t.girders = g.b();
	for(int k = g.i(0, 2); k > 0; --k)
		t.drift.insert(g.pick({"QUAD", "LCAV", "MONI", "RCOL", "SOLE", "SBEN"}));
	double nb = g.b() ? 0 : g.real(1e9, 1e11);
	t.Qt = nb * PhysicalConstants::ElectronCharge;
	t.P = pref;
	double b[12];
	for(double& x : b)
		x = rounded(g.sym(10), 16);
	vector<string> files;
	for(int k = 0; k < parts; ++k)
	{
		t.body.clear();
		t.n = 0;
		int n = g.len(0, 20);
		for(int i = 0; i < n; ++i)
		{
			t.element(g);
			if(t.P < 0.05)
				c.discard();
		}
		t.closeall(g);
		files.push_back("tape" + std::to_string(k));
		std::ofstream(files.back()) << t.text(g, k ? p0 + 5 : p0, b);
	}
	c.desc << (t.apertures ? "apertures " : "") << (t.girders ? "girders " : "") << "p0=" << p0 << (override ? " given " + num(pref) : "")
		   << " N=" << nb << " " << parts << " parts: " << t.keys;
	std::ostringstream log;
	std::streambuf* old = std::cerr.rdbuf(log.rdbuf());
	std::pair<AcceleratorModel*, BeamData*> r;
	{
		std::unique_ptr<XTFFInterface> x(parts == 1 ? new XTFFInterface(files[0], nb, g.b() ? &log : nullptr)
			: new XTFFInterface(nb, g.b() ? &log : nullptr));
		x->IncludeApertures(t.apertures);
		x->ConstructGirders(t.girders);
		for(auto& d : t.drift)
			x->TreatTypeAsDrift(d == "QUAD" ? "quadrupole" : d);
		if(parts == 1)
			r = override ? x->Parse(pref) : x->Parse();
		else
		{
			for(auto& f : files)
				x->AppendModel(f);
			r = x->GetModel();
		}
	}
	std::cerr.rdbuf(old);
	for(auto& f : files)
		unlink(f.c_str());
	std::unique_ptr<AcceleratorModel> model(r.first);
	std::unique_ptr<BeamData> beam(r.second);
	c.check(model && beam, "no model or beam");
	for(auto& e : t.ex)
		for(auto& v : e.v)
			if(v.first == "B0" || v.first == "B1" || v.first[0] == 'b')
				c.label("fields");
	compare(c, *model, t.ex, t.frames, false);
	double got[] = {beam->alpha_x, beam->beta_x, beam->Dx, beam->Dxp, beam->alpha_y, beam->beta_y, beam->Dy, beam->Dyp, beam->x0, beam->xp0,
		beam->y0, beam->yp0};
	for(int i = 0; i < 12; ++i)
		c.near(got[i], b[i], 1e-14, 0, "initial beam parameter " + std::to_string(i));
	c.near(beam->p0, pref, 1e-14, 0, "initial momentum");
	c.near(beam->charge, nb, 1e-14, 0, "bunch population");
}

LAW(missing, 300, 2000, "a missing file is reported and leaves nothing broken")
{
	Quiet quiet;
	bool thrown = false;
	int k = g.i(0, 2);
	try
	{
		if(k == 0)
			XTFFInterface x("does-not-exist");
		else if(k == 1)
		{
			XTFFInterface x;
			x.AppendModel("does-not-exist");
		}
		else
			MADInterface x("does-not-exist", 1);
	}
	catch(const std::exception&)
	{
		thrown = true;
	}
	c.check(thrown, "a missing file is not reported");
	c.nontrivial();
}
