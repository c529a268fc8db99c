// P31: applied errors hit exactly the selected elements with the stated size.
#include "mlib.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "AcceleratorErrors.h"
#include "SequenceFrame.h"
#include "ComponentFrame.h"
#include "SupportStructure.h"
#include "RandomNG.h"
using namespace ml;
using std::string;

pbt::Info pbt::info = {"P31",
	"Lines of 1-25 elements of several types and repeated names, also on mounts and girders, whole or a part of them, histories of 1-6 "
	"applications of shifts and rotations (set or added, rms of 1 pm to 1 mm or zero, any mean, any pattern). Non-trivial: an "
	"application that hits some but not all of the elements.",
	"Values come from the report of the applications, printed exactly, and are judged as normal numbers at about 1e-9; the frames are "
	"compared with frames of an identical model that is moved by hand."};

namespace
{
bool glob(const char* p, const char* s)
{
	if(!*p)
		return !*s;
	if(*p == '*')
		return glob(p + 1, s) || (*s && glob(p, s + 1));
	return *p == *s && glob(p + 1, s + 1);
}
struct All: public FrameTraverser
{
	std::vector<LatticeFrame*> f;
	void ActOn(LatticeFrame* x) override
	{
		f.push_back(x);
	}
};
struct Line
{
	std::unique_ptr<AcceleratorModel> m;
	std::vector<LatticeFrame*> frames;     // of the beamline
	std::vector<LatticeFrame*> all;
};
struct Spec
{
	int kind;
	string name;
	double L;
};
Line build(const std::vector<Spec>& spec)
{
	AcceleratorModelConstructor mc;
	mc.NewModel();
	for(auto& s : spec)
		switch(s.kind)
		{
		case 0:
			mc.AppendComponent(*new Drift(s.name, s.L));
			break;
		case 1:
			mc.AppendComponent(*new Quadrupole(s.name, s.L, 1));
			break;
		case 2:
			mc.AppendComponent(*new BPM(s.name, 0));
			break;
		case 3:
			mc.AppendComponent(*new SectorBend(s.name, s.L, 0.05, 1));
			break;
		case 4:
			mc.AppendComponent(*new Sextupole(s.name, s.L, 1));
			break;
		case 5:
			mc.NewFrame(new GirderMount(s.name));
			break;
		case 6:
			mc.NewFrame(new SimpleMount(s.name));
			break;
		default:
			mc.EndFrame();
		}
	Line l;
	l.m.reset(mc.GetModel());
	AcceleratorModel::Beamline b = l.m->GetBeamline();
	for(auto i = b.begin(); i != b.end(); ++i)
		l.frames.push_back(*i);
	All a;
	l.m->GetGlobalFrame().Traverse(a);
	l.all = a.f;
	return l;
}
void same(Ctx& c, const Transform3D& a, const Transform3D& b, const string& what)
{
	double s = std::max(1.0, std::fabs(b.X().x) + std::fabs(b.X().y) + std::fabs(b.X().z));
	c.near(a.X().x, b.X().x, 0, 1e-14 * s, what + " x");
	c.near(a.X().y, b.X().y, 0, 1e-14 * s, what + " y");
	c.near(a.X().z, b.X().z, 0, 1e-14 * s, what + " z");
	for(int k = 0; k < 3; ++k)
	{
		Vector3D e(k == 0, k == 1, k == 2), u = a.R()(e), v = b.R()(e);
		c.near(u.x, v.x, 0, 1e-14, what + " axes");
		c.near(u.y, v.y, 0, 1e-14, what + " axes");
		c.near(u.z, v.z, 0, 1e-14, what + " axes");
	}
}
std::vector<Spec> specs(Gen& g, Ctx& c, int lo)
{
	std::vector<Spec> v;
	int n = g.len(lo, 25);
	bool open = false;
	static const char* stem[] = {"D", "Q", "B", "DIP", "SX"};
	for(int i = 0; i < n; ++i)
	{
		if(!open && g.chance(1, 6))
		{
			v.push_back({g.i(5, 6), "G" + std::to_string(i), 0});
			open = true;
		}
		int k = g.i(0, 4);
		string name = stem[k];
		if(g.b())
			name += g.pick({"1", "2", ".A", "10"});
		v.push_back({k, name, g.real(0.2, 2)});
		c.desc << name << " ";
		if(open && g.chance(1, 3))
		{
			v.push_back({9, "", 0});
			open = false;
		}
	}
	if(open)
		v.push_back({9, "", 0});
	return v;
}
string pattern(Gen& g)
{
	return g.pick({"*", "Q*", "Q1", "D*", "*1", "B", "*.A", "SX*", "DIP", "nothing", "*0", "Q", "D*.A", "*1*"});
}
double rms(Gen& g)
{
	return g.chance(1, 3) ? 0 : g.pick({1e-9, 1e-6, 1e-4, g.logu(1e-12, 1e-3)});
}
double mean(Gen& g)
{
	return g.b() ? 0 : g.slogu(1e-7, 1e-2);
}
struct Entry
{
	string name, what;
	double e[3];
};
}

LAW(histories, 12000, 200000, "each application moves the frames that match, by the values reported, in their own axes, set or added; no other frame moves")
{
	auto sp = specs(g, c, 1);
	Line a = build(sp), b = build(sp);
	c.eq(a.frames.size(), b.frames.size(), "construction");
	RandomNG::init(g.i(0, 100));
	AcceleratorErrors err;
	std::ostringstream log;
	log.precision(17);
	bool report = false, partial = false;
	int n = g.i(1, 6);
	for(int k = 0; k < n; ++k)
	{
		if(!report || g.chance(1, 4))
		{
			err.Report(&log);
			report = true;
		}
		double r[3] = {rms(g), rms(g), rms(g)}, m[3] = {mean(g), mean(g), mean(g)};
		bool set = g.b(), shift = g.b();
		int args = g.pick({6, 6, 6, 3, 1});
		for(int i = 0; i < 3; ++i)
		{
			if(args < 6)
				m[i] = 0;
			if(args == 1 && i)
				r[i] = 0;
		}
		if(set)
			args == 6 ? err.SetErrors(r[0], r[1], r[2], m[0], m[1], m[2]) : args == 3 ? err.SetErrors(r[0], r[1], r[2]) : err.SetErrors(r[0]);
		else
			args == 6 ? err.AddErrors(r[0], r[1], r[2], m[0], m[1], m[2]) : args == 3 ? err.AddErrors(r[0], r[1], r[2]) : err.AddErrors(r[0]);
		string p = pattern(g);
		size_t i1 = 0, i2 = a.frames.size() - 1;
		if(g.chance(1, 3))
		{
			i1 = g.raw(i2);
			i2 = i1 + g.raw(i2 - i1);
		}
		AcceleratorModel::Beamline bl = a.m->GetBeamline(i1, i2);
		c.desc << "| " << (set ? "set " : "add ") << (shift ? "shifts " : "rotations ") << p << " [" << i1 << "," << i2 << "] rms " << r[0] << ","
			   << r[1] << "," << r[2] << " mean " << m[0] << "," << m[1] << "," << m[2] << " ";
		log.str("");
		bool twice = g.chance(1, 8);
		for(int t = 0; t <= twice; ++t)
			if(shift)
				err.ApplyShifts(bl, p);
			else
				err.ApplyRotations(bl, p);
		std::vector<Entry> e;
		std::istringstream is(log.str());
		string line;
		while(std::getline(is, line))
		{
			std::istringstream f(line);
			Entry x;
			c.check(bool(f >> x.name >> x.what >> x.e[0] >> x.e[1] >> x.e[2]), "report line: " + line);
			e.push_back(x);
		}
		size_t next = 0, hit = 0;
		for(int t = 0; t <= twice; ++t)
			for(size_t i = i1; i <= i2; ++i)
			{
				LatticeFrame* f = b.frames[i];
				string qn = f->GetQualifiedName();
				if(!glob(("*." + p).c_str(), qn.c_str()))
					continue;
				++hit;
				c.check(next < e.size(), "no report of " + qn);
				Entry& x = e[next++];
				c.eq(x.name, qn, "reported name");
				c.eq(x.what, string(shift ? "translate:" : "rotate:"), "reported kind");
				if(set)
					f->ClearLocalFrameTransform();
				for(int d = 0; d < 3; ++d)
					if(r[d] == 0)
						c.near(x.e[d], m[d], 1e-15, 0, "a fixed error is its mean");
					else
						c.near(x.e[d], m[d], 0, 7.5 * r[d], "error within its range");
				if(shift)
					f->Translate(x.e[0], x.e[1], x.e[2]);
				else
				{
					f->RotateX(x.e[0]);
					f->RotateY(x.e[1]);
					f->RotateZ(x.e[2]);
				}
			}
		c.eq(e.size(), next, "reported frames");
		partial |= hit > 0 && hit < a.frames.size();
		if(g.b() || k == n - 1)
			for(size_t i = 0; i < a.all.size(); ++i)
				same(c, a.all[i]->GetLocalFrameTransform(), b.all[i]->GetLocalFrameTransform(), "frame " + a.all[i]->GetName());
	}
	c.nontrivial(partial);
}

LAW(statistics, 1200, 15000, "errors of all elements and degrees of freedom are independent, with the mean and rms stated, and reproducible")
{
	auto sp = specs(g, c, 10);
	double r[3], m[3];
	for(int i = 0; i < 3; ++i)
	{
		r[i] = rms(g);
		m[i] = mean(g);
	}
	bool shift = g.b();
	c.desc << (shift ? "shifts" : "rotations") << " rms " << r[0] << "," << r[1] << "," << r[2] << " mean " << m[0] << "," << m[1] << "," << m[2];
	Line l = build(sp);
	int rep = g.i(1, 40), seed = g.i(0, 1000);
	std::vector<double> z[3], again[3];
	for(auto* out : {z, again})
	{
		RandomNG::init(seed);
		AcceleratorErrors err;
		std::ostringstream log;
		log.precision(17);
		err.Report(&log);
		err.SetErrors(r[0], r[1], r[2], m[0], m[1], m[2]);
		AcceleratorModel::Beamline bl = l.m->GetBeamline();
		for(int k = 0; k < rep; ++k)
			shift ? err.ApplyShifts(bl, "*") : err.ApplyRotations(bl, "*");
		std::istringstream is(log.str());
		string a, b;
		double e[3];
		while(is >> a >> b >> e[0] >> e[1] >> e[2])
			for(int d = 0; d < 3; ++d)
				out[d].push_back(e[d]);
		c.eq(out[0].size(), rep * l.frames.size(), "number of applied errors");
	}
	for(int d = 0; d < 3; ++d)
	{
		c.check(z[d] == again[d], "the same seed gives the same errors");
		size_t n = z[d].size();
		if(r[d] == 0)
			continue;
		// cancellation with the mean
		double eps = 1e-15 * std::fabs(m[d]) / r[d];
		double s1 = 0, s2 = 0, lag = 0, cross = 0;
		int o = (d + 1) % 3;
		for(size_t i = 0; i < n; ++i)
		{
			double u = (z[d][i] - m[d]) / r[d];
			s1 += u / n;
			s2 += u * u / n;
			if(i)
				lag += u * (z[d][i - 1] - m[d]) / r[d] / n;
			if(r[o])
				cross += u * (z[o][i] - m[o]) / r[o] / n;
		}
		string w = string(1, "xyz"[d]);
		c.near(s1, 0, 0, 6.2 / std::sqrt(n) + eps, "mean of " + w);
		c.near(s2, 1, 0, 6.5 * std::sqrt(2.0 / n) + 50.0 / n + eps, "variance of " + w);
		c.near(lag, 0, 0, 6.5 / std::sqrt(n) + 50.0 / n + eps, "correlation of successive elements in " + w);
		c.near(cross, 0, 0, 6.5 / std::sqrt(n) + 50.0 / n + eps + 1e-3, "correlation of degrees of freedom " + w);
	}
	c.nontrivial(r[0] + r[1] + r[2] > 0);
}

LAW(transform, 4000, 60000, "without a report the frames have the stated offsets in their design axes, and a new setting replaces the old one")
{
	auto sp = specs(g, c, 1);
	Line l = build(sp);
	RandomNG::init(1);
	AcceleratorErrors err;
	double m[3] = {mean(g), mean(g), mean(g)};
	string p = pattern(g);
	bool shift = g.b();
	c.desc << p << (shift ? " shifts " : " rotations ") << m[0] << "," << m[1] << "," << m[2];
	AcceleratorModel::Beamline bl = l.m->GetBeamline();
	if(g.b())
	{
		// something to be replaced
		err.AddErrors(1e-3, 1e-4, 1e-5);
		err.ApplyShifts(bl, p);
		err.ApplyRotations(bl, p);
	}
	err.SetErrors(0, 0, 0, m[0], m[1], m[2]);
	shift ? err.ApplyShifts(bl, p) : err.ApplyRotations(bl, p);
	int times = g.i(0, 2);
	if(shift)
	{
		err.AddErrors(0, 0, 0, m[0], m[1], m[2]);
		for(int k = 0; k < times; ++k)
			err.ApplyShifts(bl, p);
	}
	else
		times = 0;
	size_t hit = 0;
	for(auto* f : l.frames)
	{
		Transform3D t = f->GetLocalFrameTransform();
		bool h = glob(("*." + p).c_str(), f->GetQualifiedName().c_str());
		hit += h;
		double k = h && shift ? 1 + times : 0;
		string w = f->GetQualifiedName() + " ";
		c.near(t.X().x, k * m[0], 1e-14, 1e-18, w + "x");
		c.near(t.X().y, k * m[1], 1e-14, 1e-18, w + "y");
		c.near(t.X().z, k * m[2], 1e-14, 1e-18, w + "z");
		// to first order a rotation by (a,b,c) turns the axes by the cross product
		double q = h && !shift ? 1 : 0;
		double tol = q * 2 * (m[0] * m[0] + m[1] * m[1] + m[2] * m[2]) + 1e-15;
		Vector3D z = t.R().inv()(Vector3D(0, 0, 1)), x = t.R().inv()(Vector3D(1, 0, 0));
		c.near(z.x, q * m[1], 0, tol, w + "rotation about y");
		c.near(z.y, -q * m[0], 0, tol, w + "rotation about x");
		c.near(x.y, q * m[2], 0, tol, w + "rotation about z");
	}
	c.nontrivial(hit > 0 && hit < l.frames.size());
}
