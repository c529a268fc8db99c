// P14: bunch files reproduce the bunch that was written.
#include "mlib.h"
#include <fstream>
#include <iostream>
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "MonitorProcess.h"
#include "ProtonBunch.h"
#include "ElectronBunch.h"
using namespace ml;

pbt::Info pbt::info = {"P14",
	"Bunches of 0 to 40 particles with coordinates of any magnitude between 1e-150 and 1e150 or zero, both signs of charge, any "
	"reference momentum and time, written by Output, OutputIndexParticle, operator<< and MonitorProcess, one or several times to a "
	"stream in any state, with blank and comment lines in between. Non-trivial: at least two particles.",
	"Identities are only part of the operator<< format."};

namespace
{
double value(Gen& g)
{
	switch(g.i(0, 4))
	{
	case 0:
		return 0;
	case 1:
		return g.slogu(1e-150, 1e150);
	case 2:
		return g.slogu(1e-9, 1e3);
	case 3:
		return g.i(-5, 5);
	default:
		return g.sym(1e-2);
	}
}
std::vector<PSvector> particles(Gen& g, int lo, int hi)
{
	std::vector<PSvector> v(g.len(lo, hi));
	for(auto& p : v)
	{
		for(int i = 0; i < 6; ++i)
			p[i] = value(g);
		p.id() = g.pick({g.i(0, 9), g.i(0, 100000), -g.i(0, 5)});
	}
	return v;
}
std::unique_ptr<ParticleBunch> bunch(Gen& g, double P0, double Q)
{
	switch(g.i(0, 2))
	{
	case 0:
		return std::unique_ptr<ParticleBunch>(new ParticleBunch(P0, Q));
	case 1:
		return std::unique_ptr<ParticleBunch>(new ProtonBunch(P0, Q));
	default:
		return std::unique_ptr<ParticleBunch>(new ElectronBunch(P0, Q));
	}
}
void dirty(Gen& g, std::ostream& os)
{
	if(g.b())
		os.precision(g.i(1, 12));
	if(g.b())
		os.setf(std::ios::fixed, std::ios::floatfield);
	if(g.b())
		os.setf(std::ios::left, std::ios::adjustfield);
}
int lines(const std::string& s)
{
	return std::count(s.begin(), s.end(), '\n');
}
}

LAW(output_input, 15000, 400000, "Input reads back what Output wrote, over any number of outputs")
{
	std::ostringstream os;
	dirty(g, os);
	std::ios::fmtflags fl = os.flags();
	auto prec = os.precision();
	std::vector<PSvector> all;
	double P0 = 1, T = 0, Q = 0;
	int n = g.i(1, 4), want = 0;
	std::ostringstream expect;
	for(int k = 0; k < n; ++k)
	{
		auto v = particles(g, 0, 40);
		P0 = g.logu(1e-3, 1e5);
		Q = g.pick({1.0, -1.0, 1e10, -3.2e-9, 1.15e11});
		auto b = bunch(g, P0, Q);
		for(auto& p : v)
			b->AddParticle(p);
		double T1 = g.pick({0.0, g.slogu(1e-9, 1e9)});
		b->SetReferenceTime(T1);
		if(!v.empty())
			T = T1;
		int mode = g.i(0, 2);
		if(mode == 2)
			b->Output(os);
		else
			b->Output(os, mode == 1);
		want += v.size() + (mode != 0);
		if(g.chance(1, 4))
		{
			os << (g.b() ? "\n" : "# a comment\n");
			++want;
		}
		if(v.empty() && !all.empty())
			P0 = 0;     // the last line decides: not judged
		all.insert(all.end(), v.begin(), v.end());
		c.check(b->size() == v.size(), "output leaves the bunch alone");
		// one particle
		if(!v.empty())
		{
			int i = g.raw(v.size() - 1);
			std::ostringstream o1;
			b->OutputIndexParticle(o1, i);
			std::istringstream is(o1.str());
			for(int j = 0; j < 6; ++j)
			{
				double x = 1;
				is >> x;
				c.eq(x, v[i][j], "OutputIndexParticle coordinate " + std::to_string(j));
			}
			c.eq(lines(o1.str()), 1, "OutputIndexParticle writes one line");
		}
	}
	c.nontrivial(all.size() > 1);
	c.label(n > 1 ? "several outputs" : "one output");
	c.eq(lines(os.str()), want, "one line per particle (and header)");
	c.check(os.flags() == fl && os.precision() == prec, "the state of the stream is as it was");
	std::string text = os.str();
	if(g.chance(1, 5))
	{
		std::ofstream("bunch.dat") << text;
		std::ifstream f("bunch.dat");
		std::ostringstream o;
		o << f.rdbuf();
		text = o.str();
	}
	if(!text.empty() && g.chance(1, 5))
		text.pop_back();      // no newline at the end
	std::istringstream is(text);
	double Q2 = g.pick({1.0, -1.0, 1e10, -3.2e-9, 1.15e11});
	auto r = bunch(g, g.logu(1e-3, 1e5), g.b() ? Q2 : 1);
	int pre = g.chance(1, 4) ? g.i(1, 3) : 0;
	for(int i = 0; i < pre; ++i)
		r->AddParticle(mk(V6{1., 2., 3., 4., 5., double(i)}));
	r->Input(Q2, is);
	c.eq(r->size(), all.size() + pre, "number of particles read");
	for(size_t i = 0; i < all.size(); ++i)
		for(int j = 0; j < 6; ++j)
			c.eq(r->GetParticles()[i + pre][j], all[i][j], "coordinate " + std::to_string(j) + " of particle " + std::to_string(i));
	for(int i = 0; i < pre; ++i)
		c.eq(r->GetParticles()[i].dp(), double(i), "particles already in the bunch stay");
	if(!all.empty() && P0 != 0)
	{
		c.eq(r->GetReferenceMomentum(), P0, "reference momentum");
		c.eq(r->GetReferenceTime(), T, "reference time");
	}
	c.near(r->GetTotalCharge(), r->size() ? Q2 : 0, 1e-12, 0, "total charge");
	c.eq(r->GetChargeSign(), Q2 < 0 ? -1.0 : 1.0, "charge sign");
}

LAW(vectors, 15000, 400000, "phase space vectors survive writing and reading, with their identities")
{
	auto v = particles(g, 0, 40);
	std::ostringstream os;
	if(g.b())
		dirty(g, os);
	os.setf(std::ios::right, std::ios::adjustfield);
	for(auto& p : v)
		os << p;
	c.nontrivial(v.size() > 1);
	c.eq(lines(os.str()), (int) v.size(), "one line per particle");
	std::istringstream is(os.str());
	double P0 = g.logu(1e-3, 1e5), Q = g.pick({1.0, -1.0, 1e10, -3.2e-9});
	std::vector<PSvector> r;
	if(g.b())
	{
		ParticleBunch b(P0, Q, is);
		r.assign(b.begin(), b.end());
		c.near(b.GetTotalCharge(), v.empty() ? 0 : Q, 1e-12, 0, "total charge");
		c.eq(b.GetReferenceMomentum(), P0, "reference momentum");
		c.eq(b.GetChargeSign(), Q < 0 ? -1.0 : 1.0, "charge sign");
		c.label("bunch");
	}
	else
	{
		PSvector p;
		while(is >> p)
			r.push_back(p);
	}
	c.eq(r.size(), v.size(), "number of vectors read");
	for(size_t i = 0; i < v.size(); ++i)
	{
		for(int j = 0; j < 6; ++j)
			c.near(r[i][j], v[i][j], 1e-10, 0, "coordinate " + std::to_string(j) + " of vector " + std::to_string(i));
		c.eq(r[i].id(), v[i].id(), "identity of vector " + std::to_string(i));
	}
	// the constructor from an array takes the array over
	std::vector<PSvector> w(v);
	ParticleBunch b(P0, Q, w);
	c.check(w.empty(), "the array is taken over");
	c.eq(b.size(), v.size(), "bunch from an array");
	for(size_t i = 0; i < v.size(); ++i)
		c.check(b.GetParticles()[i] == v[i] && b.GetParticles()[i].id() == v[i].id(), "particle from an array");
	c.near(b.GetTotalCharge(), v.empty() ? 0 : Q, 1e-12, 0, "total charge of a bunch from an array");
}

LAW(monitor, 600, 8000, "a monitor process writes the bunch at each passage of each of its elements to a file of its own")
{
	std::ostringstream sink;
	std::streambuf* old = std::cout.rdbuf(sink.rdbuf());
	struct Restore { std::streambuf* o; ~Restore() { std::cout.rdbuf(o); } } restore{old};
	AcceleratorModelConstructor mc;
	mc.NewModel();
	int n = g.i(1, 6), turns = g.i(1, 3);
	std::vector<double> len;
	std::vector<std::string> names;
	for(int i = 0; i < n; ++i)
	{
		len.push_back(g.chance(1, 5) ? 0 : g.real(0.1, 3));
		names.push_back("E" + std::to_string(g.i(0, 3)) + (g.b() ? "" : std::to_string(i)));
		mc.AppendComponent(*new Drift(names.back(), len.back()));
	}
	std::unique_ptr<AcceleratorModel> m(mc.GetModel());
	double P0 = g.logu(0.1, 7000);
	ProtonBunch b(P0, 1e10);
	int np = g.i(1, 5);
	for(int i = 0; i < np; ++i)
		b.AddParticle(mk(V6{g.sym(1e-2), g.sym(1e-3), g.sym(1e-2), g.sym(1e-3), g.sym(1e-2), g.sym(1e-3)}, i));
	std::string prefix = g.pick({"", "mon_", "x"});
	bool later = g.b();
	MonitorProcess* mp = new MonitorProcess("MON", g.i(0, 3), later ? "wrong" : prefix);
	if(later)
		mp->SetPrefix(prefix);
	std::set<std::string> at;
	for(auto& s : names)
		if(g.b())
		{
			at.insert(s);
			mp->AddElement(s);
		}
	mp->AddElement("E");
	ParticleTracker t(m->GetBeamline(), &b);
	t.AddProcess(mp);
	ParticleBunch ref(P0, 1e10);
	for(auto& p : b)
		ref.AddParticle(p);
	int count = 1;
	std::vector<std::string> files;
	for(int k = 0; k < turns; ++k)
		t.Track(&b);
	for(int k = 0; k < turns; ++k)
		for(int i = 0; i < n; ++i)
		{
			Drift d("ref", len[i]);
			track(TRANSPORT_SET, d, ref);
			if(!at.count(names[i]))
				continue;
			if(len[i] == 0)
				c.label("zero length");
			std::string f = prefix + names[i] + "_" + std::to_string(count++);
			files.push_back(f);
			std::ifstream is(f);
			c.check(is.good(), "file " + f + " is written");
			ProtonBunch r(1, 1);
			r.Input(1e10, is);
			c.eq(r.size(), ref.size(), "particles in " + f);
			c.near(r.GetReferenceMomentum(), P0, 1e-14, 0, "momentum in " + f);
			for(int q = 0; q < np; ++q)
				for(int j = 0; j < 6; ++j)
					c.near(r.GetParticles()[q][j], ref.GetParticles()[q][j], 1e-11, 1e-15, "coordinate in " + f);
		}
	c.check(!std::ifstream(prefix + "E_1").good(), "no file for an element that is not passed");
	for(int i = 0; i < n; ++i)
		c.check(!std::ifstream(prefix + names[i] + "_" + std::to_string(count)).good(), "no file for a passage that did not take place");
	for(auto& f : files)
		std::remove(f.c_str());
	c.nontrivial(files.size() > 1);
}
