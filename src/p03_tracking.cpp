// P03: bunch tracking equals tracking every particle alone, in order.
#include "mlib.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "BunchProcess.h"
#include "PatchFrame.h"
#include "GeometryPatch.h"
#include "MerlinException.h"
#include "NANCheckProcess.h"
#include "ParticleMapComponent.h"
#include "LinearParticleMap.h"
using namespace ml;

pbt::Info pbt::info = {"P03",
	"Beamlines of 1 to 9 random elements (misaligned, with geometry patches and markers), bunches of 1 to 12 particles, all "
	"integrator sets, random divisions of the line into sections and rings, and random tables of recording processes. "
	"Non-trivial: at least two particles (or processes) and two elements.",
	"Processes are not added twice; priorities are not changed after a process has been added."};

namespace
{
struct Line
{
	std::unique_ptr<AcceleratorModel> model;
	std::vector<AcceleratorComponent*> comps;      // in order, null for patches
	std::vector<ComponentFrame*> frames;
	double P0, q;
	Set set;
};
Line make_line(Gen& g, Ctx& c, int lo, int hi, bool misalign)
{
	Line l;
	l.P0 = beam_momentum(g);
	l.q = charge(g);
	l.set = (Set) g.i(0, 2);
	AcceleratorModelConstructor mc;
	mc.NewModel();
	int n = g.i(lo, hi);
	c.desc << setname(l.set) << " P0=" << l.P0 << " q=" << l.q << " ";
	for(int i = 0; i < n; ++i)
	{
		if(misalign && g.chance(1, 6))
		{
			GeometryPatch* gp = new GeometryPatch;
			if(g.chance(3, 4))
				gp->TranslateX(g.sym(1e-3));
			if(g.b())
				gp->RotateZ(g.sym(1));
			mc.AppendComponentFrame(new PatchFrame(gp, "PATCH" + std::to_string(i)));
			l.comps.push_back(nullptr);
			c.desc << "patch; ";
			continue;
		}
		ElOpts o;
		o.maxk1 = 0.3;
		o.maxang = 0.1;
		auto e = element(g, l.P0, l.q, g.pick({"drift", "quad", "skewquad", "sext", "oct", "bend", "bend", "solenoid", "bpm", "marker", "xcor"}), o);
		c.desc << e->text() << "; ";
		AcceleratorComponent* p = e->c.release();
		l.comps.push_back(p);
		mc.AppendComponent(*p);
	}
	l.model.reset(mc.GetModel());
	AcceleratorModel::Beamline b = l.model->GetBeamline();
	for(auto i = b.begin(); i != b.end(); ++i)
	{
		l.frames.push_back(*i);
		if(misalign && g.chance(1, 3))
		{
			if(g.b())
				(*i)->Translate(g.sym(1e-3), g.sym(1e-3), 0);
			if(g.b())
				(*i)->RotateZ(g.sym(0.5));
			if(g.b())
				(*i)->RotateX(g.sym(1e-3));
			c.desc << "misaligned " << l.frames.size() - 1 << "; ";
		}
	}
	return l;
}
typedef std::vector<PSvector> Parts;
Parts make_bunch(Gen& g, Ctx& c, int lo, int hi)
{
	Parts p;
	int n = g.i(lo, hi);
	for(int i = 0; i < n; ++i)
	{
		if(i && g.chance(1, 8))
			p.push_back(p[g.raw(i - 1)]);    // equal coordinates
		else
			p.push_back(mk(particle(g, 1e-3, 1e-3)));
		p.back().id() = g.chance(1, 6) ? (int64_t) g.raw(5) : 100 + i;
		c.desc << "#" << p.back().id() << str(un(p.back())) << " ";
	}
	return p;
}
std::unique_ptr<ParticleBunch> bunch(const Line& l, const Parts& p)
{
	std::unique_ptr<ParticleBunch> b(new ParticleBunch(l.P0, l.q));
	for(auto& x : p)
		b->AddParticle(x);
	return b;
}
void setup(ParticleTracker& t, const Line& l)
{
	t.SetIntegratorSet(&iset(l.set));
}
void same(Ctx& c, const ParticleBunch& a, const ParticleBunch& b, const std::string& what)
{
	c.eq(a.size(), b.size(), what + ": particles");
	c.near(a.GetReferenceMomentum(), b.GetReferenceMomentum(), 1e-14, 0, what + ": reference momentum");
	c.near(a.GetReferenceTime(), b.GetReferenceTime(), 1e-13, 1e-13, what + ": reference time");
	for(size_t i = 0; i < a.size(); ++i)
	{
		c.eq(a.GetParticles()[i].id(), b.GetParticles()[i].id(), what + ": identity of particle " + std::to_string(i));
		for(int j = 0; j < 6; ++j)
		{
			double x = a.GetParticles()[i][j], y = b.GetParticles()[i][j];
			if(!(std::isnan(x) && std::isnan(y)))
				c.near(x, y, 1e-12, 1e-17, what + ": particle " + std::to_string(i) + " coordinate " + std::to_string(j));
		}
	}
}
std::unique_ptr<ParticleBunch> run(const Line& l, const Parts& p)
{
	auto b = bunch(l, p);
	ParticleTracker t(l.model->GetBeamline());
	setup(t, l);
	t.Track(b.get());
	return b;
}
}

LAW(independent, 15000, 250000, "every particle of a bunch moves as if it were tracked alone, whatever the others and their order")
{
	Line l = make_line(g, c, 1, 8, true);
	Parts p = make_bunch(g, c, 1, 12);
	c.nontrivial(p.size() > 1 && l.comps.size() > 1);
	auto all = run(l, p);
	c.eq(all->size(), p.size(), "particles after tracking");
	for(size_t i = 0; i < p.size(); ++i)
	{
		auto one = run(l, Parts(1, p[i]));
		ParticleBunch ref(l.P0, l.q);
		ref.IncrReferenceTime(all->GetReferenceTime());
		ref.AddParticle(all->GetParticles()[i]);
		same(c, ref, *one, "particle " + std::to_string(i) + " in the bunch against alone");
		c.eq(all->GetParticles()[i].id(), p[i].id(), "identity");
	}
	// permuted
	std::vector<size_t> perm(p.size());
	for(size_t i = 0; i < p.size(); ++i)
		perm[i] = i;
	for(size_t i = p.size(); i > 1; --i)
		std::swap(perm[i - 1], perm[g.raw(i - 1)]);
	Parts pp;
	for(size_t i : perm)
		pp.push_back(p[i]);
	auto mixed = run(l, pp);
	ParticleBunch back(l.P0, l.q);
	back.IncrReferenceTime(mixed->GetReferenceTime());
	for(size_t i = 0; i < p.size(); ++i)
		back.AddParticle(mixed->GetParticles()[std::find(perm.begin(), perm.end(), i) - perm.begin()]);
	same(c, back, *all, "permuted bunch");
}

namespace
{
struct CountingMap: public ParticleMap       // moves particles by something that depends on their number and id
{
	std::vector<size_t>& seen;
	explicit CountingMap(std::vector<size_t>& s) :
		seen(s)
	{
	}
	virtual ParticleBunch& Apply(ParticleBunch& b) const
	{
		seen.push_back(b.size());
		return b;
	}
	virtual void Invert()
	{
	}
};
}

LAW(maps, 6000, 80000, "a map placed in a line acts on every particle once, as the matrix given, where it stands; maps of fewer dimensions leave the rest alone")
{
	double P0 = beam_momentum(g), q = charge(g);
	Parts p = make_bunch(g, c, 1, 8);
	std::vector<std::unique_ptr<ParticleMap> > own;
	std::vector<size_t> seen;
	AcceleratorModelConstructor mc;
	mc.NewModel();
	std::vector<std::array<long double, 6> > ref(p.size());
	for(size_t k = 0; k < p.size(); ++k)
		for(int i = 0; i < 6; ++i)
			ref[k][i] = p[k][i];
	int n = g.i(1, 6), maps = 0, counters = 0;
	double size = 1;
	for(int m = 0; m < n; ++m)
	{
		std::string name = "M" + std::to_string(m);
		int what = g.i(0, 3);
		if(what == 0)
		{
			double L = g.real(0.1, 3);
			mc.AppendComponent(*new Drift(name, L));
			c.desc << "drift " << L << " ";
			for(auto& v : ref)
			{
				v[0] += L * v[1];
				v[2] += L * v[3];
			}
			size *= 1 + L;
		}
		else if(what == 1)
		{
			CountingMap* cm = new CountingMap(seen);
			own.emplace_back(cm);
			mc.AppendComponent(*new ParticleMapComponent(name, cm));
			++counters;
		}
		else
		{
			int dim = g.pick({2, 4, 6, 6});
			LinearParticleMap* lm = new LinearParticleMap;
			own.emplace_back(lm);
			RealMatrix R(dim, dim, 0.0);
			c.desc << "map" << dim << " ";
			double row = 1;
			for(int i = 0; i < dim; ++i)
			{
				double sum = 0;
				for(int j = 0; j < dim; ++j)
				{
					// the drifts here do not change with dp and ct
					R(i, j) = g.chance(1, 3) ? (i == j) : g.sym(1.5);
					sum += std::fabs(R(i, j));
				}
				row = std::max(row, sum);
			}
			size *= row;
			lm->R.R.copy(R);
			lm->R.SetRefMomentum(g.chance(1, 2) ? 0 : beam_momentum(g));
			double ib = g.real(0, 2);
			ParticleMapComponent* pm = new ParticleMapComponent(name, lm, ib);
			if(g.chance(1, 3))
			{
				ParticleMapComponent* cp = static_cast<ParticleMapComponent*>(pm->Copy());
				delete pm;
				pm = cp;
			}
			c.same(pm->GetIntB2ds(), ib, "integral of the field squared");
			c.eq(pm->GetType(), std::string("ParticleMap"), "type");
			mc.AppendComponent(*pm);
			for(auto& v : ref)
			{
				auto w = v;
				for(int i = 0; i < dim; ++i)
				{
					w[i] = 0;
					for(int j = 0; j < dim; ++j)
						w[i] += (long double) R(i, j) * v[j];
				}
				v = w;
			}
			++maps;
		}
	}
	c.nontrivial(maps > 0 && p.size() > 1);
	c.label(maps > 1, "several maps");
	std::unique_ptr<AcceleratorModel> model(mc.GetModel());
	ParticleBunch b(P0, q);
	for(auto& x : p)
		b.AddParticle(x);
	THIN_LENS::StdISet set;
	ParticleTracker t(model->GetBeamline());
	t.SetIntegratorSet(&set);
	t.Track(&b);
	c.eq(b.size(), p.size(), "particles");
	c.eq(seen.size(), (size_t) counters, "times the maps were applied");
	for(size_t k : seen)
		c.eq(k, p.size(), "particles given to a map");
	for(size_t k = 0; k < p.size(); ++k)
	{
		c.eq(b.GetParticles()[k].id(), p[k].id(), "identity");
		double big = 0;
		for(int i = 0; i < 6; ++i)
			big = std::max(big, std::fabs((double) p[k][i]));
		for(int i = 0; i < 6; ++i)
			c.near(b.GetParticles()[k][i], (double) ref[k][i], 1e-12, 1e-13 * size * big, "coordinate " + std::to_string(i) + " of particle " + std::to_string(k));
	}
}

LAW(sections, 15000, 250000, "one run, consecutive sections, single components and the component tracker give the same bunch")
{
	Line l = make_line(g, c, 1, 9, true);
	Parts p = make_bunch(g, c, 1, 5);
	size_t n = l.comps.size();
	c.nontrivial(p.size() > 1 && n > 1);
	auto whole = run(l, p);
	switch(g.raw(4))
	{
	case 0:
	{
		// consecutive sections with the same bunch object
		c.label("sections");
		auto b = bunch(l, p);
		for(size_t i = 0; i < n;)
		{
			size_t k = i + g.raw(n - 1 - i);
			c.desc << "[" << i << ".." << k << "] ";
			ParticleTracker t(l.model->GetBeamline(i, k));
			setup(t, l);
			c.check(t.Track(b.get()) == b.get(), "Track returns the bunch that it was given");
			i = k + 1;
		}
		same(c, *b, *whole, "sections");
		break;
	}
	case 1:
	{
		c.label("stepped");
		auto b = bunch(l, p);
		ParticleTracker t(l.model->GetBeamline());
		setup(t, l);
		ParticleBunch* pb = b.release();
		t.InitStepper(pb);
		size_t steps = 0;
		bool more;
		do
		{
			c.check(&t.GetCurrentFrame() == l.frames[steps], "current frame while stepping");
			more = t.StepComponent();
			++steps;
		} while(more && steps <= n);
		c.eq(steps, n, "number of steps");
		same(c, t.GetTrackedBunch(), *whole, "component by component");
		break;
	}
	case 2:
	{
		c.label("component tracker");
		auto b = bunch(l, p);
		ParticleComponentTracker t(iset(l.set));
		t.SetBunch(*b);
		for(size_t i = 0; i < n; ++i)
		{
			b->ApplyTransformation(l.frames[i]->GetEntrancePlaneTransform());
			if(const Transform3D* tr = l.frames[i]->GetEntranceGeometryPatch())
				b->ApplyTransformation(*tr);
			if(l.comps[i])
				t(l.comps[i]);
			b->ApplyTransformation(l.frames[i]->GetExitPlaneTransform());
		}
		same(c, *b, *whole, "component tracker");
		break;
	}
	case 3:
	{
		c.label("Run and Continue");
		auto b0 = bunch(l, p);
		ParticleTracker t(l.model->GetBeamline(), b0.get());
		setup(t, l);
		Bunch& r = t.Run();
		same(c, static_cast<ParticleBunch&>(r), *whole, "Run");
		// the initial bunch is a template
		auto again = bunch(l, p);
		same(c, *b0, *again, "initial bunch after Run");
		auto two = run(l, whole->GetParticles());
		two->IncrReferenceTime(whole->GetReferenceTime());
		t.Continue();
		same(c, t.GetTrackedBunch(), *two, "Continue");
		t.Run();
		same(c, t.GetTrackedBunch(), *whole, "Run again");
		break;
	}
	default:
	{
		// ring starting at k
		size_t k = g.raw(n - 1);
		c.desc << "ring from " << k;
		c.label("ring");
		auto b = bunch(l, p), r = bunch(l, p);
		ParticleTracker t(l.model->GetRing(k));
		setup(t, l);
		t.Track(b.get());
		ParticleTracker t1(l.model->GetBeamline(k, n - 1));
		setup(t1, l);
		t1.Track(r.get());
		if(k)
		{
			ParticleTracker t2(l.model->GetBeamline(0, k - 1));
			setup(t2, l);
			t2.Track(r.get());
		}
		same(c, *b, *r, "ring");
	}
	}
}

LAW(flat, 3000, 40000, "a flat lattice ignores displacements; injection on axis ignores the entrance of the first frame only")
{
	Line l = make_line(g, c, 1, 6, true);
	Parts p = make_bunch(g, c, 1, 4);
	c.nontrivial(p.size() > 1 && l.comps.size() > 1);
	bool flat = g.b(), onaxis = g.b();
	c.desc << "flat " << flat << " onaxis " << onaxis;
	auto b = bunch(l, p), r = bunch(l, p);
	ParticleTracker t(l.model->GetBeamline());
	setup(t, l);
	t.AssumeFlatLattice(flat);
	t.InjectBeamOnAxis(onaxis);
	t.Track(b.get());
	ParticleComponentTracker ct(iset(l.set));
	ct.SetBunch(*r);
	for(size_t i = 0; i < l.comps.size(); ++i)
	{
		if(!flat && !(onaxis && i == 0))
			r->ApplyTransformation(l.frames[i]->GetEntrancePlaneTransform());
		if(const Transform3D* tr = l.frames[i]->GetEntranceGeometryPatch())
			r->ApplyTransformation(*tr);
		if(l.comps[i])
			ct(l.comps[i]);
		if(!flat)
			r->ApplyTransformation(l.frames[i]->GetExitPlaneTransform());
	}
	same(c, *b, *r, "tracked");
}

namespace
{
struct Event
{
	int id;
	int what;            // 0 init, 1 component, 2 process
	const AcceleratorComponent* comp;
	double ds;
};
struct Recorder: public TBunchProc<ParticleBunch>
{
	int id;
	std::vector<Event>* log;
	double step;
	int* alive;
	const AcceleratorComponent* cur = nullptr;
	std::set<const AcceleratorComponent*> inactive;
	Recorder(int i, int prio, double st, std::vector<Event>* l, int* a) :
		TBunchProc<ParticleBunch>("R" + std::to_string(i), prio), id(i), log(l), step(st), alive(a)
	{
		++*alive;
	}
	~Recorder()
	{
		--*alive;
	}
	void InitialiseProcess(Bunch& b)
	{
		TBunchProc<ParticleBunch>::InitialiseProcess(b);
		active = true;
		log->push_back(Event{id, 0, nullptr, 0});
	}
	void SetCurrentComponent(AcceleratorComponent& ac)
	{
		TBunchProc<ParticleBunch>::SetCurrentComponent(ac);
		cur = &ac;
		active = !inactive.count(&ac);
		log->push_back(Event{id, 1, cur, 0});
	}
	void DoProcess(double ds)
	{
		log->push_back(Event{id, 2, currentComponent, ds});
	}
	double GetMaxAllowedStepSize() const
	{
		return step;
	}
};
}

LAW(processes, 10000, 150000, "processes act in priority order, once per step and component, over steps that add up to the length")
{
	Line l = make_line(g, c, 1, 5, false);
	int np = g.i(0, 6), alive = 0;
	std::vector<Event> log;
	struct Entry
	{
		int id, prio;
		Recorder* r;
		double step;
	};
	std::vector<Entry> table;   // expected order
	auto add = [&](int id, int prio, Recorder* r, double step)
		{
			auto i = table.begin();
			while(i != table.end() && i->prio <= prio)
				++i;
			table.insert(i, Entry{id, prio, r, step});
		};
	{
		ParticleTracker t(l.model->GetBeamline());
		setup(t, l);
		add(-1, 0, nullptr, 1e9);
		std::vector<Recorder*> rs;
		for(int i = 0; i < np; ++i)
		{
			int prio = g.i(0, 4);
			double step = g.b() ? 1e9 : g.logu(0.02, 3);
			Recorder* r = new Recorder(i, prio, step, &log, &alive);
			for(AcceleratorComponent* a : l.comps)
				if(g.chance(1, 5))
					r->inactive.insert(a);
			rs.push_back(r);
			t.AddProcess(r);
			add(i, prio, r, step);
			c.desc << "R" << i << " prio " << prio << " step " << step << "; ";
		}
		// remove a few
		for(int k = g.i(0, 2); k > 0 && !rs.empty(); --k)
		{
			size_t j = g.raw(rs.size() - 1);
			Recorder* r = rs[j];
			c.desc << "remove R" << r->id << "; ";
			c.check(t.RemoveProcess(r), "RemoveProcess of a present process returns true");
			c.check(!t.RemoveProcess(r), "RemoveProcess of an absent process returns false");
			for(size_t i = 0; i < table.size(); ++i)
				if(table[i].r == r)
				{
					table.erase(table.begin() + i);
					break;
				}
			rs.erase(rs.begin() + j);
			delete r;
		}
		c.nontrivial(table.size() > 2 && l.comps.size() > 1);
		Parts p = make_bunch(g, c, 1, 2);
		auto b = bunch(l, p);
		t.Track(b.get());
		auto plain = run(l, p);
		bool divided = false;
		for(auto& e : table)
			divided = divided || e.step < 1e9;
		if(!divided)
			same(c, *b, *plain, "tracking with observing processes");
		// the expected history
		size_t k = 0;
		auto next = [&](const char* what) -> Event
			{
				c.check(k < log.size(), std::string("history ends before ") + what);
				return log[k++];
			};
		for(auto& e : table)
			if(e.r)
			{
				Event v = next("initialisation");
				c.check(v.what == 0 && v.id == e.id, "initialisation in table order");
			}
		for(size_t i = 0; i < l.comps.size(); ++i)
		{
			for(auto& e : table)
				if(e.r)
				{
					Event v = next("component");
					c.check(v.what == 1 && v.id == e.id && v.comp == l.comps[i], "component announced in table order");
				}
			double L = l.comps[i]->GetLength(), s = 0;
			std::vector<const Entry*> act;
			double step = 1e9;
			for(auto& e : table)
				if(e.r && !e.r->inactive.count(l.comps[i]))
				{
					act.push_back(&e);
					step = std::min(step, e.step);
				}
			if(act.empty())
				continue;
			int rounds = 0;
			do
			{
				double ds = 0;
				for(size_t a = 0; a < act.size(); ++a)
				{
					Event v = next("processing");
					c.check(v.what == 2 && v.id == act[a]->id, "processed in table order");
					c.check(v.comp == l.comps[i], "processed at its component");
					if(a == 0)
						ds = v.ds;
					c.check(ds == v.ds, "all processes act over the same step");
				}
				c.near(ds, std::min(step, L - s), 1e-9, 1e-12, "step size");
				s += ds;
				c.check(++rounds < 10000, "too many steps");
			} while(L - s > 1e-9 || (k < log.size() && log[k].what == 2));   // rounding may leave a tiny rest
			c.near(s, L, 1e-12, 1e-12, "steps add up to the length");
		}
		c.eq(k, log.size(), "no further events");
		c.eq(alive, (int) rs.size(), "processes alive");
	}
	c.eq(alive, 0, "the tracker destroys its processes");
}

namespace
{
struct Out: public SimulationOutput
{
	std::vector<std::pair<int, const ComponentFrame*> > rec;
	std::vector<double> xs;
	void Record(const ComponentFrame* f, const Bunch* b)
	{
		rec.push_back(std::make_pair(1, f));
		xs.push_back(b->GetReferenceTime());
	}
	void RecordInitialBunch(const Bunch* b)
	{
		rec.push_back(std::make_pair(0, nullptr));
		xs.push_back(b->GetReferenceTime());
	}
	void RecordFinalBunch(const Bunch* b)
	{
		rec.push_back(std::make_pair(2, nullptr));
		xs.push_back(b->GetReferenceTime());
	}
};
}

LAW(output, 5000, 60000, "simulation output records the bunch at exactly the selected components, in order, after each of them")
{
	Line l = make_line(g, c, 1, 9, true);
	Parts p = make_bunch(g, c, 1, 2);
	Out o;
	bool all = false, ini = false, fin = false;
	if(g.b())
		o.output_all = all = g.chance(1, 4);
	else
		c.label("default flags");
	if(g.b())
		o.output_initial = ini = g.b();
	if(g.b())
		o.output_final = fin = g.b();
	std::vector<std::string> pats;
	for(int i = g.i(0, 3); i > 0; --i)
	{
		pats.push_back(g.pick({"Drift.*", "*.B", "Quadrupole.Q", "*.Q", "BPM.*", "*", "Nothing.*", "*a*"}));
		o.AddIdentifier(pats.back());
		c.desc << "'" << pats.back() << "' ";
	}
	c.desc << "all " << all << " initial " << ini << " final " << fin;
	auto glob = [](const std::string& pat, const std::string& s)
		{
			std::vector<std::vector<char> > m(pat.size() + 1, std::vector<char>(s.size() + 1, 0));
			m[0][0] = 1;
			for(size_t i = 1; i <= pat.size(); ++i)
				for(size_t j = 0; j <= s.size(); ++j)
					m[i][j] = pat[i - 1] == '*' ? m[i - 1][j] || (j && m[i][j - 1]) : j && m[i - 1][j - 1] && pat[i - 1] == s[j - 1];
			return m[pat.size()][s.size()] != 0;
		};
	std::vector<std::pair<int, const ComponentFrame*> > want;
	std::vector<double> ts;
	double s = 0;
	if(ini)
		want.push_back(std::make_pair(0, nullptr)), ts.push_back(0);
	for(size_t i = 0; i < l.comps.size(); ++i)
	{
		if(!l.comps[i])
			continue;
		s += l.comps[i]->GetLength();
		bool hit = all;
		for(auto& x : pats)
			hit = hit || glob(x, l.comps[i]->GetQualifiedName());
		if(hit)
			want.push_back(std::make_pair(1, l.frames[i])), ts.push_back(s);
	}
	if(fin)
		want.push_back(std::make_pair(2, nullptr)), ts.push_back(s);
	c.nontrivial(want.size() > 1);
	auto b = bunch(l, p);
	ParticleTracker t(l.model->GetBeamline());
	setup(t, l);
	t.SetOutput(&o);
	t.Track(b.get());
	c.eq(o.rec.size(), want.size(), "number of records");
	for(size_t i = 0; i < want.size(); ++i)
	{
		c.check(o.rec[i] == want[i], "record " + std::to_string(i) + " is of another component");
		c.near(o.xs[i], ts[i], 1e-12, 1e-12, "bunch position at record " + std::to_string(i));
	}
}

namespace
{
struct Thrower: public TBunchProc<ParticleBunch>
{
	const AcceleratorComponent* where;
	Thrower(const AcceleratorComponent* w) :
		TBunchProc<ParticleBunch>("THROW", 5), where(w)
	{
	}
	void InitialiseProcess(Bunch& b)
	{
		TBunchProc<ParticleBunch>::InitialiseProcess(b);
		active = true;
	}
	void DoProcess(double)
	{
		if(currentComponent == where)
			throw MerlinException("injected");
	}
	double GetMaxAllowedStepSize() const
	{
		return 1e9;
	}
};
}

LAW(exceptions, 2000, 20000, "an exception of a process leaves the bunch at the component where it occurred, with its owner")
{
	Line l = make_line(g, c, 1, 6, false);
	Parts p = make_bunch(g, c, 1, 3);
	size_t k = g.raw(l.comps.size() - 1);
	c.desc << " thrown at " << k;
	c.nontrivial(l.comps.size() > 1);
	auto b = bunch(l, p), r = bunch(l, p);
	ParticleTracker t(l.model->GetBeamline());
	setup(t, l);
	t.AddProcess(new Thrower(l.comps[k]));
	bool thrown = false;
	try
	{
		t.Track(b.get());
	}
	catch(MerlinException&)
	{
		thrown = true;
	}
	c.check(thrown, "the exception is passed on");
	ParticleTracker t1(l.model->GetBeamline(0, k));
	setup(t1, l);
	t1.Track(r.get());
	same(c, *b, *r, "bunch at the exception");
}

namespace
{
// spoils a coordinate of some particles at a component
struct Spoil: public TBunchProc<ParticleBunch>
{
	std::vector<std::tuple<const AcceleratorComponent*, size_t, int, double> > what;
	std::vector<size_t> tags;                // of the particles in the bunch
	std::set<size_t> spoilt;
	bool lost = false;
	Spoil() : TBunchProc<ParticleBunch>("SPOIL", 5) {}
	void InitialiseProcess(Bunch& b)
	{
		TBunchProc<ParticleBunch>::InitialiseProcess(b);
		active = true;
	}
	void DoProcess(double)
	{
		if(currentBunch->size() < tags.size())
			tags.erase(std::remove_if(tags.begin(), tags.end(), [&](size_t t) { return spoilt.count(t) > 0; }), tags.end());
		lost = lost || currentBunch->size() != tags.size();
		if(lost)
			return;
		for(auto& w : what)
			if(std::get<0>(w) == currentComponent)
				for(size_t i = 0; i < tags.size(); ++i)
					if(tags[i] == std::get<1>(w))
					{
						currentBunch->GetParticles()[i][std::get<2>(w)] = std::get<3>(w);
						spoilt.insert(tags[i]);
					}
	}
	double GetMaxAllowedStepSize() const { return 1e9; }
};
}

LAW(finite, 4000, 60000, "the check for coordinates that are not finite removes exactly those particles when asked to, reports each once, and changes nothing else")
{
	Line l = make_line(g, c, 2, 7, false);
	Parts p = make_bunch(g, c, 1, 12);
	if(g.b())
		for(size_t i = 0; i < p.size(); ++i)
			p[i].id() = i;
	bool cull = g.chance(3, 4), detailed = g.b();
	const double bad[] = {NAN, INFINITY, -INFINITY};
	Spoil* spoil = new Spoil;
	NANCheckProcess* check = new NANCheckProcess;
	for(size_t i = 0; i < p.size(); ++i)
		spoil->tags.push_back(i);
	std::vector<char> spoilt(p.size(), 0);
	Parts start = p;
	std::set<int64_t> ids;
	size_t left = p.size();
	for(size_t i = 0; i < p.size(); ++i)
		if(left > 1 && g.chance(1, 3))
		{
			spoilt[i] = 1;
			--left;
			ids.insert(p[i].id());
			int k = g.i(0, 5);
			double v = bad[g.raw(2)];
			size_t at = g.raw(l.comps.size() - 1);
			c.desc << "; " << i << " [" << k << "]=" << v << " at " << at;
			if(at + 1 == l.comps.size())
			{
				start[i][k] = v;
				spoil->spoilt.insert(i);
			}
			else
				spoil->what.push_back(std::make_tuple(l.comps[at], i, k, v));
		}
	c.desc << (cull ? " cull" : "") << (detailed ? " detailed" : "");
	c.nontrivial(left < p.size() && left > 1);
	auto want = run(l, p), got = bunch(l, start);
	for(auto& x : *want)
		for(int k = 0; k < 6; ++k)
			if(!std::isfinite(x[k]))
				c.discard();         // strong fields lose particles by themselves
	check->SetCullNAN(cull);
	check->SetDetailed(detailed);
	std::ostringstream out;
	{
		ParticleTracker t(l.model->GetBeamline());
		setup(t, l);
		t.AddProcess(spoil);
		t.AddProcess(check);
		std::streambuf* old = std::cout.rdbuf(out.rdbuf());
		try
		{
			t.Track(got.get());
		}
		catch(...)
		{
			std::cout.rdbuf(old);
			throw;
		}
		std::cout.rdbuf(old);
		c.check(!spoil->lost, "only particles that are not finite are removed on the way");
	}
	c.eq(got->size(), cull ? left : p.size(), "particles after the check");
	c.near(got->GetTotalCharge(), l.q * got->size(), 1e-12, 0, "charge after the check");
	ParticleBunch a(l.P0, l.q), b(l.P0, l.q);
	a.IncrReferenceTime(got->GetReferenceTime());
	b.IncrReferenceTime(want->GetReferenceTime());
	for(size_t i = 0, k = 0; i < p.size(); ++i)
	{
		if(spoilt[i])
		{
			k += !cull;
			continue;
		}
		a.AddParticle(got->GetParticles()[k++]);
		b.AddParticle(want->GetParticles()[i]);
	}
	same(c, a, b, "finite particles");
	size_t reports = 0;
	for(size_t at = out.str().find("NAN entry"); at != std::string::npos; at = out.str().find("NAN entry", at + 1))
		++reports;
	c.eq(reports, ids.size(), "reported particles");
}
