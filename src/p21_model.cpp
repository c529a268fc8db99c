// P21: models keep every component once, in order, and find it.
// Stateful test: random histories of construction calls against a flat reference list.
#include "pbt.h"
#include <memory>
#include <set>
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "Components.h"
#include "BPM.h"
#include "SequenceFrame.h"
#include "SupportStructure.h"
#include "MagnetMover.h"
#include "GeometryPatch.h"
#include "PatchFrame.h"
#include "ConstructSrot.h"
#include "TComponentFrame.h"
using pbt::Gen;
using pbt::Ctx;
pbt::Info pbt::info = {"P21", "the model has at least three components and at least one nested frame, or at least four components with two equal names",
	"Names consist of letters, digits, dots and underscores, as MAD names do."};

namespace
{
struct Item
{
	std::string type, name;
	double L = 0;
	AcceleratorComponent* c = nullptr;  // null for a patch
	double mid = 0;
	std::string id() const
	{
		return type + "." + name;
	}
};
// reference glob: dynamic programming, with | for alternatives
bool glob1(const std::string& p, const std::string& s)
{
	std::vector<char> r(s.size() + 1, 0);
	r[0] = 1;
	for(char ch : p)
	{
		std::vector<char> n(s.size() + 1, 0);
		if(ch == '*')
		{
			char any = 0;
			for(size_t i = 0; i <= s.size(); ++i)
				n[i] = any = any || r[i];
		}
		else
			for(size_t i = 0; i < s.size(); ++i)
				n[i + 1] = r[i] && s[i] == ch;
		r.swap(n);
	}
	return r[s.size()];
}
bool glob(const std::string& p, const std::string& s)
{
	size_t a = 0;
	while(true)
	{
		size_t b = p.find('|', a);
		if(glob1(p.substr(a, b == std::string::npos ? b : b - a), s))
			return true;
		if(b == std::string::npos)
			return false;
		a = b + 1;
	}
}
struct World
{
	Gen& g;
	Ctx& c;
	AcceleratorModelConstructor mc;
	std::vector<Item> ref;
	std::vector<AcceleratorComponent*> made;
	size_t frames = 0, girders = 0, simple = 0;
	std::multiset<std::string> elements;   // qualified names of everything in the repository
	World(Gen& gg, Ctx& cc) :
		g(gg), c(cc)
	{
	}
	std::string name()
	{
		static const std::vector<std::string> pool = {"QF", "QD", "B", "QF.1", "QFA", "M_1", "D"};
		return g.b() ? g.pick(pool) : g.str("QFD1.", 1, 4);
	}
	double len()
	{
		return g.chance(1, 5) ? 0 : g.b() ? 0.1 * g.i(1, 30) : g.real(0.01, 5);
	}
	template<class T> T* own(T* t, Item& it)
	{
		it.c = t;
		it.type = t->GetType();
		it.name = t->GetName();
		it.L = t->GetLength();
		return t;
	}
	// the caller appends
	template<class F> void component(F f)
	{
		Item it;
		std::string n = name();
		switch(g.i(0, 5))
		{
		case 0:
			f(own(new Drift(n, len()), it));
			break;
		case 1:
			f(own(new Quadrupole(n, len(), 1), it));
			break;
		case 2:
			f(own(new SectorBend(n, 0.5 + len(), g.coord(0.1), 1), it));
			break;
		case 3:
			f(own(new Sextupole(n, len(), 1), it));
			break;
		case 4:
			f(own(new Marker(n), it));
			break;
		default:
			f(own(new BPM(n, len()), it));
		}
		elements.insert(it.id());
		ref.push_back(it);
		c.desc << it.id() << ":" << it.L << " ";
	}
	PatchFrame* patch()
	{
		GeometryPatch* gp = new GeometryPatch;
		gp->RotateZ(g.coord(1));
		Item it;
		it.type = "PatchFrame";
		it.name = "P" + std::to_string(ref.size() % 3);
		ref.push_back(it);
		elements.insert(it.id());
		c.desc << "patch ";
		return new PatchFrame(gp, it.name);
	}
	SequenceFrame* frame()
	{
		++frames;
		std::string n = name();
		SequenceFrame* f;
		switch(g.i(0, 3))
		{
		case 0:
			f = new MagnetMover(n);
			break;
		case 1:
			f = new GirderMount(n);
			++girders;
			break;
		case 2:
			f = new SimpleMount(n);
			++simple;
			break;
		default:
			f = new SequenceFrame(n, g.pick({SequenceFrame::originAtCenter, SequenceFrame::originAtEntrance, SequenceFrame::originAtExit}));
		}
		elements.insert(f->GetQualifiedName());
		return f;
	}
	// a frame built on its own
	SequenceFrame* assembled(int depth)
	{
		SequenceFrame* f = frame();
		c.desc << "{ ";
		for(int k = g.i(1, 3); k > 0; --k)
		{
			if(depth > 0 && g.chance(1, 4))
				f->AppendFrame(*assembled(depth - 1));
			else if(g.chance(1, 6))
			{
				PatchFrame* p = patch();
				f->AppendFrame(*p);
			}
			else
			{
				LatticeFrame* lf = nullptr;
				struct Mk
				{
					LatticeFrame*& lf;
					std::multiset<std::string>& el;
					void operator()(Drift* x) { lf = new TComponentFrame<Drift>(*x); }
					void operator()(Quadrupole* x) { lf = new TComponentFrame<Quadrupole>(*x); }
					void operator()(SectorBend* x) { lf = new TComponentFrame<SectorBend>(*x); }
					void operator()(Sextupole* x) { lf = new TComponentFrame<Sextupole>(*x); }
					void operator()(Marker* x) { lf = new TComponentFrame<Marker>(*x); }
					void operator()(BPM* x) { lf = new TComponentFrame<BPM>(*x); }
				};
				component(Mk{lf, elements});
				elements.insert(lf->GetQualifiedName());
				f->AppendFrame(*lf);
			}
		}
		c.desc << "} ";
		return f;
	}
	struct App
	{
		World& w;
		double d;
		template<class T> void operator()(T* x)
		{
			if(d)
			{
				Item it;
				it.type = "Drift";
				it.name = "UNNAMED";
				it.L = d;
				w.ref.push_back(it);
				w.elements.insert(it.id());
				w.elements.insert("ComponentFrame." + it.id());
				w.c.desc << "+" << d << " ";
			}
			T* r = w.g.b() ? w.mc.AppendComponent(*x, d) : w.mc.AppendComponent(x, d);
			w.c.check(r == x, "AppendComponent returns the component");
			w.elements.insert("ComponentFrame." + x->GetQualifiedName());
		}
	};
	void build()
	{
		int depth = 0;
		std::vector<int> content(1, 0);
		for(int k = g.i(1, 14); k > 0; --k)
		{
			switch(g.i(0, 7))
			{
			case 0:
				mc.NewFrame(frame());
				++depth;
				content.push_back(0);
				c.desc << "[ ";
				break;
			case 1:
				if(depth > 0 && content.back() > 0)
				{
					mc.EndFrame();
					--depth;
					content.pop_back();
					++content.back();
					c.desc << "] ";
				}
				break;
			case 2:
				{
					// the frame keeps what it was built from
					mc.AppendFrame(assembled(1));
					++content.back();
					break;
				}
			case 3:
				if(g.b())
				{
					PatchFrame* p = patch();
					mc.AppendComponentFrame(p);
				}
				else
				{
					double d = g.real(0.1, 2);
					mc.AppendDrift(d);
					Item it;
					it.type = "Drift";
					it.name = "UNNAMED";
					it.L = d;
					ref.push_back(it);
					elements.insert(it.id());
					elements.insert("ComponentFrame." + it.id());
					c.desc << "drift " << d << " ";
				}
				++content.back();
				break;
			default:
				{
					// the drift, if any, comes first
					double d = g.chance(1, 5) ? g.real(0.1, 2) : 0;
					component(App{*this, d});
					++content.back();
				}
			}
			c.eq(mc.GetCurrentFrameDepth(), depth, "depth of open frames");
		}
		while(depth-- > 0)
		{
			if(content.back() == 0)
				component(App{*this, 0});
			content.pop_back();
			++content.back();
			mc.EndFrame();
			c.desc << "] ";
		}
		if(ref.empty())
			component(App{*this, 0});
		double s = 0;
		for(auto& it : ref)
		{
			it.mid = s + it.L / 2;
			s += it.L;
		}
	}
	double L() const
	{
		double s = 0;
		for(auto& it : ref)
			s += it.L;
		return s;
	}
	std::string pattern()
	{
		std::string p = ref[g.i(0, (int) ref.size() - 1)].id();
		int k = g.i(0, 3);
		while(k-- > 0 && !p.empty())
		{
			size_t a = g.raw(p.size() - 1), n = g.raw(p.size() - a);
			p = p.substr(0, a) + "*" + p.substr(a + n);
		}
		if(g.chance(1, 8))
			p += "|" + ref[g.i(0, (int) ref.size() - 1)].id();
		if(g.chance(1, 12))
			p = "*";
		if(g.chance(1, 12))
			p = name();
		return p;
	}
};
void in_order(Ctx& c, const World& w, AcceleratorModel::Beamline b, size_t i, size_t k, const std::string& what)
{
	c.eq((size_t) (b.end() - b.begin()), k - i + 1, what + ": number of components");
	c.eq((size_t) b.first_index(), i, what + ": first index");
	c.eq((size_t) b.last_index(), k, what + ": last index");
	size_t n = i;
	for(auto it = b.begin(); it != b.end(); ++it, ++n)
	{
		const Item& r = w.ref[n];
		if(r.type != "PatchFrame")
		{
			c.check((*it)->IsComponent(), what + ": entry " + std::to_string(n) + " is a component");
			c.eq((*it)->GetComponent().GetQualifiedName(), r.id(), what + ": name of entry " + std::to_string(n));
			if(r.c)
				c.check(&(*it)->GetComponent() == r.c, what + ": identity of entry " + std::to_string(n));
			c.same((*it)->GetComponent().GetLength(), r.L, what + ": length of entry " + std::to_string(n));
		}
		else
			c.check(!(*it)->IsComponent() && (*it)->GetName() == r.name, what + ": patch " + std::to_string(n));
	}
}
template<class T> void typed(Ctx& c, World& w, AcceleratorModel& m, const std::string& type, const std::string& pat)
{
	std::vector<TComponentFrame<T>*> v;
	int n = m.ExtractTypedComponents(v, pat);
	std::vector<std::string> e, a;
	for(auto& r : w.ref)
		if(r.type == type && glob(pat, r.name))
			e.push_back(r.id() + "@" + std::to_string((size_t) &r - (size_t) &w.ref[0]));
	for(auto f : v)
		a.push_back(f->GetComponent().GetQualifiedName() + "@" + std::to_string(f->GetBeamlineIndex() * sizeof(Item)));
	c.eq((size_t) n, e.size(), "number of typed components " + type + " " + pat);
	c.check(a == e, "typed components " + type + " " + pat + " in order");
	std::vector<T*> el;
	n = m.ExtractTypedElements(el, pat);
	c.eq((size_t) n, e.size(), "number of typed elements " + type + " " + pat);
	std::set<T*> s(el.begin(), el.end());
	c.eq(s.size(), e.size(), "distinct typed elements " + type + " " + pat);
	for(auto f : v)
		c.check(s.count(&f->GetComponent()) == 1, "typed element of a component");
}
}

LAW(histories, 25000, 300000, "every construction history gives the components once, in order, at their positions, and queries find exactly them")
{
	World w(g, c);
	w.build();
	std::unique_ptr<AcceleratorModel> m(w.mc.GetModel());
	size_t n = w.ref.size();
	std::set<std::string> names;
	for(auto& r : w.ref)
		names.insert(r.name);
	c.nontrivial((n > 2 && w.frames > 0) || (n > 3 && names.size() < n));
	in_order(c, w, m->GetBeamline(), 0, n - 1, "beamline");
	double L = w.L();
	c.near(m->GetGlobalFrame().GetGeometryLength(), L, 1e-13, 1e-14, "length");
	{
		AcceleratorModel::Beamline b = m->GetBeamline();
		size_t k = 0;
		for(auto i = b.begin(); i != b.end(); ++i, ++k)
		{
			c.near((*i)->GetPosition(&m->GetGlobalFrame()), w.ref[k].mid, 0, 1e-11, "position of entry " + std::to_string(k));
			c.eq((*i)->GetBeamlineIndex(), k, "index of entry " + std::to_string(k));
		}
		AcceleratorModel::Beamline r = m->GetReversedBeamline();
		c.eq((size_t) r.first_index(), n - 1, "reversed beamline");
		c.eq((size_t) r.last_index(), (size_t) 0, "reversed beamline");
		c.check(r.IsReversed() == (n > 1), "reversed beamline is reversed");
	}
	// ranges
	for(int t = 0; t < 2; ++t)
	{
		size_t i = g.raw(n + 1), k = g.raw(n + 1);
		if(i < n && k < n && i <= k)
			in_order(c, w, m->GetBeamline(i, k), i, k, "range");
		else if(i >= n || k >= n)
			c.check(pbt::throws<AcceleratorModel::BadRange>([&]()
				{
					m->GetBeamline(i, k);
				}), "range beyond the end");
	}
	// ranges by name
	{
		std::string p1 = w.pattern(), p2 = w.pattern();
		int n1 = g.chance(1, 3) ? g.i(1, 3) : 1, n2 = g.chance(1, 3) ? g.i(1, 3) : 1;
		c.desc << "| " << p1 << "#" << n1 << " to " << p2 << "#" << n2;
		size_t i1 = n, i2 = n;
		int a = 0, b = 0;
		for(size_t k = 0; k < n; ++k)
		{
			if(glob(p1, w.ref[k].id()) && ++a == n1)
				i1 = k;
			if(glob(p2, w.ref[k].id()) && ++b == n2)
				i2 = k;
		}
		if(i1 == n || i2 == n)
		{
			c.label("no such range");
			c.check(pbt::throws<AcceleratorModel::BadRange>([&]()
				{
					m->GetBeamline(p1, p2, n1, n2);
				}), "no such range");
		}
		else
		{
			AcceleratorModel::Beamline bl = m->GetBeamline(p1, p2, n1, n2);
			c.eq((size_t) bl.first_index(), i1, "begin of a range by name");
			c.eq((size_t) bl.last_index(), i2, "end of a range by name");
			if(i1 <= i2)
				in_order(c, w, bl, i1, i2, "range by name");
			std::vector<AcceleratorModel::Index> ix(3, 77);
			if(i1 <= i2)
			{
				std::string p = w.pattern();
				m->GetIndexes(bl, p, ix);
				std::vector<AcceleratorModel::Index> e;
				for(size_t k = i1; k <= i2; ++k)
					if(w.ref[k].type != "PatchFrame" && glob(p, w.ref[k].id()))
						e.push_back(k);
				c.check(ix == e, "indexes within a range");
			}
		}
	}
	// queries
	for(int t = 0; t < 3; ++t)
	{
		std::string p = w.pattern();
		c.desc << " ? " << p;
		std::vector<ComponentFrame*> f(2, nullptr);
		int k = m->ExtractComponents(p, f);
		std::vector<size_t> e, a;
		for(size_t i = 0; i < n; ++i)
			if(glob(p, w.ref[i].id()))
				e.push_back(i);
		for(auto x : f)
			a.push_back(x->GetBeamlineIndex());
		c.eq((size_t) k, f.size(), "returned number of components");
		c.check(a == e, "components that match " + p);
		std::vector<AcceleratorModel::Index> ix = m->GetIndexes(p), ei;
		for(size_t i : e)
			if(w.ref[i].type != "PatchFrame")
				ei.push_back(i);
		c.check(ix == ei, "indexes that match " + p);
		std::vector<ModelElement*> me(1, nullptr);
		k = m->ExtractModelElements(p, me);
		size_t cnt = 0;
		for(auto& x : w.elements)
			cnt += glob(p, x);
		c.eq((size_t) k, me.size(), "returned number of elements");
		c.eq(me.size(), cnt, "elements that match " + p);
		std::set<ModelElement*> s(me.begin(), me.end());
		c.eq(s.size(), me.size(), "distinct elements");
		for(auto x : me)
			c.check(glob(p, x->GetQualifiedName()), "element matches");
	}
	{
		std::string p = g.b() ? "*" : g.b() ? w.name() : "Q*";
		typed<Drift>(c, w, *m, "Drift", p);
		typed<Quadrupole>(c, w, *m, "Quadrupole", p);
		typed<SectorBend>(c, w, *m, "SectorBend", p);
		typed<Marker>(c, w, *m, "Marker", p);
		typed<BPM>(c, w, *m, "BPM", p);
	}
	AcceleratorSupportList sup;
	c.eq(m->GetAcceleratorSupports(sup), 2 * w.girders + w.simple, "supports");
	c.eq(sup.size(), 2 * w.girders + w.simple, "supports");
	// rings
	{
		size_t at = g.raw(n - 1);
		AcceleratorModel::RingIterator r = m->GetRing((int) at);
		long pos = (long) at;
		for(int k = g.i(1, 30); k > 0; --k)
		{
			c.eq((*r)->GetBeamlineIndex(), (size_t) pos, "position in the ring");
			bool fwd = g.chance(2, 3), post = g.b();
			if(post)
			{
				AcceleratorModel::RingIterator o = fwd ? r++ : r--;
				c.eq((*o)->GetBeamlineIndex(), (size_t) pos, "old position in the ring");
			}
			else if(fwd)
				++r;
			else
				--r;
			pos = (pos + (fwd ? 1 : (long) n - 1)) % (long) n;
		}
	}
	// statistics
	{
		std::ostringstream o;
		m->ReportModelStatistics(o);
		std::istringstream is(o.str());
		std::string line;
		std::map<std::string, int> e, a;
		for(auto& x : w.elements)
			e[x.substr(0, x.find('.'))]++;
		bool table = false;
		size_t total = 0, comps = 0;
		while(std::getline(is, line))
		{
			if(line.find("components:") != std::string::npos)
				comps = atol(line.c_str() + line.find(':') + 1);
			if(line.find("elements:") != std::string::npos)
				total = atol(line.c_str() + line.find(':') + 1);
			if(line.find("-----") != std::string::npos)
				table = true;
			else if(table)
			{
				std::istringstream ls(line);
				std::string ty;
				int k;
				if(ls >> ty >> k)
					a[ty] = k;
			}
		}
		c.eq(comps, n, "reported components");
		c.eq(total, w.elements.size(), "reported elements");
		c.check(a == e, "reported statistics");
	}
}

LAW(install, 10000, 100000, "installing a thin element into a drift keeps everything else")
{
	World w(g, c);
	int n = g.i(1, 8);
	for(int k = 0; k < n; ++k)
	{
		w.component(World::App{w, 0});
		if(w.ref.back().type == "Drift")
			c.label("drift");
	}
	if(w.L() == 0)
		c.discard();
	std::unique_ptr<AcceleratorModel> m(w.mc.GetModel());
	int done = 0;
	for(int t = g.i(1, 4); t > 0; --t)
	{
		// a point inside of a drift
		std::vector<size_t> d;
		double s = 0;
		for(size_t i = 0; i < w.ref.size(); ++i)
			if(w.ref[i].type == "Drift" && w.ref[i].L > 1e-3)
				d.push_back(i);
		if(d.empty())
			break;
		size_t k = g.pick(d);
		for(size_t i = 0; i < k; ++i)
			s += w.ref[i].L;
		double f = g.real(0.05, 0.95), at = s + f * w.ref[k].L;
		c.desc << "| at " << at << " ";
		Marker* mk = new Marker("NEW" + std::to_string(t));
		std::ostringstream sink;
		auto old = std::cout.rdbuf(sink.rdbuf());
		m->InstallModelElement(mk, at);
		std::cout.rdbuf(old);
		Item a = w.ref[k], b = w.ref[k], e;
		a.name += "_part1";
		b.name += "_part2";
		a.c = b.c = nullptr;
		a.L = f * a.L;
		b.L -= a.L;
		e.type = "Marker";
		e.name = mk->GetName();
		e.c = mk;
		w.ref[k] = b;
		w.ref.insert(w.ref.begin() + k, e);
		w.ref.insert(w.ref.begin() + k, a);
		++done;
		// the three new components know where they begin
		auto bl = m->GetBeamline(k, k + 2);
		const double begin[3] = {s, at, at};
		size_t j = 0;
		for(auto x = bl.begin(); x != bl.end() && j < 3; ++x, ++j)
			c.near((*x)->GetComponent().GetComponentLatticePosition(), begin[j], 0, 1e-11, "begin of new component " + std::to_string(j));
		c.eq(j, (size_t) 3, "new components");
	}
	c.nontrivial(done > 0 && w.ref.size() > 3);
	AcceleratorModel::Beamline b = m->GetBeamline();
	c.eq((size_t) (b.end() - b.begin()), w.ref.size(), "number of components");
	size_t k = 0;
	double s = 0;
	for(auto i = b.begin(); i != b.end(); ++i, ++k)
	{
		const Item& r = w.ref[k];
		std::string nm = " of entry " + std::to_string(k);
		c.eq((*i)->GetComponent().GetQualifiedName(), r.id(), "name" + nm);
		c.check(!r.c || r.c == &(*i)->GetComponent(), "identity" + nm);
		c.near((*i)->GetComponent().GetLength(), r.L, 0, 1e-11, "length" + nm);
		c.near((*i)->GetPosition(), s + r.L / 2, 0, 1e-11, "position" + nm);
		c.eq((*i)->GetBeamlineIndex(), k, "index" + nm);
		s += r.L;
		std::vector<ModelElement*> me;
		m->ExtractModelElements(r.id(), me);
		c.check(std::find(me.begin(), me.end(), &(*i)->GetComponent()) != me.end(), "the repository knows entry " + std::to_string(k));
	}
	std::vector<ComponentFrame*> f;
	c.eq(m->ExtractComponents("Marker.NEW*", f), done, "installed elements found");
}
