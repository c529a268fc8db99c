// P23: channels read and write exactly the parameter they name.
// Stateful test: a model of every controllable element, queries by pattern, reads and writes against a reference table.
#include "mlib.h"
#include <map>
#include <set>
#include <algorithm>
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "Components.h"
#include "TWRFStructure.h"
#include "SWRFStructure.h"
#include "TransverseRFStructure.h"
#include "CorrectorWinding.h"
#include "MagnetMover.h"
#include "BPM.h"
#include "BPMChannel.h"
#include "ChannelServer.h"
#include "BPMChannelCtor.h"
#include "Channels.h"
#include "RWChannelState.h"
using namespace ml;

pbt::Info pbt::info = {"P23",
	"Models of 1-14 elements of every kind that has channels (and some that have none) with equal, dotted and overlapping names; "
	"queries with wildcards in type, name and key, over the model or a part of its beamline; histories of reads, writes, "
	"increments, array operations and restored states. Non-trivial: a query matched at least one channel.",
	"Writing the main strength of a magnet scales all its field components (corrector windings, quadrupole component of a bend); "
	"the strength of magnets with other components is not set to zero."};

namespace
{
bool glob(const std::string& p, const std::string& s)
{
	std::vector<char> r(s.size() + 1, 0);
	r[0] = 1;
	for(char ch : p)
	{
		std::vector<char> n(s.size() + 1, 0);
		if(ch == '*')
		{
			char any = 0;
			for(size_t i = 0; i <= s.size(); ++i)
				n[i] = any = any || r[i];
		}
		else
			for(size_t i = 0; i < s.size(); ++i)
				n[i + 1] = r[i] && s[i] == ch;
		r.swap(n);
	}
	return r[s.size()];
}
struct Elem
{
	std::string type, name;
	bool component = false;           // in the beamline
	int order = 0;
	std::map<std::string, std::function<double()> > get;   // independent of the channels
	std::map<std::string, double> val;
	std::function<void(Elem&, const std::string&, double)> effect;   // of a write on val
	Elem* winding = nullptr;
	bool ro = false;
	BPM* bpm = nullptr;
	std::string id() const
	{
		return type + "." + name;
	}
};
struct World
{
	Gen& g;
	Ctx& c;
	std::unique_ptr<AcceleratorModel> m;
	std::vector<std::unique_ptr<Elem> > es;
	int comps = 0;
	World(Gen& gg, Ctx& cc) :
		g(gg), c(cc)
	{
		AcceleratorModelConstructor mc;
		mc.NewModel();
		int n = g.i(1, 14);
		for(int i = 0; i < n; ++i)
			add(mc);
		m.reset(mc.GetModel());
		c.desc << "\n";
	}
	std::string name()
	{
		static const std::vector<std::string> pool = {"Q1", "Q1.1", "Q11", "Q", "MQ.12R1.B1", "A", "Q1.B1"};
		return g.pick(pool);
	}
	double value()
	{
		return g.chance(1, 4) ? g.i(1, 3) * 0.5 : g.sym(2) + (g.b() ? 3 : -3);
	}
	Elem& elem(const std::string& t, const std::string& nm)
	{
		es.emplace_back(new Elem);
		es.back()->type = t;
		es.back()->name = nm;
		es.back()->component = true;
		es.back()->order = comps++;
		c.desc << t << "." << nm << " ";
		return *es.back();
	}
	template<class T> void multipole(AcceleratorModelConstructor& mc, T* t, const std::string& key)
	{
		Elem& e = elem(t->GetType(), t->GetName());
		mc.AppendComponent(t);
		double s = t->GetField().GetFieldScale();
		e.get[key] = [t] {
				return t->GetField().GetFieldScale();
			};
		e.val[key] = s;
		Elem* w = nullptr;
		if(g.chance(1, 4) && key != "B0")
		{
			es.emplace_back(new Elem);
			w = es.back().get();
			w->type = "CorrectorWinding";
			w->name = t->GetName();
			c.desc << "+winding ";
			mc.AddModelElement(new CorrectorWinding(*t));
			double L = t->GetLength();
			w->get["X"] = [t, L] {
					return t->GetField().GetBFieldAt(Point3D(0, 0, 0)).y * L;
				};
			w->get["Y"] = [t, L] {
					return t->GetField().GetBFieldAt(Point3D(0, 0, 0)).x * L;
				};
			w->val["X"] = w->val["Y"] = 0;
			w->effect = [](Elem& q, const std::string& k, double v) {
					q.val[k] = v;
				};
		}
		e.winding = w;
		e.effect = [w](Elem& q, const std::string& k, double v) {
				if(w)
				{
					w->val["X"] *= v / q.val[k];
					w->val["Y"] *= v / q.val[k];
				}
				q.val[k] = v;
			};
	}
	template<class T> void rf(AcceleratorModelConstructor& mc, T* t)
	{
		Elem& e = elem(t->GetType(), t->GetName());
		mc.AppendComponent(t);
		const RFAcceleratingField& f = static_cast<const T*>(t)->GetField();
		e.get["E"] = [&f] {
				return f.GetAmplitude();
			};
		e.get["Phi"] = [&f] {
				return f.GetPhase();
			};
		e.get["K"] = [&f] {
				return f.GetK();
			};
		e.get["Lambda"] = [&f] {
				return f.GetWavelength();
			};
		for(auto& k : e.get)
			e.val[k.first] = k.second();
		e.effect = [](Elem& q, const std::string& k, double v) {
				q.val[k] = v;
				if(k == "K")
					q.val["Lambda"] = twoPi / v;
				if(k == "Lambda")
					q.val["K"] = twoPi / v;
			};
	}
	void add(AcceleratorModelConstructor& mc)
	{
		std::string n = name();
		double L = 0.1 * g.i(1, 9), v = value();
		switch(g.i(0, 16))
		{
		case 0:
			return multipole(mc, new Quadrupole(n, L, v), "B1");
		case 1:
			return multipole(mc, new Sextupole(n, L, v), "B2");
		case 2:
			return multipole(mc, new Octupole(n, L, v), "B3");
		case 3:
			return multipole(mc, new SkewQuadrupole(n, L, v), "B1");
		case 4:
			return multipole(mc, new SkewSextupole(n, L, v), "B2");
		case 5:
			return multipole(mc, new XCor(n, L, v), "B0");
		case 6:
			return multipole(mc, new YCor(n, L, v), "B0");
		case 7:
			{
				Solenoid* s = new Solenoid(n, L, v);
				Elem& e = elem("Solenoid", n);
				mc.AppendComponent(s);
				e.get["Bz"] = [s] {
						return static_cast<EMField*>(const_cast<EMField*>(s->GetEMField()))->GetBFieldAt(Point3D(0, 0, 0)).z;
					};
				e.val["Bz"] = v;
				e.effect = [](Elem& q, const std::string& k, double x) {
						q.val[k] = x;
					};
				return;
			}
		case 8:
			{
				SectorBend* s = new SectorBend(n, L, 0.01, v);
				Elem& e = elem("SectorBend", n);
				double b1 = g.b() ? 0 : value();
				if(b1 != 0)
					s->SetB1(b1);
				mc.AppendComponent(s);
				e.get["B0"] = [s] {
						return s->GetField().GetBFieldAt(Point3D(0, 0, 0)).y;
					};
				e.get["B1"] = [s] {
						return s->GetField().GetBFieldAt(Point3D(1, 0, 0)).y - s->GetField().GetBFieldAt(Point3D(0, 0, 0)).y;
					};
				e.val["B0"] = v;
				e.val["B1"] = b1;
				e.effect = [](Elem& q, const std::string& k, double x) {
						if(k == "B0")
							q.val["B1"] *= x / q.val["B0"];
						q.val[k] = x;
					};
				return;
			}
		case 9:
			return rf(mc, new TWRFStructure(n, L, 1e9, v, 0.5));
		case 10:
			return rf(mc, new SWRFStructure(n, 3, 1e9, v, 0.5));
		case 11:
			{
				TransverseRFStructure* t = new TransverseRFStructure(n, L, 1e9, v, 0.5, 0.25);
				rf(mc, t);
				es.back()->get["ROLL"] = [t] {
						Vector3D E = t->GetEMField()->GetEFieldAt(Point3D(0, 0, 0), 0);
						double s = t->GetAmplitude() * cos(t->GetPhase()) < 0 ? -1 : 1;
						return atan2(s * E.y, s * E.x);
					};
				es.back()->val["ROLL"] = 0.25;
				return;
			}
		case 12:
			{
				MagnetMover* mm = new MagnetMover(n);
				mc.NewFrame(mm);
				es.emplace_back(new Elem);
				Elem& e = *es.back();
				e.type = "MagnetMover";
				e.name = n;
				c.desc << "MagnetMover." << n << "( ";
				auto T = [mm] {
						return mm->GetLocalFrameTransform();
					};
				e.get["X"] = [T] {
						return T().X().x;
					};
				e.get["Y"] = [T] {
						return T().X().y;
					};
				e.get["Roll"] = [T] {
						Vector3D u = T().R().inv() * Vector3D(1, 0, 0);
						return atan2(u.y, u.x);
					};
				for(auto& k : e.get)
					e.val[k.first] = 0;
				e.effect = [](Elem& q, const std::string& k, double x) {
						q.val[k] = x;
					};
				multipole(mc, new Quadrupole(name(), L, v), "B1");
				mc.EndFrame();
				c.desc << ") ";
				return;
			}
		case 13:
			{
				Elem& e = elem("BPM", n);
				BPM* b = new BPM(n);
				mc.AppendComponent(b);
				e.ro = true;
				e.bpm = b;
				e.val["X"] = e.val["Y"] = 0;
				return;
			}
		case 14:
			elem("Drift", n);
			mc.AppendComponent(new Drift(n, L));
			return;
		case 15:
			elem("Marker", n);
			mc.AppendComponent(new Marker(n));
			return;
		default:
			elem("Decapole", n);
			mc.AppendComponent(new Decapole(n, L, v));
		}
	}
	std::vector<std::pair<Elem*, std::string> > all(const std::string& eid, const std::string& key, bool write, bool line, int a, int b)
	{
		std::vector<std::pair<Elem*, std::string> > r;
		for(auto& e : es)
			if(glob(eid, e->id()) && !(write && e->ro) && !(line && (!e->component || e->order < a || e->order > b)))
				for(auto& k : e->val)
					if(glob(key, k.first))
						r.push_back({e.get(), k.first});
		return r;
	}
	void verify(const std::string& w)
	{
		for(auto& e : es)
			for(auto& k : e->get)
				c.near(k.second(), e->val[k.first], 1e-10, 1e-10, w + ": " + e->id() + "." + k.first + " itself");
	}
	double fresh(const std::string& key)
	{
		if(key == "Roll" || key == "ROLL" || key == "Phi")
			return g.unit() * 1.4 + 0.01;
		if(key == "K" || key == "Lambda")
			return 0.1 + g.unit();
		return value();
	}
};
std::string pattern(Gen& g, World& w, bool line)
{
	static const std::vector<std::string> types = {"*", "*", "Quadrupole", "Q*", "*RF*", "MagnetMover", "CorrectorWinding", "BPM", "S*", "*pole", "Sector*", "?"};
	static const std::vector<std::string> keys = {"*", "*", "B1", "B*", "X", "Y", "E", "K", "Phi", "Roll", "*l", "B2", "Bz"};
	std::string t, n, k;
	if(g.chance(3, 4))
	{
		Elem& e = *w.es[g.i(0, w.es.size() - 1)];
		t = g.b() ? e.type : g.pick(types);
		n = g.b() ? e.name : g.pick({std::string("*"), std::string("Q*"), std::string("Q1"), std::string("*.B1"), std::string("MQ.*")});
		k = e.val.empty() || g.b() ? g.pick(keys) : e.val.begin()->first;
	}
	else
	{
		t = g.pick(types);
		n = w.name();
		k = g.pick(keys);
	}
	(void) line;
	return t + "." + n + "." + k;
}
template<class T> void destroy(std::vector<T*>& v)
{
	for(T* t : v)
		delete t;
	v.clear();
}
}

LAW(histories, 18000, 90000, "queries give one channel per matching parameter; reads, writes and increments act on that parameter of that element only")
{
	World w(g, c);
	w.verify("new model");
	int ops = g.i(1, 8);
	for(int op = 0; op < ops; ++op)
	{
		bool line = g.chance(1, 3) && w.comps > 0;
		int a = 0, b = w.comps - 1;
		std::string p = pattern(g, w, line);
		size_t d = p.rfind('.');
		std::string eid = p.substr(0, d), key = p.substr(d + 1);
		if(line && g.b())
		{
			a = g.i(0, w.comps - 1);
			b = g.i(a, w.comps - 1);
		}
		AcceleratorModel::Beamline bl = line ? w.m->GetBeamline(a, b) : w.m->GetBeamline();
		std::string what = "query " + p + (line ? " of components " + std::to_string(a) + ".." + std::to_string(b) : "");
		c.desc << what << "; ";
		auto ids = [](const std::vector<std::pair<Elem*, std::string> >& v)
			{
				std::multiset<std::string> s;
				for(auto& e : v)
					s.insert(e.first->id() + "." + e.second);
				return s;
			};
		auto text = [](const std::multiset<std::string>& s)
			{
				std::string t = "{";
				for(auto& x : s)
					t += x + " ";
				return t + "}";
			};
		auto want = w.all(eid, key, false, line, a, b), wantrw = w.all(eid, key, true, line, a, b);
		std::vector<ROChannel*> ro;
		std::vector<RWChannel*> rw;
		size_t n = line ? w.m->GetROChannels(bl, p, ro) : w.m->GetROChannels(p, ro);
		c.eq(n, ro.size(), what + ": number of channels returned");
		std::multiset<std::string> got;
		for(auto* ch : ro)
			got.insert(ch->GetID());
		c.check(got == ids(want), what + " gave " + text(got) + " expected " + text(ids(want)));
		n = line ? w.m->GetRWChannels(bl, p, rw) : w.m->GetRWChannels(p, rw);
		c.eq(n, rw.size(), what + ": number of read-write channels returned");
		got.clear();
		for(auto* ch : rw)
		{
			c.check(ch != nullptr, what + ": null read-write channel");
			got.insert(ch->GetID());
		}
		c.check(got == ids(wantrw), what + " (read-write) gave " + text(got) + " expected " + text(ids(wantrw)));
		if(line)
		{
			// in the order of the beamline
			std::vector<std::string> order;
			for(auto* ch : ro)
			{
				std::string id = ch->GetID();
				id = id.substr(0, id.rfind('.'));
				order.push_back(id);
			}
			std::vector<std::string> expect;
			std::vector<std::pair<int, std::string> > o;
			for(auto& e : want)
				o.push_back({e.first->order, e.first->id()});
			std::stable_sort(o.begin(), o.end());
			for(auto& x : o)
				expect.push_back(x.second);
			c.check(order == expect, what + ": order of the beamline");
		}
		if(!ro.empty())
			c.nontrivial();
		// values
		std::multimap<std::string, double> vals;
		for(auto& e : want)
			vals.insert({e.first->id() + "." + e.second, e.first->val[e.second]});
		for(auto* ch : ro)
		{
			double v = ch->Read();
			auto range = vals.equal_range(ch->GetID());
			auto hit = range.second;
			for(auto i = range.first; i != range.second; ++i)
				if(std::fabs(i->second - v) <= 1e-10 * (1 + std::fabs(v)))
					hit = i;
			c.check(hit != range.second, what + ": " + ch->GetID() + " reads " + std::to_string(v) + ", not a value of such an element");
			vals.erase(hit);
		}
		// writes
		std::set<std::pair<Elem*, std::string> > used;
		for(auto* ch : rw)
		{
			std::string id = ch->GetID(), k = id.substr(id.rfind('.') + 1);
			double v = w.fresh(k) + 1e-3 * (1 + g.unit()) + 1e-5 * used.size(), before = ch->Read();
			bool inc = g.chance(1, 3);
			double r = v;
			if(inc)
				r = ch->Increment(v - before);
			else
				ch->Write(v);
			c.near(r, v, 1e-12, 1e-12, what + ": value returned by Increment of " + id);
			c.near(ch->Read(), v, 1e-10, 1e-10, what + ": " + id + " after writing");
			// which element was it?
			Elem* hit = nullptr;
			for(auto& e : wantrw)
				if(e.first->id() + "." + e.second == id && !used.count({e.first, e.second}) && std::fabs(e.first->get[e.second]() - v) < 1e-10 * (1 + std::fabs(v)))
				{
					if(std::fabs(e.first->val[e.second] - before) > 1e-9 * (1 + std::fabs(before)))
						continue;
					hit = e.first;
					break;
				}
			c.check(hit != nullptr, what + ": writing " + id + " changed no element (or one twice)");
			used.insert({hit, k});
			hit->effect(*hit, k, v);
			w.verify(what + ": after writing " + id);
		}
		// independent channels onto the same parameter agree
		for(auto* ch : ro)
		{
			bool found = false;
			for(auto& e : want)
				found |= e.first->id() + "." + e.second == ch->GetID() && std::fabs(e.first->val[e.second] - ch->Read()) < 1e-10 * (1 + std::fabs(ch->Read()));
			c.check(found, what + ": " + ch->GetID() + " reads " + std::to_string(ch->Read()) + " after writing");
		}
		destroy(ro);
		destroy(rw);
	}
}

LAW(arrays, 8000, 60000, "channel arrays and saved states act on each entry in order")
{
	World w(g, c);
	std::vector<RWChannel*> rw;
	w.m->GetRWChannels("*.*.*", rw);
	size_t n = rw.size();
	if(n == 0)
		c.discard();
	// one channel per element, else writes interact
	std::set<std::string> seen;
	std::vector<RWChannel*> mine;
	for(auto* ch : rw)
	{
		std::string id = ch->GetID();
		std::string el = id.substr(id.find('.') + 1);
		el = el.substr(0, el.rfind('.'));
		if(seen.insert(el).second)
			mine.push_back(ch);
		else
			delete ch;
	}
	n = mine.size();
	c.nontrivial(n > 1);
	RealVector ref(n);
	for(size_t i = 0; i < n; ++i)
		ref[i] = mine[i]->Read();
	std::vector<RWChannel*> raw = mine;
	auto fresh = [&](size_t i)
		{
			std::string id = raw[i]->GetID();
			return w.fresh(id.substr(id.rfind('.') + 1));
		};
	RWChannelArray first(mine);
	RWChannelArray arr;
	if(g.b())
	{
		RWChannelArray moved(first);
		c.eq((int) first.Size(), 0, "an array passes its channels on to its copy");
		c.eq((int) moved.Size(), (int) n, "copy");
		ROChannelArray& base = moved;
		ROChannelArray third(base);
		c.eq((int) third.Size(), (int) n, "copy of the base");
		std::vector<RWChannel*> v;
		for(size_t i = 0; i < n; ++i)
			v.push_back(static_cast<RWChannel*>(&third[i]));
		RealVector a = third;
		for(size_t i = 0; i < n; ++i)
			c.near(a[i], ref[i], 0, 0, "conversion to a vector");
		return;
	}
	auto verify = [&](const std::string& what)
		{
			c.eq((int) first.Size(), (int) n, "Size");
			RealVector a(n), b = first;
			first.ReadAll(a);
			for(size_t i = 0; i < n; ++i)
			{
				std::string e = what + ": entry " + std::to_string(i) + " " + raw[i]->GetID();
				c.near(a[i], ref[i], 1e-10, 1e-10, e + " ReadAll");
				c.near(b[i], ref[i], 1e-10, 1e-10, e + " as a vector");
				c.near(first.Read(i), ref[i], 1e-10, 1e-10, e + " Read");
				c.near(first[i].Read(), ref[i], 1e-10, 1e-10, e + " operator[]");
			}
		};
	verify("new");
	RealVector saved = ref;
	std::unique_ptr<RWChannelState> state;
	int ops = g.i(1, 8);
	for(int op = 0; op < ops; ++op)
	{
		int k = g.i(0, 6);
		std::string what = "operation " + std::to_string(k);
		c.desc << what << "; ";
		RealVector v(n), dv(n);
		for(size_t i = 0; i < n; ++i)
		{
			v[i] = fresh(i);
			dv[i] = v[i] - ref[i];
		}
		size_t i = g.i(0, n - 1);
		switch(k)
		{
		case 0:
			first.Write(i, v[i]);
			ref[i] = v[i];
			break;
		case 1:
			first.WriteAll(v);
			ref = v;
			break;
		case 2:
			first.Increment(i, dv[i]);
			ref[i] += dv[i];
			break;
		case 3:
			first.IncrementAll(dv);
			ref += dv;
			break;
		case 4:
			first = v;
			ref = v;
			break;
		case 5:
			{
				double x = 0.2 + g.unit();
				first.WriteAll(x);
				for(size_t j = 0; j < n; ++j)
					ref[j] = x;
				double y = 0.1 * g.unit() + 0.01;
				first.IncrementAll(y);
				for(size_t j = 0; j < n; ++j)
					ref[j] += y;
				break;
			}
		default:
			if(!state)
			{
				std::vector<RWChannel*> again;
				for(size_t j = 0; j < n; ++j)
				{
					std::vector<RWChannel*> found;
					w.m->GetRWChannels(raw[j]->GetID(), found);
					// (equal names may give several)
					for(size_t q = 1; q < found.size(); ++q)
						delete found[q];
					again.push_back(found.at(0));
				}
				state.reset(new RWChannelState(again));
				for(size_t j = 0; j < n; ++j)
					saved[j] = again[j]->Read();
			}
			else if(g.b())
			{
				state->CacheCurrentState();
				RealVector x = first;
				saved = x;
			}
			else
			{
				state->Reset();
				bool distinct = true;
				for(size_t j = 0; j < n; ++j)
				{
					std::vector<RWChannel*> found;
					w.m->GetRWChannels(raw[j]->GetID(), found);
					distinct &= found.size() == 1;
					destroy(found);
				}
				if(!distinct)
					return;
				ref = saved;
			}
		}
		verify(what);
	}
	std::ostringstream os;
	first.Print(os);
	std::istringstream is(os.str());
	std::string id, eq;
	double x;
	for(size_t i = 0; i < n; ++i)
	{
		c.check(bool(is >> id >> eq >> x) && id == raw[i]->GetID() && eq == "=", "Print: line " + std::to_string(i) + " of " + os.str());
		c.near(x, ref[i], 1e-4, 1e-12, "Print " + id);
	}
	c.check(!(is >> id), "Print: text after the last channel");
	if(g.b())
	{
		std::vector<RWChannel*> other;
		w.m->GetRWChannels(raw[0]->GetID(), other);
		size_t k = other.size();
		c.eq(first.SetChannels(other), k, "SetChannels");
		c.eq(first.Size(), k, "Size after SetChannels");
	}
}

LAW(monitors, 8000, 60000, "BPM channels read the last measurement of their own monitor plus their offset, and nothing before")
{
	World w(g, c);
	std::vector<ROChannel*> ro;
	w.m->GetROChannels("BPM.*.*", ro);
	if(ro.empty())
		c.discard();
	c.nontrivial();
	std::vector<Elem*> bpms;
	for(auto& e : w.es)
		if(e->bpm)
			bpms.push_back(e.get());
	std::map<Elem*, std::map<std::string, double> > off;
	BPM::generate_noise = false;
	auto verify = [&](const std::string& what)
		{
			std::multimap<std::string, double> vals;
			for(auto* e : bpms)
				for(auto& k : e->val)
					vals.insert({e->id() + "." + k.first, k.second + off[e][k.first]});
			for(auto* ch : ro)
			{
				double v = ch->Read();
				auto range = vals.equal_range(ch->GetID());
				auto hit = range.second;
				for(auto i = range.first; i != range.second; ++i)
					if(std::fabs(i->second - v) <= 1e-12)
						hit = i;
				c.check(hit != range.second, what + ": " + ch->GetID() + " reads " + std::to_string(v));
				vals.erase(hit);
			}
		};
	verify("before any measurement");
	int ops = g.i(1, 6);
	for(int i = 0; i < ops; ++i)
	{
		Elem* e = bpms[g.i(0, bpms.size() - 1)];
		if(g.b())
		{
			ParticleBunch b(1, 1);
			int n = g.i(1, 3);
			double x = 0, y = 0;
			for(int j = 0; j < n; ++j)
			{
				V6 v = particle(g);
				x += v[0] / n;
				y += v[2] / n;
				b.AddParticle(mk(v));
			}
			c.desc << "measure " << e->id() << "; ";
			e->bpm->MakeMeasurement(b);
			e->val["X"] = x;
			e->val["Y"] = y;
			verify("after a measurement of " + e->id());
		}
		else
		{
			// offsets of one channel whose name is unique
			int same = 0;
			for(auto* o : bpms)
				same += o->id() == e->id();
			if(same > 1)
				continue;
			std::string k = g.b() ? "X" : "Y";
			double v = g.sym(1e-3);
			for(auto* ch : ro)
				if(ch->GetID() == e->id() + "." + k)
					static_cast<BPMChannel*>(ch)->SetBPMOffset(v);
			off[e][k] = v;
			c.desc << "offset " << e->id() << "." << k << "; ";
			verify("after an offset of " + e->id() + "." + k);
		}
		if(g.chance(1, 4))
		{
			// new channels see the same data
			destroy(ro);
			w.m->GetROChannels("BPM.*.*", ro);
			verify("new channels");
		}
	}
	destroy(ro);
}

LAW(new_monitor, 400, 4000, "a monitor made at the address of a deleted one does not inherit its data")
{
	// (memory is reused at once here, as an allocator does at will)
	alignas(BPM) static unsigned char storage[sizeof(BPM)];
	BPM::generate_noise = false;
	c.nontrivial();
	int n = g.i(2, 5);
	for(int i = 0; i < n; ++i)
	{
		std::string name = "b" + std::to_string(g.i(0, 2));
		BPM* b = new(storage) BPM(name);
		BPMChannelCtor cx('X'), cy('Y');
		std::unique_ptr<ROChannel> x, y;
		double vx = 0, vy = 0;
		int ops = g.i(1, 4);
		for(int k = 0; k < ops; ++k)
			switch(g.i(0, 2))
			{
			case 0:
				x.reset(cx.ConstructRO(b));
				y.reset(cy.ConstructRO(b));
				c.check(x->GetID() == "BPM." + name + ".X" && y->GetID() == "BPM." + name + ".Y", "GetID: " + x->GetID() + " of " + name);
				c.near(x->Read(), vx, 0, 1e-15, "x after making the channel");
				c.near(y->Read(), vy, 0, 1e-15, "y after making the channel");
				break;
			case 1:
				if(x)
				{
					ParticleBunch bunch(1, 1);
					V6 v = particle(g);
					bunch.AddParticle(mk(v));
					b->MakeMeasurement(bunch);
					vx = v[0];
					vy = v[2];
					c.near(x->Read(), vx, 0, 1e-15, "x after the measurement");
					c.near(y->Read(), vy, 0, 1e-15, "y after the measurement");
				}
				break;
			default:
				if(x)
				{
					c.near(x->Read(), vx, 0, 1e-15, "x");
					c.near(y->Read(), vy, 0, 1e-15, "y");
				}
			}
		b->~BPM();
	}
}
