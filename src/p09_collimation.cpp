// P09: collimation conserves particles and records every loss once.
#include "StableOrbits.h"
#include "mlib.h"
#include <map>
#include <set>
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "Collimator.h"
#include "CollimatorAperture.h"
#include "Aperture.h"
#include "CollimateParticleProcess.h"
#include "CollimateProtonProcess.h"
#include "CollimationOutput.h"
#include "LossMapCollimationOutput.h"
#include "DetailedCollimationOutput.h"
#include "MaterialProperties.h"
#include "ScatteringModel.h"
#include "ScatteringProcess.h"
#include "RandomNG.h"
using namespace ml;

pbt::Info pbt::info = {"P09",
	"Beamlines of 1 to 7 drifts, magnets, markers, monitors and collimators with circular, rectangular or no apertures; bunches of "
	"1 to 25 particles; all check positions, bin sizes, thresholds, 1 to 3 turns; loss maps of up to 60 losses. "
	"Non-trivial: at least one particle is lost and at least one survives (or at least two losses in an output).",
	"A particle within 1e-9 of the aperture at a checked position is not judged; names are shorter than the output columns."};

namespace
{
struct Quiet
{
	std::ostringstream sink;
	std::streambuf* old;
	Quiet() : old(std::cout.rdbuf(sink.rdbuf())) {}
	~Quiet() { std::cout.rdbuf(old); }
};
struct Ap
{
	bool round;
	double a, b;
	// >0 inside, <0 outside: distance to the edge in relative terms
	double inside(double x, double y) const
	{
		if(round)
			return 1 - std::sqrt(x * x + y * y) / a;
		return std::min(1 - std::fabs(x) / a, 1 - std::fabs(y) / b);
	}
};
struct Cmp
{
	AcceleratorComponent* c;
	std::string name;
	double L, s0;
	bool has;
	Ap ap;
};
struct Line
{
	std::unique_ptr<AcceleratorModel> model;
	std::vector<std::unique_ptr<Aperture> > aps;
	std::vector<Cmp> cmp;
	double P0, q;
};
void make_line(Gen& g, Ctx& c, Line& l)
{
	l.P0 = beam_momentum(g);
	l.q = charge(g);
	int n = g.i(1, 7);
	double s = 0;
	AcceleratorModelConstructor mc;
	mc.NewModel();
	c.desc << "P0=" << l.P0 << " q=" << l.q << " ";
	for(int i = 0; i < n; ++i)
	{
		Cmp x;
		std::string kind = g.pick({"drift", "collimator", "quad", "bend", "marker", "bpm", "solenoid", "sext"});
		ElOpts o;
		o.extra = false;
		o.maxk1 = 1;
		o.special = false;
		o.maxang = 0.2;
		if(kind == "collimator")
		{
			x.L = g.chance(1, 6) ? 0 : length(g, 0.05, 2);
			x.c = new Collimator("c", x.L);
			c.desc << "collimator L=" << x.L;
		}
		else
		{
			auto e = element(g, l.P0, l.q, kind, o);
			x.L = e->L;
			c.desc << e->text();
			x.c = e->c.release();
		}
		x.name = i && g.chance(1, 4) ? l.cmp.back().name : "E" + std::to_string(i);
		if(i && x.name == "E0" && l.cmp.back().L == 0)
			x.name = "E" + std::to_string(i);
		x.c->SetName(x.name);
		x.s0 = s;
		x.c->SetComponentLatticePosition(s);
		s += x.L;
		x.has = g.chance(4, 5);
		if(x.has)
		{
			x.ap.round = g.b();
			x.ap.a = g.real(3e-3, 2e-2);
			x.ap.b = g.real(3e-3, 2e-2);
			Aperture* a = x.ap.round ? static_cast<Aperture*>(new CircularAperture(x.ap.a)) : new RectangularAperture(x.ap.a, x.ap.b);
			l.aps.emplace_back(a);
			x.c->SetAperture(a);
			c.desc << (x.ap.round ? " r=" : " a=") << x.ap.a;
			if(!x.ap.round)
				c.desc << "," << x.ap.b;
		}
		c.desc << " '" << x.name << "'; ";
		l.cmp.push_back(x);
		mc.AppendComponent(*x.c);
	}
	l.model.reset(mc.GetModel());
}
struct Loss
{
	AcceleratorComponent* c;
	int64_t id;
	int turn;
	double pos;
	PSvector p;
};
struct Rec: public CollimationOutput
{
	std::vector<Loss> calls;
	void Dispose(AcceleratorComponent& cc, double pos, Particle& p, int turn) override
	{
		calls.push_back({&cc, p.id(), turn, pos, p});
	}
};
// coordinates after the first z of the component, in steps that end at the given positions
V6 upto(Line& l, const Cmp& x, const V6& v, double z, const std::vector<double>& stops)
{
	ParticleBunch b(l.P0, l.q);
	b.AddParticle(mk(v));
	ParticleComponentTracker t(iset(TRANSPORT_SET));
	t.SetBunch(b);
	x.c->PrepareTracker(t);
	double s = 0;
	for(double e : stops)
		if(e > s && e < z - 1e-10)
		{
			t.TrackStep(e - s);
			s = e;
		}
	if(z > 0 || x.L == 0)
		t.TrackStep(z >= x.L ? t.GetRemainingLength() : z - s);
	return un(b.GetParticles()[0]);
}
struct Judge
{
	bool unsure = false;
	bool outside(const Ap& a, const V6& v)
	{
		double d = a.inside(v[0], v[2]);
		if(!(std::fabs(d) > 1e-7))
			unsure = true;
		return d < 0;
	}
};
double loss_position(Line& l, const Cmp& x, const V6& in, double bin, double checked, Judge& j)
{
	if(x.L == 0)
		return 0;
	std::vector<double> stops;
	for(int k = 0;; ++k)
	{
		double z = k * bin;
		bool last = z >= x.L - 1e-9;
		if(last)
			z = x.L;
		if(j.outside(x.ap, upto(l, x, in, z, stops)))
			return z;
		stops.push_back(z);
		if(last)
			return checked;
	}
}
// another process, which divides the steps
struct Divider: public ParticleBunchProcess
{
	double step, togo = 0;
	Divider(double st) : ParticleBunchProcess("DIVIDER", 1), step(st) {}
	void SetCurrentComponent(AcceleratorComponent& c) override { active = true; togo = c.GetLength(); }
	void DoProcess(double ds) override { togo -= ds; }
	double GetMaxAllowedStepSize() const override { return std::min(step, std::max(togo, 1e-3)); }
};
struct Setup
{
	int mode;
	double bin, threshold;    // fraction
	int turns;
};
std::string pr(const Loss& x)
{
	std::ostringstream s;
	s << x.c->GetName() << " id " << x.id << " turn " << x.turn << " at " << x.pos;
	return s.str();
}
}

LAW(hard_edge, 30000, 500000, "particles outside the aperture at a checked position are lost and recorded once; the others stay as they are")
{
	Quiet quiet;
	Line l;
	make_line(g, c, l);
	Setup u;
	u.mode = g.i(1, 7);
	u.bin = g.pick({0.1, 0.25, 0.05, 1.0, 0.37, 10.0});
	u.threshold = g.chance(1, 3) ? g.pick({0.01, 0.25, 0.5, 0.9, 0.005, 0.125, 0.2575, 0.1019, 0.3333, 0.6667}) : g.chance(1, 3) ? 1.0 : 3.0;
	u.turns = g.i(1, 3);
	c.desc << "mode=" << u.mode << " bin=" << u.bin << " threshold=" << u.threshold << " turns=" << u.turns << " ";
	std::vector<PSvector> init;
	int n = g.i(1, 25);
	for(int i = 0; i < n; ++i)
	{
		V6 v{g.coord(1.2e-2), g.coord(1e-2), g.coord(1.2e-2), g.coord(1e-2), g.coord(1e-3), g.coord(1e-2)};
		if(g.chance(1, 2))
			for(double& z : v)
				z *= 0.1;
		init.push_back(mk(v, 1000 + i));
		c.desc << str(v) << " ";
	}
	double divide = g.chance(1, 3) ? g.real(0.03, 0.5) : 0;
	if(divide)
		c.desc << "divided by " << divide << " ";
	// reference
	struct P { int64_t id; size_t index; V6 v; };
	std::vector<P> live;
	for(auto& p : init)
		live.push_back({p.id(), 0, un(p)});
	std::vector<Loss> want;
	Judge j;
	bool excess = false;
	size_t excess_lost = 0;
	std::vector<std::vector<size_t> > index_after;
	for(int t = 1; t <= u.turns && !excess && !live.empty(); ++t)
	{
		size_t nstart = live.size(), nlost = 0;
		for(size_t i = 0; i < live.size(); ++i)
			live[i].index = i;
		for(auto& x : l.cmp)
		{
			std::vector<P> in = live;
			std::vector<double> at;
			if(x.has)
			{
				if(u.mode & COLL_AT_ENTRANCE)
					at.push_back(0);
				if(u.mode & COLL_AT_CENTER)
					at.push_back(x.L / 2);
				if(u.mode & COLL_AT_EXIT)
					at.push_back(x.L);
				if(x.L == 0)
					at.resize(1);
			}
			std::vector<double> stops;
			for(double e = 0; e < x.L - 1e-9;)
			{
				double nx = x.L;
				for(double z : at)
					if(z > e + 1e-9)
						nx = std::min(nx, z);
				if(divide)
					nx = std::min(nx, e + divide);
				stops.push_back(e = nx);
			}
			for(double z : at)
			{
				std::vector<P> keep;
				size_t here = 0;
				for(auto& p : live)
					if(j.outside(x.ap, upto(l, x, p.v, z, stops)))
					{
						want.push_back({x.c, p.id, t, loss_position(l, x, p.v, u.bin, z, j), PSvector(0)});
						++here;
					}
					else
						keep.push_back(p);
				live = keep;
				nlost += here;
				if(here && double(nlost) / nstart >= 100 * u.threshold / 100.0)
				{
					excess = true;
					excess_lost = nlost;
					for(auto& p : live)
						p.v = upto(l, x, p.v, z, stops);
					break;
				}
			}
			if(excess)
				break;
			for(auto& p : live)
				p.v = upto(l, x, p.v, x.L, stops);
		}
		index_after.push_back({});
		for(auto& p : live)
			index_after.back().push_back(p.index);
	}
	for(auto& p : live)
		for(double z : p.v)
			if(!std::isfinite(z) || std::fabs(z) > 0.1)
				c.discard();
	if(j.unsure)
		c.discard();
	// the real thing
	ParticleTracker trk(l.model->GetBeamline());
	CollimateParticleProcess* cp = new CollimateParticleProcess(2, u.mode);
	trk.AddProcess(cp);
	if(divide)
		trk.AddProcess(new Divider(divide));
	Rec rec, rec2;
	LossMapCollimationOutput map((OutputType) g.i(0, 2));
	cp->SetCollimationOutput(&rec);
	cp->SetCollimationOutput(&map);
	cp->SetCollimationOutput(&rec2);
	cp->SetOutputBinSize(u.bin);
	cp->SetLossThreshold(100 * u.threshold);
	std::list<size_t> mine;
	int indexing = g.i(0, 3);
	if(indexing == 1 || indexing == 3)
		cp->IndexParticles(true);
	if(indexing == 2 || indexing == 3)
		cp->IndexParticles(mine);
	ParticleBunch b(l.P0, l.q);
	for(auto& p : init)
		b.AddParticle(p);
	bool threw = false;
	for(int t = 1; t <= (int) index_after.size(); ++t)
	{
		try
		{
			trk.Track(&b);
		}
		catch(ExcessiveParticleLoss& e)
		{
			threw = true;
			c.check(std::string(e.what()).find("(" + std::to_string(excess_lost) + "/") != std::string::npos, "number of losses in the exception");
			break;
		}
		if(indexing)
		{
			std::vector<size_t> got(cp->GetIndexes().begin(), cp->GetIndexes().end());
			c.check(got == index_after[t - 1], "indexes of the surviving particles after turn " + std::to_string(t));
			if(indexing >= 2)
				c.check(&cp->GetIndexes() == &mine, "the index list is the one that was given");
		}
	}
	c.eq(threw, excess, "loss threshold exceeded");
	c.nontrivial(!want.empty() && want.size() < init.size());
	if(u.turns > 1 && !want.empty())
		c.label("several turns");
	if(excess)
		c.label("threshold");
	// survivors
	c.eq(b.size(), live.size(), "surviving particles");
	for(size_t i = 0; i < live.size(); ++i)
	{
		c.eq(b.GetParticles()[i].id(), live[i].id, "identity of survivor " + std::to_string(i));
		for(int k = 0; k < 6; ++k)
			c.near(b.GetParticles()[i][k], live[i].v[k], 1e-9, 1e-14, "survivor " + std::to_string(live[i].id) + " coordinate " + std::to_string(k));
	}
	// records
	for(auto& x : rec.calls)
		c.check(std::any_of(want.begin(), want.end(), [&](const Loss& w) { return w.id == x.id; }), "recorded a particle that is not lost: " + pr(x));
	for(auto& w : want)
	{
		std::vector<Loss> r;
		for(auto& x : rec.calls)
			if(x.id == w.id)
				r.push_back(x);
		c.check(r.size() == 1, "lost particle recorded " + std::to_string(r.size()) + " times: " + pr(w));
		c.check(r[0].c == w.c && r[0].turn == w.turn && std::fabs(r[0].pos - w.pos) < 1e-7, "recorded " + pr(r[0]) + " expected " + pr(w));
	}
	c.eq(rec2.calls.size(), rec.calls.size(), "records of the second output");
	c.eq(map.DeadParticles.size(), rec.calls.size(), "losses in the loss map");
	map.Finalise();
	double total = 0;
	for(auto& d : map.OutputLosses)
		total += d.lost;
	c.near(total, rec.calls.size(), 0, 0, "total of the loss map");
}

LAW(stable, 6000, 100000, "the orbits that StableOrbits selects are those that stay inside the apertures for all turns")
{
	Quiet quiet;
	Line l;
	make_line(g, c, l);
	int turns = g.i(1, 6), start = g.i(0, (int) l.cmp.size() - 1);
	bool twice = g.chance(1, 4);
	c.desc << "turns=" << turns << " from " << start << (twice ? " twice " : " ");
	ParticleBunch b(l.P0, l.q);
	std::vector<PSvector> init;
	int n = g.i(1, 12);
	for(int i = 0; i < n; ++i)
	{
		V6 v{g.coord(1e-2), g.coord(3e-3), g.coord(1e-2), g.coord(3e-3), g.coord(1e-3), g.coord(1e-3)};
		if(g.chance(1, 2))
			for(double& z : v)
				z *= 0.1;
		init.push_back(mk(v, 10 + i));
		b.AddParticle(init.back());
		c.desc << str(v) << " ";
	}
	// reference: every particle alone, at the centre of the components
	std::vector<size_t> want;
	Judge j;
	for(int i = 0; i < n; ++i)
	{
		V6 v = un(init[i]);
		bool in = true;
		for(int t = 0; in && t < turns; ++t)
			for(size_t k = 0; in && k < l.cmp.size(); ++k)
			{
				const Cmp& x = l.cmp[(start + k) % l.cmp.size()];
				std::vector<double> stops;
				if(x.has && x.L > 0)
					stops.push_back(x.L / 2);
				stops.push_back(x.L);
				if(x.has)
					in = !j.outside(x.ap, upto(l, x, v, x.L / 2, stops));
				v = upto(l, x, v, x.L, stops);
				for(double z : v)
					if(!std::isfinite(z) || std::fabs(z) > 0.1)
						c.discard();
			}
		if(in)
			want.push_back(i);
	}
	if(j.unsure)
		c.discard();
	StableOrbits so(l.model.get());
	c.eq(so.SetTurns(turns), 1, "turns before");
	c.eq(so.SetTurns(turns), turns, "turns");
	c.eq(so.SetObservationPoint(start), 0, "observation point before");
	c.eq(so.SetObservationPoint(start), start, "observation point");
	std::list<size_t> index;
	if(g.b())
		index.assign(5, 77);
	bool threw = false;
	try
	{
		so.SelectStable(b, &index);
		if(twice)
		{
			index.assign(3, 5);
			so.SelectStable(b, &index);
		}
	}
	catch(ExcessiveParticleLoss&)
	{
		threw = true;
	}
	c.nontrivial(!want.empty() && (int) want.size() < n);
	// all particles lost is the default threshold
	c.eq(threw, want.empty(), "all particles are lost");
	if(threw)
		return;
	c.check(std::vector<size_t>(index.begin(), index.end()) == want, "indexes of the stable orbits");
	c.eq(b.size(), init.size(), "particles of the bunch that was given");
	for(int i = 0; i < n; ++i)
		for(int k = 0; k < 6; ++k)
			c.eq(b.GetParticles()[i][k], init[i][k], "the bunch that was given");
}
LAW(outputs, 40000, 600000, "loss maps in every mode, and the detailed output, add up to the losses they were given")
{
	Quiet quiet;
	// a lattice with repeated names
	AcceleratorModelConstructor mc;
	mc.NewModel();
	int n = g.i(1, 6);
	std::vector<AcceleratorComponent*> cs;
	double at = 0;
	for(int i = 0; i < n; ++i)
	{
		double L = g.chance(1, 5) ? 0 : length(g, 0.05, 3);
		std::string name = g.pick({"A", "B", "TCP.1", "MQ"});
		AcceleratorComponent* x = g.b() ? static_cast<AcceleratorComponent*>(new Collimator(name, L)) : new Drift(name, L);
		cs.push_back(x);
		x->SetComponentLatticePosition(at);
		at += L;
		mc.AppendComponent(*x);
		c.desc << x->GetType() << " " << name << " " << L << "; ";
	}
	std::unique_ptr<AcceleratorModel> m(mc.GetModel());
	OutputType ot = (OutputType) g.i(0, 2);
	LossMapCollimationOutput lm(ot);
	DetailedCollimationOutput det;
	std::vector<std::string> pats;
	for(int i = g.i(0, 2); i > 0; --i)
	{
		std::string p = g.pick({"A", "*", "T*", "B", "M*"});
		pats.push_back(p);
		det.AddIdentifier(p);
	}
	std::vector<std::pair<double, double> > warm;
	for(int i = g.i(0, 2); i > 0; --i)
	{
		double a = g.real(0, 8);
		warm.push_back({a, a + g.real(0, 5)});
		lm.SetWarmRegion(warm.back());
	}
	struct L { AcceleratorComponent* c; double pos; int64_t id; int turn; PSvector p; };
	std::vector<L> all;
	int k = g.i(0, 30);
	c.nontrivial(k > 1);
	for(int i = 0; i < k; ++i)
	{
		L x;
		x.c = cs[g.raw(n - 1)];
		double len = x.c->GetLength();
		x.pos = g.chance(1, 3) ? 0.1 * g.i(0, (int) (len / 0.1)) : g.chance(1, 4) && !all.empty() ? std::min(len, all.back().pos) : g.real(0, len);
		x.id = i;
		x.turn = g.i(1, 20);
		x.p = mk(particle(g, 1e-2, 1e-2), i);
		all.push_back(x);
		lm.Dispose(*x.c, x.pos, x.p, x.turn);
		det.Dispose(*x.c, x.pos, x.p, x.turn);
		c.desc << x.c->GetName() << "@" << x.pos << " ";
	}
	lm.Finalise();
	if(g.chance(1, 4))
		lm.Finalise();
	auto temp = [&](AcceleratorComponent* x) {
		double s = x->GetComponentLatticePosition();
		if(x->GetType() == "Collimator")
			return (int) LossData::Collimator;
		for(auto& w : warm)
			if(s >= w.first && s <= w.second)
				return (int) LossData::Warm;
		return (int) LossData::Cold;
	};
	typedef std::pair<std::pair<std::string, double>, std::pair<double, int> > Key;   // name, s, place, temperature
	std::map<Key, double> want, got;
	c.label(ot == nearestelement ? "nearestelement" : ot == precise ? "precise" : "tencm");
	for(auto& x : all)
	{
		double s = x.c->GetComponentLatticePosition();
		double place = ot == precise ? x.pos + s : 0;
		Key key{{x.c->GetQualifiedName(), s}, {place, temp(x.c)}};
		if(ot == precise)
			key = Key{{"", 0}, {place, 0}};      // by position alone
		want[key] += 1;
	}
	double total = 0;
	if(ot == tencm)
	{
		// bin edges: count with tolerance, by comparing the cumulated losses
		std::map<Key, double> w2, g2;
		for(auto& x : all)
			w2[Key{{x.c->GetQualifiedName(), x.c->GetComponentLatticePosition()}, {0, temp(x.c)}}] += 1;
		for(auto& d : lm.OutputLosses)
		{
			g2[Key{{d.ElementName, d.s}, {0, d.temperature}}] += d.lost;
			total += d.lost;
			double r = d.interval / 0.1;
			c.near(r, std::floor(r + 0.5), 0, 1e-9, "bin start is a multiple of 0.1");
			int sure = 0, may = 0;
			for(auto& x : all)
				if(x.c->GetQualifiedName() == d.ElementName && x.c->GetComponentLatticePosition() == d.s && temp(x.c) == (int) d.temperature)
				{
					if(x.pos >= d.interval + 1e-7 && x.pos < d.interval + 0.1 - 1e-7)
						++sure;
					if(x.pos >= d.interval - 1e-7 && x.pos < d.interval + 0.1 + 1e-7)
						++may;
				}
			c.check(d.lost >= 1 && d.lost <= may, "losses in the bin " + d.ElementName + " " + std::to_string(d.s) + "+" + std::to_string(d.interval) + ": " + std::to_string(d.lost) + " recorded there: " + std::to_string(sure) + ".." + std::to_string(may));
		}
		c.check(w2 == g2, "losses per element");
	}
	else
	{
		for(auto& d : lm.OutputLosses)
		{
			got[ot == precise ? Key{{"", 0}, {d.position, 0}} : Key{{d.ElementName, d.s}, {0, d.temperature}}] += d.lost;
			total += d.lost;
		}
		c.eq(got.size(), want.size(), "places with losses");
		for(auto& w : want)
			c.near(got.count(w.first) ? got[w.first] : 0, w.second, 0, 0, "losses at " + w.first.first.first + " s=" + std::to_string(w.first.first.second) + " place=" + std::to_string(w.first.second.first));
	}
	c.near(total, all.size(), 0, 0, "total of the loss map");
	// in order along the lattice
	for(size_t i = 1; i < lm.OutputLosses.size(); ++i)
		c.check(lm.OutputLosses[i].s >= lm.OutputLosses[i - 1].s, "the loss map is ordered along the lattice");
	// the printed table
	std::ostringstream os;
	lm.Output(&os);
	std::istringstream is(os.str());
	std::string line;
	std::getline(is, line);
	std::istringstream hs(line);
	std::vector<std::string> head;
	std::string w;
	while(hs >> w)
		head.push_back(w);
	size_t col = std::find(head.begin(), head.end(), "loss") - head.begin();
	size_t scol = std::find(head.begin(), head.end(), "s") - head.begin();
	c.check(col < head.size() && scol < head.size(), "column loss");
	double printed = 0;
	size_t rows = 0;
	while(std::getline(is, line))
	{
		std::istringstream ls(line);
		std::vector<std::string> f;
		while(ls >> w)
			f.push_back(w);
		c.eq(f.size(), head.size(), "columns of a row");
		c.check(rows < lm.OutputLosses.size(), "rows");
		const LossData& d = lm.OutputLosses[rows++];
		c.eq(f[0], d.ElementName, "name");
		c.near(std::stod(f[scol]), d.s + (ot == tencm ? d.interval : 0), 1e-5, 1e-9, "s");
		c.near(std::stod(f[col]), d.lost, 1e-12, 0, "loss");
		printed += std::stod(f[col]);
	}
	c.eq(rows, lm.OutputLosses.size(), "rows");
	c.near(printed, all.size(), 0, 0, "sum of the printed losses");
	// detailed
	std::vector<L> dw;
	for(auto& x : all)
	{
		bool in = false;
		for(auto& p : pats)
			in = in || (p.back() == '*' ? x.c->GetName().compare(0, p.size() - 1, p, 0, p.size() - 1) == 0 : x.c->GetName() == p);
		if(in)
			dw.push_back(x);
	}
	c.eq(det.DeadParticles.size(), dw.size(), "losses in the detailed output");
	std::ostringstream od;
	od.precision(10);
	det.Output(&od);
	std::istringstream id(od.str());
	std::getline(id, line);
	std::istringstream hd(line);
	head.clear();
	while(hd >> w)
		head.push_back(w);
	for(auto& x : dw)
	{
		c.check((bool) std::getline(id, line), "a row for each loss");
		std::istringstream ls(line);
		std::map<std::string, std::string> f;
		size_t i = 0;
		while(ls >> w)
			f[i < head.size() ? head[i] : "?"] = w, ++i;
		c.eq(i, head.size(), "columns of the detailed output");
		c.eq(f["#name"], x.c->GetName(), "name");
		c.near(std::stod(f["s"]), x.c->GetComponentLatticePosition(), 1e-9, 1e-300, "s");
		c.near(std::stod(f["pos"]), x.pos, 1e-9, 1e-300, "pos");
		c.near(std::stod(f["x"]), x.p.x(), 1e-9, 1e-300, "x");
		c.near(std::stod(f["xp"]), x.p.xp(), 1e-9, 1e-300, "xp");
		c.near(std::stod(f["y"]), x.p.y(), 1e-9, 1e-300, "y");
		c.near(std::stod(f["yp"]), x.p.yp(), 1e-9, 1e-300, "yp");
		c.near(std::stod(f["id"]), x.id, 0, 0, "id");
		c.near(std::stod(f["turn"]), x.turn, 0, 0, "turn");
	}
	c.check(!std::getline(id, line), "no more rows");
}

namespace
{
// a process whose material does nothing but note the visits
struct Glass: public CollimateParticleProcess
{
	std::set<int64_t> black;     // absorbed at first touch
	size_t visits = 0;
	Glass(int mode) : CollimateParticleProcess(2, mode) {}
	ScatterOutcome DoScatter(Particle& p) override
	{
		++visits;
		if(black.count(p.id()))
		{
			for(auto o : CollimationOutputVector)
				o->Dispose(*currentComponent, int_s, p, ColParProTurn);
			return ScatterOutcome::absorbed;
		}
		p.x() += (s - int_s) * p.xp();
		p.y() += (s - int_s) * p.yp();
		return ScatterOutcome::survived;
	}
};
struct Jaws
{
	std::unique_ptr<AcceleratorModel> m;
	std::unique_ptr<Aperture> ap;
	AcceleratorComponent* coll;
	double L, hw, hh, tilt, d0;
	bool isdrift;
	double inside(double x, double y) const
	{
		double u = x * std::cos(tilt) + y * std::sin(tilt), w = -x * std::sin(tilt) + y * std::cos(tilt);
		return std::min(1 - std::fabs(u) / hw, 1 - std::fabs(w) / hh);
	}
};
void jaws(Gen& g, Ctx& c, Jaws& j, MaterialProperties* mat = nullptr)
{
	j.L = length(g, 0.05, 2);
	j.hw = g.real(1e-3, 5e-3);
	j.hh = g.b() ? 0.1 : g.real(1e-3, 5e-3);
	j.tilt = g.pick({0.0, 0.0, 1.5707963267948966, 0.7});
	j.d0 = g.b() ? 0 : g.real(0.1, 1);
	j.isdrift = !mat && g.chance(1, 8);
	c.desc << (j.isdrift ? "drift with jaws L=" : "collimator L=") << j.L << " hw=" << j.hw << " hh=" << j.hh << " tilt=" << j.tilt << " after drift " << j.d0 << "; ";
	AcceleratorModelConstructor mc;
	mc.NewModel();
	if(j.d0 > 0)
		mc.AppendComponent(*new Drift("D0", j.d0));
	j.coll = j.isdrift ? new Drift("TCP", j.L) : static_cast<AcceleratorComponent*>(mat ? new Collimator("TCP", j.L, mat, 7000) : new Collimator("TCP", j.L));
	if(mat)
		j.coll->SetMaterialProperties(mat);
	j.ap.reset(new CollimatorAperture(2 * j.hw, 2 * j.hh, j.tilt, j.L));
	static_cast<CollimatorAperture*>(j.ap.get())->SetExitWidth(2 * j.hw);
	static_cast<CollimatorAperture*>(j.ap.get())->SetExitHeight(2 * j.hh);
	j.coll->SetAperture(j.ap.get());
	mc.AppendComponent(*j.coll);
	mc.AppendComponent(*new Drift("D1", 0.5));
	j.m.reset(mc.GetModel());
}
}

LAW(jaws, 40000, 600000, "a collimator touches exactly the particles in its jaws: a transparent one is a drift, a black one records each particle once")
{
	Quiet quiet;
	Jaws j;
	jaws(g, c, j);
	double bin = g.pick({0.1, 0.25, 0.07, 1.0, 5.0});
	int n = g.i(1, 15);
	c.desc << "bin=" << bin << " ";
	bool plain = g.chance(1, 3);     // the process as it comes: everything in the jaws is absorbed
	ParticleTracker t(j.m->GetBeamline());
	CollimateParticleProcess* p;
	Glass* gl = nullptr;
	if(plain)
		p = new CollimateParticleProcess(2, COLL_AT_EXIT);
	else
		p = gl = new Glass(COLL_AT_EXIT);
	t.AddProcess(p);
	if(g.chance(1, 3))
		t.AddProcess(new Divider(g.real(0.03, 0.5)));
	p->ScatterAtCollimator(true);
	p->SetOutputBinSize(bin);
	p->SetLossThreshold(300);
	if(g.b())
		p->IndexParticles(true);
	Rec rec;
	p->SetCollimationOutput(&rec);
	ParticleBunch b(7000, 1);
	struct W { V6 v; int64_t id; bool lost; double at; };
	std::vector<W> ws;
	bool unsure = false;
	for(int i = 0; i < n; ++i)
	{
		V6 v{g.coord(8e-3), g.coord(5e-3), g.coord(8e-3), g.coord(5e-3), g.coord(1e-3), g.coord(1e-3)};
		b.AddParticle(mk(v, 50 + i));
		bool black = plain || g.b();
		if(gl && black)
			gl->black.insert(50 + i);
		c.desc << str(v) << (black ? "b " : " ");
		W w{v, 50 + i, false, 0};
		double x = v[0] + v[1] * j.d0, y = v[2] + v[3] * j.d0;
		if(j.isdrift)
		{
			// hard edge: checked at the exit, located at the first bin outside
			double d = j.inside(x + j.L * v[1], y + j.L * v[3]);
			unsure = unsure || std::fabs(d) < 1e-7;
			if(d < 0)
			{
				w.lost = true;
				for(int k = 0;; ++k)
				{
					double z = std::min(j.L, k * bin);
					double e = j.inside(x + z * v[1], y + z * v[3]);
					unsure = unsure || std::fabs(e) < 1e-7;
					w.at = z;
					if(e < 0 || z >= j.L)
						break;
				}
			}
		}
		else
			for(int k = 0; k == 0 || k * bin < j.L - 1e-9; ++k)
			{
				double d = j.inside(x + k * bin * v[1], y + k * bin * v[3]);
				unsure = unsure || std::fabs(d) < 1e-7;
				if(d < 0 && black)
				{
					w.lost = true;
					w.at = k * bin;
					break;
				}
			}
		ws.push_back(w);
	}
	if(unsure)
		c.discard();
	t.Track(&b);
	size_t k = 0, nl = 0;
	double len = j.d0 + j.L + 0.5;
	for(auto& w : ws)
	{
		std::vector<Loss> r;
		for(auto& x : rec.calls)
			if(x.id == w.id)
				r.push_back(x);
		c.check(r.size() == (w.lost ? 1 : 0), "particle " + std::to_string(w.id) + (w.lost ? " hits the jaws" : " misses the jaws") + ", recorded " + std::to_string(r.size()) + " times");
		if(w.lost)
		{
			++nl;
			c.check(r[0].c == j.coll, "element of the loss");
			c.near(r[0].pos, w.at, 1e-9, 1e-9, "position of the loss");
			continue;
		}
		c.check(k < b.size(), "survivor is in the bunch");
		const PSvector& q = b.GetParticles()[k++];
		c.eq(q.id(), w.id, "survivors keep their order");
		c.near(q.x(), w.v[0] + w.v[1] * len, 1e-10, 1e-12, "x of a survivor");
		c.near(q.y(), w.v[2] + w.v[3] * len, 1e-10, 1e-12, "y of a survivor");
		c.near(q.xp(), w.v[1], 1e-12, 0, "xp of a survivor");
		c.near(q.yp(), w.v[3], 1e-12, 0, "yp of a survivor");
		c.near(q.dp(), w.v[5], 1e-12, 0, "dp of a survivor");
	}
	c.eq(k, b.size(), "particles in the bunch");
	c.nontrivial(nl > 0 && k > 0);
}

namespace
{
struct Act: public Collimation::ScatteringProcess
{
	int kind;
	Act(int k) : kind(k) {}
	bool Scatter(PSvector& p, double) const override
	{
		switch(kind)
		{
		case 0:
			return false;
		case 1:
			p.dp() = -0.97;
			return true;
		case 2:
			p.dp() -= 0.3 * (1 + p.dp());
			return true;
		default:
			p.xp() += 1e-4;
			return true;
		}
	}
};
struct Model: public Collimation::ScatteringModel
{
	std::vector<std::unique_ptr<Act> > own;
	void Configure(MaterialProperties*, double) override
	{
		Xsection[0] = 0;
		for(int i = 1; i <= 5; ++i)
		{
			own.emplace_back(new Act(i % 4));
			Processes[i] = own.back().get();
			if(i < 5)
				Xsection[i] = 0.2;
			Xsection[0] += 0.2;
		}
	}
};
MaterialProperties* material(int k)
{
	// A, sigma_T, sigma_I, sigma_R, dEdx, X0, density, Z
	static MaterialProperties* m[4] = {nullptr};
	if(!m[0])
	{
		m[0] = new MaterialProperties(63.55, 1.246, 0.782, 0.0, 2.69, 12.86, 8960, 29);
		m[1] = new MaterialProperties(12.01, 0.337, 0.231, 0.0, 0.68, 42.7, 2210, 6);
		m[3] = new MaterialProperties(1, 1e-9, 1e-9, 0.0, 0, 1e9, 1e-9, 1);      // next to nothing
		m[2] = new MaterialProperties(183.84, 2.767, 1.65, 0.0, 5.79, 6.76, 19300, 74);
	}
	return m[k];
}
}

LAW(proton, 20000, 300000, "in a proton collimator every particle survives or is recorded once, inside the collimator; a particle that misses the jaws only drifts")
{
	Quiet quiet;
	Jaws j;
	int im = g.i(0, 3);
	jaws(g, c, j, material(im));
	double P0 = g.pick({7000.0, 450.0, 120.0, 20.0});
	double bin = g.pick({0.1, 0.25, 0.07, 1.0, 5.0});
	RandomNG::init((std::uint32_t) g.raw(1000000));
	int n = g.i(1, 12);
	c.desc << "material " << im << " P0=" << P0 << " bin=" << bin << " ";
	static Model model;
	ParticleTracker t(j.m->GetBeamline());
	CollimateProtonProcess* p = new CollimateProtonProcess(2, COLL_AT_EXIT);
	t.AddProcess(p);
	if(g.chance(1, 3))
		t.AddProcess(new Divider(g.real(0.03, 0.5)));
	p->ScatterAtCollimator(true);
	p->SetScatteringModel(&model);
	p->SetOutputBinSize(bin);
	p->SetLossThreshold(300);
	Rec rec;
	LossMapCollimationOutput map(tencm);
	p->SetCollimationOutput(&rec);
	p->SetCollimationOutput(&map);
	ParticleBunch b(P0, 1);
	std::vector<PSvector> in;
	for(int i = 0; i < n; ++i)
	{
		V6 v{g.coord(1e-2), g.coord(1e-3), g.coord(1e-2), g.coord(1e-3), g.coord(1e-3), g.coord(1e-3)};
		if(g.chance(1, 6))
			v[5] = std::max(-g.real(0.9, 0.997), 1.2 / P0 - 1);
		in.push_back(mk(v, 50 + i));
		b.AddParticle(in.back());
		c.desc << str(v) << " ";
	}
	t.Track(&b);
	size_t k = 0;
	bool hit = false;
	for(auto& q : in)
	{
		size_t recs = 0;
		for(auto& x : rec.calls)
			if(x.id == q.id())
			{
				++recs;
				c.check(x.c == j.coll, "element of the loss");
				c.check(x.pos >= -1e-9 && x.pos <= j.L + 1e-9, "position of the loss " + std::to_string(x.pos) + " inside the length " + std::to_string(j.L));
			}
		bool alive = k < b.size() && b.GetParticles()[k].id() == q.id();
		c.check(recs == (alive ? 0 : 1), "particle " + std::to_string(q.id()) + (alive ? " survived" : " is gone") + ", recorded " + std::to_string(recs) + " times");
		bool touch = false, unsure = false;
		double x = q.x() + q.xp() * j.d0, y = q.y() + q.yp() * j.d0;
		for(int i = 0; i == 0 || i * bin < j.L - 1e-9; ++i)
		{
			double d = j.inside(x + i * bin * q.xp(), y + i * bin * q.yp());
			unsure = unsure || std::fabs(d) < 1e-7;
			touch = touch || d < 0;
		}
		hit = hit || touch;
		if(alive)
		{
			const PSvector& o = b.GetParticles()[k++];
			for(int i = 0; i < 6; ++i)
				c.check(std::isfinite(o[i]), "finite survivor");
			if((!touch && !unsure) || im == 3)
			{
				double len = j.d0 + j.L + 0.5;
				double ex = q.x() + q.xp() * len, ey = q.y() + q.yp() * len;
				if(touch)
				{
					// KF-01: what the particle travelled in the jaw before it left is added once more
					double fx = x, fy = y;
					bool wrong = false, edge = false;
					for(double z = 0; z < j.L - 1e-9;)
					{
						double st = std::min(bin, j.L - z);
						double d0 = j.inside(fx, fy), d1 = j.inside(fx + st * q.xp(), fy + st * q.yp()), d2 = j.inside(fx + 2 * st * q.xp(), fy + 2 * st * q.yp());
						edge = edge || std::fabs(d0) < 1e-6 || std::fabs(d1) < 1e-6 || std::fabs(d2) < 1e-6;
						fx += st * q.xp();
						fy += st * q.yp();
						if(d0 < 0 && d1 > 0 && d2 > 0)
						{
							fx += st * q.xp();
							fy += st * q.yp();
							wrong = true;
						}
						z += st;
					}
					if(edge)
						c.discard();
					fx += 0.5 * q.xp();
					fy += 0.5 * q.yp();
					if(wrong && (std::fabs(o.x() - ex) > 1e-9 || std::fabs(o.y() - ey) > 1e-9) && std::fabs(o.x() - fx) < 1e-9
						&& std::fabs(o.y() - fy) < 1e-9 && c.known("KF-01"))
					{
						ex = fx;
						ey = fy;
					}
				}
				c.near(o.x(), ex, 1e-10, touch ? 1e-9 : 1e-12, touch ? "x behind next to no material" : "x of a particle that missed the jaws");
				c.near(o.y(), ey, 1e-10, touch ? 1e-9 : 1e-12, touch ? "y behind next to no material" : "y of a particle that missed the jaws");
				c.check(touch || (o.xp() == q.xp() && o.yp() == q.yp() && o.dp() == q.dp()), "momentum of a particle that missed the jaws");
			}
		}
		else
		{
			c.check(touch || unsure, "a particle that misses the jaws is not lost");
			// next to no material: only what has less than a hundredth of the energy (or a GeV) stops
			c.check(im != 3 || 1 + q.dp() < 0.0102 || P0 * (1 + q.dp()) < 1.01, "a particle in next to no material is not lost");
		}
	}
	c.eq(k, b.size(), "particles in the bunch");
	c.eq(map.DeadParticles.size(), rec.calls.size(), "losses in the map");
	c.nontrivial(hit && k > 0);
}
