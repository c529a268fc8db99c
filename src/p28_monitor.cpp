// P28: beam position and profile monitors report the beam that passes them.
#include "mlib.h"
#include <fstream>
#include <unistd.h>
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "MonitorProcess.h"
#include "BPMDataBufferServer.h"
#include "RandomNG.h"
using namespace ml;

pbt::Info pbt::info = {"P28",
	"Histories over 1-3 BPMs and profile monitors with up to 4 buffers: registrations, default buffers, activity flags, scales, "
	"responses, copies and measurements of random bunches; monitors of any length and measurement point tracked by every integrator "
	"set in one or several steps and displaced by their frame; beamlines tracked over several turns; noise statistics; bunch dumps "
	"at named elements. Non-trivial: a measurement was recorded.",
	"Noise and resolution are judged by mean and variance at 5 sigma; the sign of the axis of an angled profile measurement is not "
	"documented and either is accepted."};

namespace
{
struct Rec
{
	const BPM* b;
	BPM::Data d;
};
struct PRec
{
	const RMSProfileMonitor* b;
	RMSProfileMonitor::Data d;
};
struct Buf: public BPM::Buffer
{
	std::vector<Rec> r;
	void Record(const BPM& b, const BPM::Data& d) override
	{
		r.push_back({&b, d});
	}
};
struct PBuf: public RMSProfileMonitor::Buffer
{
	std::vector<PRec> r;
	void Record(const RMSProfileMonitor& b, const RMSProfileMonitor::Data& d) override
	{
		r.push_back({&b, d});
	}
};
struct Resp: public BPM::Response
{
	double ax = 1, bx = 0, ay = 1, by = 0;
	int calls = 0;
	void Apply(BPM::Data* d) override
	{
		++calls;
		d->x.value = ax * d->x.value + bx;
		d->y.value = ay * d->y.value + by;
	}
};
struct Stat
{
	double x, y, sx, sy, cxy, w;
};
Stat stat(const ParticleBunch& b)
{
	long double x = 0, y = 0, xx = 0, yy = 0, xy = 0, w = 0;
	auto& p = b.GetParticles();
	size_t n = p.size();
	for(auto& v : p)
		x += v.x() / (long double) n, y += v.y() / (long double) n, w = std::max(w, (long double) std::max(std::fabs(v.x()), std::fabs(v.y())));
	for(auto& v : p)
	{
		xx += (v.x() - x) * (v.x() - x) / n;
		yy += (v.y() - y) * (v.y() - y) / n;
		xy += (v.x() - x) * (v.y() - y) / n;
	}
	return {(double) x, (double) y, (double) std::sqrt(xx), (double) std::sqrt(yy), (double) xy, (double) w};
}
std::unique_ptr<ParticleBunch> bunch(Gen& g, double a = 1e-3, int maxn = 12)
{
	std::unique_ptr<ParticleBunch> b(new ParticleBunch(beam_momentum(g), charge(g)));
	int n = g.len(1, maxn);
	double ox = g.coord(a), oy = g.coord(a);
	for(int k = 0; k < n; ++k)
	{
		V6 v{ox + g.coord(a), g.coord(a), oy + g.coord(a), g.coord(a), g.coord(a), g.coord(a)};
		b->AddParticle(mk(v, k));
	}
	return b;
}
std::string image(const ParticleBunch& b)
{
	std::string s;
	for(auto& p : b.GetParticles())
		for(int i = 0; i < 6; ++i)
		{
			double x = p[i];
			s.append((const char*) &x, sizeof x);
		}
	double r[] = {b.GetReferenceMomentum(), b.GetReferenceTime(), b.GetTotalCharge()};
	s.append((const char*) r, sizeof r);
	return s;
}
struct Restore
{
	~Restore()
	{
		BPM::generate_noise = true;
		Monitor::all_inactive = false;
		BPM::SetDefaultBuffer(nullptr);
		RMSProfileMonitor::SetDefaultBuffer(nullptr);
	}
};
// the profile measurement along the axis at angle u: either sense of rotation, but the same for mean and size
void profile(Ctx& c, const RMSProfileMonitor::Data& d, const Stat& s, double u)
{
	double tol = 1e-12 * s.w, tv = 1e-7 * s.w;
	c.near(d.x0.value, s.x, 0, tol, "profile monitor: x centroid");
	c.near(d.y0.value, s.y, 0, tol, "profile monitor: y centroid");
	c.near(d.xrms.value, s.sx, 0, tv, "profile monitor: x size");
	c.near(d.yrms.value, s.sy, 0, tv, "profile monitor: y size");
	double co = std::cos(u), si = std::sin(u);
	double m[2], w[2];
	bool ok[2], okm[2], okw[2];
	for(int k = 0; k < 2; ++k)
	{
		double sg = k ? -si : si;
		m[k] = co * s.x + sg * s.y;
		w[k] = std::sqrt(std::max(0.0, co * co * s.sx * s.sx + sg * sg * s.sy * s.sy + 2 * co * sg * s.cxy));
		okm[k] = std::fabs(d.u0.value - m[k]) <= 2 * tol || (u > 1.57 && u < 1.571 && std::fabs(d.u0.value + m[k]) <= 2 * tol);
		okw[k] = std::fabs(d.urms.value - w[k]) <= 2 * tv;
		ok[k] = okm[k] && okw[k];
	}
	std::ostringstream t;
	t.precision(12);
	t << "at angle " << u << " mean " << d.u0.value << " size " << d.urms.value << ", expected " << m[0] << "," << w[0] << " or " << m[1]
	  << "," << w[1] << " (sizes in x and y " << s.sx << "," << s.sy << ")";
	c.check(okm[0] || okm[1], "profile monitor: angled centroid " + t.str());
	c.check(okw[0] || okw[1], "profile monitor: angled size " + t.str());
	c.check(ok[0] || ok[1], "profile monitor: angled mean and size refer to different axes " + t.str());
}
}

LAW(buffers, 60000, 200000, "each registered buffer gets each measurement of its monitor once, with the value the settings prescribe")
{
	Restore restore;
	BPM::generate_noise = g.b();
	std::vector<std::unique_ptr<Buf> > bufs;
	std::vector<std::unique_ptr<PBuf> > pbufs;
	for(int k = 0; k < 4; ++k)
	{
		bufs.emplace_back(new Buf);
		pbufs.emplace_back(new PBuf);
	}
	struct M
	{
		std::unique_ptr<BPM> b;
		std::unique_ptr<RMSProfileMonitor> p;
		double u = 0, sx = 1, sy = 1, rx = 0, ry = 0;
		bool active = true, refl = false;
		std::set<int> reg;
		Resp* resp = nullptr;
	};
	std::vector<M> mon;
	std::vector<std::unique_ptr<Resp> > resps;
	int nm = g.i(1, 3);
	for(int k = 0; k < nm; ++k)
	{
		M m;
		if(g.chance(1, 3))
		{
			m.u = g.pick({0.0, pi / 4, pi / 2, -pi / 4, 0.3, 1.2, 2.0, pi});
			m.p.reset(new RMSProfileMonitor("p", m.u));
		}
		else
			m.b.reset(new BPM("b"));
		mon.push_back(std::move(m));
	}
	int def = -1, pdef = -1, recs = 0;
	std::vector<std::vector<int> > calls(4);
	int steps = g.len(2, 30);
	for(int st = 0; st < steps; ++st)
	{
		M& m = mon[g.i(0, mon.size() - 1)];
		Monitor* base = m.b ? static_cast<Monitor*>(m.b.get()) : m.p.get();
		int op = g.i(0, 13), k = g.i(0, 2);
		switch(op)
		{
		case 0:
			m.b ? m.b->AddBuffer(bufs[k].get()) : m.p->AddBuffer(pbufs[k].get());
			m.reg.insert(k);
			c.desc << "add" << k << " ";
			break;
		case 1:
		{
			bool r = m.b ? m.b->RemoveBuffer(bufs[k].get()) : m.p->RemoveBuffer(pbufs[k].get());
			c.eq(r, m.reg.erase(k) != 0, "RemoveBuffer reports whether the buffer was registered");
			c.desc << "remove" << k << " ";
			break;
		}
		case 2:
			m.b ? m.b->ClearAllBuffers() : m.p->RemoveAllBuffers();
			m.reg.clear();
			c.desc << "clear ";
			break;
		case 3:
			// the default buffer is one that no monitor has (index 3 is kept for it)
			if(m.b)
				BPM::SetDefaultBuffer((def = g.b() ? 3 : -1) < 0 ? nullptr : bufs[3].get());
			else
				RMSProfileMonitor::SetDefaultBuffer((pdef = g.b() ? 3 : -1) < 0 ? nullptr : pbufs[3].get());
			c.desc << "default " << def << "," << pdef << " ";
			break;
		case 4:
		{
			bool a = g.b();
			c.eq(base->SetActive(a), m.active, "SetActive returns the previous state");
			m.active = a;
			c.desc << "active" << a << " ";
			break;
		}
		case 5:
			Monitor::all_inactive = g.chance(1, 3);
			c.desc << "all_inactive" << Monitor::all_inactive << " ";
			break;
		case 6:
			if(m.b)
			{
				m.sx = g.pick({1.0, 0.5, -1.0, 2.0, 1e3});
				m.sy = g.pick({1.0, 0.25, -2.0, 1e-3});
				m.b->SetScale(m.sx, m.sy);
				c.desc << "scale" << m.sx << "," << m.sy << " ";
			}
			break;
		case 7:
			if(m.b)
			{
				Resp* r = nullptr;
				if(g.chance(2, 3))
				{
					resps.emplace_back(r = new Resp);
					r->ax = g.sym(2);
					r->bx = g.sym(1e-3);
					r->ay = g.sym(2);
					r->by = g.sym(1e-3);
				}
				c.check(m.b->SetResponse(r) == m.resp, "SetResponse returns the previous response");
				m.resp = r;
				c.desc << "response" << (r != nullptr) << " ";
			}
			break;
		case 8:
			if(m.b && !BPM::generate_noise)
			{
				m.rx = g.real(0, 1);
				m.ry = g.b() ? m.rx : g.real(0, 1);
				m.b->SetResolution(m.rx, m.ry);
				c.desc << "res ";
			}
			break;
		case 9:
		{
			bool r = g.b();
			c.eq(base->SetReflected(r), m.refl, "SetReflected returns the previous state");
			m.refl = r;
			if(g.b())
			{
				base->RotateY180();
				m.refl = !m.refl;
			}
			c.eq(base->IsReflected(), m.refl, "IsReflected");
			break;
		}
		case 10:
			if(mon.size() < 4)
			{
				M n;
				n.u = m.u, n.sx = m.sx, n.sy = m.sy, n.rx = m.rx, n.ry = m.ry;
				n.active = m.active, n.refl = m.refl, n.reg = m.reg, n.resp = m.resp;
				if(m.b)
					n.b.reset(static_cast<BPM*>(m.b->Copy()));
				else
					n.p.reset(static_cast<RMSProfileMonitor*>(m.p->Copy()));
				mon.push_back(std::move(n));
				c.desc << "copy ";
				break;
			}
		// fall through
		default:
		{
			std::unique_ptr<ParticleBunch> b = bunch(g);
			if(g.b())
				b->SetReferenceTime(g.sym(1e3));
			std::string before = image(*b);
			std::vector<size_t> cnt, pcnt;
			for(auto& x : bufs)
				cnt.push_back(x->r.size());
			for(auto& x : pbufs)
				pcnt.push_back(x->r.size());
			int rc = m.resp ? m.resp->calls : 0;
			base->MakeMeasurement(*b);
			c.check(image(*b) == before, "a measurement changed the bunch");
			bool on = m.active && !Monitor::all_inactive;
			c.eq(base->IsActive(), on, "IsActive");
			std::set<int> to = on ? m.reg : std::set<int>();
			if(on && m.b && def == 3)
				to.insert(3);
			if(on && m.p && pdef == 3)
				to.insert(3);
			if(m.resp)
				c.eq(m.resp->calls - rc, to.empty() ? 0 : 1, "the response is applied once per measurement");
			c.desc << "measure->" << to.size() << " ";
			Stat s = stat(*b);
			double ct = b->GetReferenceTime();
			for(int i = 0; i < 4; ++i)
			{
				c.eq(bufs[i]->r.size() - cnt[i], (size_t) (m.b && to.count(i)), "records in buffer " + std::to_string(i));
				c.eq(pbufs[i]->r.size() - pcnt[i], (size_t) (m.p && to.count(i)), "records in profile buffer " + std::to_string(i));
				if(!to.count(i))
					continue;
				++recs;
				if(m.b)
				{
					const Rec& r = bufs[i]->r.back();
					c.check(r.b == m.b.get(), "the record names another BPM");
					double ex = s.x * m.sx, ey = s.y * m.sy, tx = 1e-12 * s.w * std::fabs(m.sx), ty = 1e-12 * s.w * std::fabs(m.sy);
					if(m.resp)
					{
						ex = m.resp->ax * ex + m.resp->bx, ey = m.resp->ay * ey + m.resp->by;
						tx = 3 * tx + 1e-15, ty = 3 * ty + 1e-15;
					}
					c.near(r.d.x.value, ex, 0, tx, "BPM x reading");
					c.near(r.d.y.value, ey, 0, ty, "BPM y reading");
					c.eq(r.d.x.error, m.rx, "BPM x error");
					c.eq(r.d.y.error, m.ry, "BPM y error");
					c.eq(r.d.ct, ct, "BPM time");
				}
				else
				{
					const PRec& r = pbufs[i]->r.back();
					c.check(r.b == m.p.get(), "the record names another monitor");
					profile(c, r.d, s, m.u);
				}
			}
		}
		}
	}
	c.nontrivial(recs > 0);
	c.label(recs > 3, "more than 3 records");
}

LAW(position, 50000, 200000, "a monitor measures once per passage, the bunch at its measurement point, and acts as a drift")
{
	Restore restore;
	Set set = g.pick({TRANSPORT_SET, THIN_SET, SYMP_SET});
	double L = g.chance(1, 4) ? 0 : length(g, 0.01, 3);
	double mpt = g.pick({0.0, 0.5, -0.5, 0.25, -0.3}) * L;
	bool prof = g.b();
	std::unique_ptr<Monitor> m;
	Buf buf;
	PBuf pbuf;
	double u = g.pick({0.0, pi / 4, pi / 2, 0.4});
	if(prof)
	{
		auto* p = new RMSProfileMonitor("p", u, L, mpt);
		p->AddBuffer(&pbuf);
		m.reset(p);
	}
	else
	{
		auto* p = new BPM("b", L, mpt);
		p->AddBuffer(&buf);
		m.reset(p);
	}
	c.eq(m->GetMeasurementPt(), mpt, "measurement point");
	if(g.b())
	{
		double q = g.pick({0.0, 0.4, -0.5, 0.5}) * L;
		m->SetMeasurementPt(q);
		mpt = q;
		c.eq(m->GetMeasurementPt(), mpt, "measurement point set");
	}
	std::unique_ptr<ParticleBunch> b = bunch(g, 1e-4);
	ParticleBunch at(b->GetReferenceMomentum(), b->GetChargeSign()), end(b->GetReferenceMomentum(), b->GetChargeSign());
	double s0 = L / 2 + mpt;
	for(auto p : b->GetParticles())
	{
		PSvector a = p;
		a.x() += s0 * a.xp();
		a.y() += s0 * a.yp();
		at.AddParticle(a);
		p.x() += L * p.xp();
		p.y() += L * p.yp();
		end.AddParticle(p);
	}
	std::vector<double> steps;
	if(L > 0 && g.b())
	{
		double rest = L;
		int n = g.i(1, 5);
		for(int k = 0; k < n; ++k)
		{
			double ds = g.pick({rest / 2, rest / 3, s0 > L - rest ? s0 - (L - rest) : rest / 4, rest * 0.1});
			if(ds <= 0 || ds >= rest * (1 - 1e-9))
				continue;
			steps.push_back(ds);
			rest -= ds;
		}
		c.label("in steps");
	}
	c.desc << setname(set) << (prof ? " profile" : " bpm") << " L=" << L << " at " << mpt << " steps " << steps.size();
	track(set, *m, *b, steps);
	size_t n = prof ? pbuf.r.size() : buf.r.size();
	c.eq(n, (size_t) 1, "number of measurements in one passage");
	// the measurement is judged to second order in the slopes
	Stat s = stat(at);
	double tol = 1e-11 + 3e-8 * L * 1e-3;
	if(prof)
	{
		s.w = std::max(s.w, 1e-4);
		c.near(pbuf.r[0].d.x0.value, s.x, 0, tol, "profile monitor x centroid at the measurement point");
		c.near(pbuf.r[0].d.y0.value, s.y, 0, tol, "profile monitor y centroid at the measurement point");
		c.near(pbuf.r[0].d.xrms.value, s.sx, 0, tol, "profile monitor x size at the measurement point");
		c.near(pbuf.r[0].d.yrms.value, s.sy, 0, tol, "profile monitor y size at the measurement point");
	}
	else
	{
		c.near(buf.r[0].d.x.value, s.x, 0, tol, "BPM x at the measurement point");
		c.near(buf.r[0].d.y.value, s.y, 0, tol, "BPM y at the measurement point");
	}
	for(size_t k = 0; k < b->size(); ++k)
	{
		V6 a = un(b->GetParticles()[k]), e = un(end.GetParticles()[k]);
		for(int i : {0, 2})
			c.near(a[i], e[i], 0, tol + 2e-4 * L * 1e-4 * (set == SYMP_SET), "position after the monitor");
		for(int i : {1, 3, 5})
			c.near(a[i], e[i], 0, 1e-15, "slope and energy after the monitor");
	}
	c.nontrivial();
}

LAW(beamline, 15000, 60000, "every BPM of a tracked beamline reports its passage in order, turn by turn, relative to its own frame")
{
	Restore restore;
	double P0 = 10, q = 1;
	AcceleratorModelConstructor ctor;
	int n = g.len(1, 12);
	struct E
	{
		BPM* b;
		double L, dx, dy;
		std::string name;
	};
	std::vector<E> el;
	std::vector<std::unique_ptr<Buf> > own;
	Buf all;
	BPM::SetDefaultBuffer(&all);
	int nb = 0;
	for(int k = 0; k < n; ++k)
	{
		E e{nullptr, 0, 0, 0, ""};
		if(g.chance(1, 2))
		{
			e.L = g.b() ? 0 : g.real(0.01, 1);
			e.name = g.b() ? "BPM" : "B" + std::to_string(k);
			e.b = new BPM(e.name, e.L);
			own.emplace_back(new Buf);
			e.b->AddBuffer(own.back().get());
			ctor.AppendComponent(e.b);
			++nb;
		}
		else
		{
			e.L = g.real(0.1, 3);
			ctor.AppendComponent(new Drift("D" + std::to_string(k), e.L));
		}
		el.push_back(e);
	}
	std::unique_ptr<AcceleratorModel> model(ctor.GetModel());
	std::vector<ComponentFrame*> fr;
	model->ExtractComponents("*", fr);
	// frames that the constructor adds at the ends have no component of ours
	size_t k = 0;
	for(auto* f : fr)
	{
		for(auto& e : el)
			if(e.b && &f->GetComponent() == static_cast<AcceleratorComponent*>(e.b) && g.b())
			{
				e.dx = g.coord(1e-3);
				e.dy = g.coord(1e-3);
				f->Translate(e.dx, e.dy, 0);
			}
		++k;
	}
	std::unique_ptr<ParticleBunch> b = bunch(g, 1e-4, 5);
	ParticleTracker t(model->GetBeamline(), b.get());
	Set set = g.pick({TRANSPORT_SET, THIN_SET, SYMP_SET});
	t.SetIntegratorSet(&iset(set));
	int turns = g.i(1, 3);
	std::vector<V6> ref;
	for(auto& p : b->GetParticles())
		ref.push_back(un(p));
	std::vector<std::pair<double, double> > expect;
	double len = 0;
	for(int turn = 0; turn < turns; ++turn)
		for(auto& e : el)
		{
			double x = 0, y = 0;
			for(auto& v : ref)
			{
				x += (v[0] + e.L / 2 * v[1]) / ref.size();
				y += (v[2] + e.L / 2 * v[3]) / ref.size();
				v[0] += e.L * v[1];
				v[2] += e.L * v[3];
			}
			if(e.b)
				expect.push_back({x - e.dx, y - e.dy});
			len += e.L;
		}
	c.desc << n << " elements, " << nb << " BPMs, " << turns << " turns, " << setname(set);
	for(int turn = 0; turn < turns; ++turn)
		t.Track(b.get());
	double tol = 1e-11 + len * 1e-4 * (set == SYMP_SET ? 3e-4 : 1e-7);
	c.eq(all.r.size(), expect.size(), "measurements seen by the default buffer");
	size_t i = 0;
	for(int turn = 0; turn < turns; ++turn)
	{
		int j = 0;
		for(auto& e : el)
			if(e.b)
			{
				c.check(all.r[i].b == e.b, "measurements are not in beamline order");
				c.near(all.r[i].d.x.value, expect[i].first, 0, tol, "BPM x in its own frame");
				c.near(all.r[i].d.y.value, expect[i].second, 0, tol, "BPM y in its own frame");
				c.eq(own[j]->r.size(), (size_t) turns, "measurements of one BPM");
				c.check(own[j]->r[turn].b == e.b && own[j]->r[turn].d.x.value == all.r[i].d.x.value
					&& own[j]->r[turn].d.y.value == all.r[i].d.y.value, "own and default buffer got different data");
				++i;
				++j;
			}
	}
	c.nontrivial(nb > 0);
}

LAW(noise, 600, 3000, "measurement noise is unbiased, has the stated resolution, is scaled with the reading and independent between planes")
{
	Restore restore;
	RandomNG::init((uint32_t) g.raw(0xffffffffu));
	std::unique_ptr<ParticleBunch> b = bunch(g, 1e-3, 4);
	Stat s = stat(*b);
	const int N = 3000;
	bool prof = g.b();
	double rx = g.chance(1, 5) ? 0 : g.logu(1e-7, 1e-3), ry = g.chance(1, 5) ? 0 : g.logu(1e-7, 1e-3), ru = g.logu(1e-7, 1e-3);
	double sx = 1, sy = 1;
	std::vector<std::vector<double> > v;
	std::vector<double> mean, res;
	std::vector<std::string> nm;
	if(prof)
	{
		RMSProfileMonitor m("p", 0);
		PBuf buf;
		m.AddBuffer(&buf);
		m.SetResolution(rx, ry, ru);
		for(int k = 0; k < N; ++k)
			m.MakeMeasurement(*b);
		v.resize(6);
		for(auto& r : buf.r)
		{
			const Measurement* p[] = {&r.d.x0, &r.d.y0, &r.d.u0, &r.d.xrms, &r.d.yrms, &r.d.urms};
			double e[] = {rx, ry, ru, rx, ry, ru};
			for(int k = 0; k < 6; ++k)
			{
				v[k].push_back(p[k]->value);
				c.eq(p[k]->error, e[k], "stated error of the profile measurement");
			}
		}
		mean = {s.x, s.y, s.x, s.sx, s.sy, s.sx};
		res = {rx, ry, ru, rx, ry, ru};
		nm = {"x0", "y0", "u0", "xrms", "yrms", "urms"};
	}
	else
	{
		BPM m("b");
		Buf buf;
		m.AddBuffer(&buf);
		m.SetResolution(rx, ry);
		if(g.b())
		{
			sx = g.slogu(0.1, 10);
			sy = g.slogu(0.1, 10);
			m.SetScale(sx, sy);
		}
		for(int k = 0; k < N; ++k)
			m.MakeMeasurement(*b);
		v.resize(2);
		for(auto& r : buf.r)
		{
			v[0].push_back(r.d.x.value);
			v[1].push_back(r.d.y.value);
		}
		mean = {s.x * sx, s.y * sy};
		res = {rx * std::fabs(sx), ry * std::fabs(sy)};
		nm = {"x", "y"};
	}
	c.desc << (prof ? "profile" : "bpm") << " resolution " << rx << " " << ry << " scale " << sx << " " << sy;
	std::vector<double> sd(v.size()), mu(v.size());
	for(size_t k = 0; k < v.size(); ++k)
	{
		double a = 0, w = 0;
		for(double x : v[k])
			a += (x - mean[k]) / N;
		for(double x : v[k])
			w += (x - mean[k] - a) * (x - mean[k] - a) / N;
		double tiny = 1e-7 * s.w * 10;
		c.near(a, 0, 0, 5.5 * res[k] / std::sqrt((double) N) + (res[k] == 0 ? tiny : 1e-12), "mean noise of " + nm[k]);
		if(res[k] == 0)
			c.near(std::sqrt(w), 0, 0, 1e-15, "noise without resolution of " + nm[k]);
		else
			c.near(std::sqrt(w) / res[k], 1, 0, 5.5 / std::sqrt(2.0 * N), "rms noise over resolution of " + nm[k]);
		mu[k] = a;
		sd[k] = std::sqrt(w);
	}
	for(size_t i = 0; i < v.size(); ++i)
		for(size_t j = 0; j < i; ++j)
			if(res[i] > 0 && res[j] > 0)
			{
				double r = 0;
				for(int k = 0; k < N; ++k)
					r += (v[i][k] - mean[i] - mu[i]) * (v[j][k] - mean[j] - mu[j]) / N / sd[i] / sd[j];
				c.near(r, 0, 0, 5.5 / std::sqrt((double) N), "correlation of the noise of " + nm[i] + " and " + nm[j]);
			}
	c.nontrivial();
}

LAW(server, 5000, 80000, "the data buffer server keeps one buffer per BPM, attached once")
{
	Restore restore;
	BPM::generate_noise = false;
	BPMDataBufferServer sv;
	std::vector<std::unique_ptr<BPM> > b;
	std::map<int, BPMDataBuffer*> known;
	int n = g.i(1, 4);
	for(int k = 0; k < n; ++k)
		b.emplace_back(new BPM("B" + std::to_string(k)));
	for(int s = g.len(1, 12); s > 0; --s)
	{
		int k = g.i(0, n - 1);
		bool create = g.b();
		BPMDataBuffer* p = sv.GetDataBuffer(b[k].get(), create);
		if(known.count(k))
			c.check(p == known[k], "another buffer for the same BPM");
		else if(!create)
			c.check(p == nullptr, "a buffer appeared that was not asked for");
		else
		{
			c.check(p != nullptr, "no buffer was made");
			for(auto& o : known)
				c.check(o.second != p, "two BPMs share a buffer");
			known[k] = p;
			c.nontrivial();
		}
	}
	for(auto& o : known)
		c.check(b[o.first]->RemoveBuffer(o.second) && !b[o.first]->RemoveBuffer(o.second), "the buffer is not attached to its BPM once");
}

LAW(dumps, 2500, 10000, "a monitor process writes the bunch at exactly the elements named, in order")
{
	Restore restore;
	AcceleratorModelConstructor ctor;
	std::vector<std::string> names;
	std::vector<double> len;
	std::vector<double> kick;
	int n = g.len(1, 8);
	for(int k = 0; k < n; ++k)
	{
		std::string nm = g.pick({"A", "B", "C", "D", "A1"});
		double L = g.real(0.1, 2);
		if(g.chance(1, 4))
		{
			ctor.AppendComponent(new Marker(nm));
			L = 0;
		}
		else
			ctor.AppendComponent(new Drift(nm, L));
		names.push_back(nm);
		len.push_back(L);
	}
	std::unique_ptr<AcceleratorModel> model(ctor.GetModel());
	std::string prefix = g.pick({"", "out_", "x"});
	std::set<std::string> at;
	bool later = g.b();
	MonitorProcess* mp = later ? new MonitorProcess("M", 1) : new MonitorProcess("M", 1, prefix);
	if(later)
		mp->SetPrefix(prefix);
	for(int k = g.i(0, 3); k > 0; --k)
	{
		std::string nm = g.pick({"A", "B", "C", "Z", "A1"});
		mp->AddElement(nm);
		at.insert(nm);
	}
	std::unique_ptr<ParticleBunch> b = bunch(g, 1e-4, 5);
	std::unique_ptr<ParticleBunch> ref(new ParticleBunch(b->GetReferenceMomentum(), b->GetChargeSign()));
	for(auto& p : b->GetParticles())
		ref->AddParticle(p);
	ParticleTracker t(model->GetBeamline(), b.get());
	t.AddProcess(mp);
	int turns = g.i(1, 2);
	for(int k = 0; k < turns; ++k)
		t.Track(b.get());
	// the same elements, without the process
	std::vector<std::pair<std::string, std::string> > expect;
	int cnt = 0;
	for(int turn = 0; turn < turns; ++turn)
		for(int k = 0; k < n; ++k)
		{
			if(len[k] > 0)
			{
				Drift d("d", len[k]);
				track(TRANSPORT_SET, d, *ref);
			}
			if(at.count(names[k]))
			{
				std::ostringstream o;
				ref->Output(o);
				expect.push_back({prefix + names[k] + "_" + std::to_string(++cnt), o.str()});
			}
		}
	c.desc << n << " elements, " << turns << " turns, " << expect.size() << " dumps";
	std::string err;
	for(auto& e : expect)
	{
		std::ifstream f(e.first);
		std::stringstream s;
		s << f.rdbuf();
		if(!f)
			err += "no file " + e.first + "; ";
		else
		{
			std::istringstream a(s.str()), x(e.second);
			std::string p, r;
			while(x >> r)
			{
				if(!(a >> p))
				{
					err += e.first + " is short; ";
					break;
				}
				if(p != r && !(std::fabs(atof(p.c_str()) - atof(r.c_str())) <= 1e-9 * std::max(1e-4, std::fabs(atof(r.c_str())))))
				{
					err += e.first + " has " + p + " instead of " + r + "; ";
					break;
				}
			}
			if(a >> p)
				err += e.first + " is long; ";
		}
		unlink(e.first.c_str());
	}
	for(auto* nm : {"A", "B", "C", "D", "A1", "Z"})
		if(access((prefix + nm + "_" + std::to_string(cnt + 1)).c_str(), F_OK) == 0)
		{
			err += std::string("an unexpected dump at ") + nm + "; ";
			unlink((prefix + nm + "_" + std::to_string(cnt + 1)).c_str());
		}
	c.check(err.empty(), err);
	c.nontrivial(!expect.empty());
}
