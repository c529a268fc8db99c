// P37: a linear feedback steers its signals to their set points.
// Oracle: a linear machine kept by the test, with the pseudo-inverse from the normal equations.
#include "mlib.h"
#include <deque>
#include "AcceleratorModel.h"
#include "AcceleratorModelConstructor.h"
#include "BPM.h"
#include "CorrectorDipoles.h"
#include "Drift.h"
#include "LinearFBSystem.h"
#include "ParticleTracker.h"
#include "StandardMultipoles.h"
using namespace ml;
pbt::Info pbt::info = {"P37", "at least two signals or two actuators, and at least one correction",
	"Response matrices have singular values between 0.3 and 3 of their scale or (actuators without effect) zero. A corrector that is not moved by a "
	"delayed correction keeps the setting it had."};

namespace
{
typedef std::vector<double> V;
typedef std::vector<V> M;
// the machine: signals = offset + R actuators
struct Plant
{
	M R;
	V a, offset;
	double signal(size_t i) const
	{
		double s = offset[i];
		for(size_t j = 0; j < a.size(); ++j)
			s += R[i][j] * a[j];
		return s;
	}
};
int alive = 0;
struct Signal : ROChannel
{
	Plant& p;
	size_t i;
	Signal(Plant& pl, size_t n) : p(pl), i(n) { ++alive; }
	~Signal() { --alive; }
	std::string GetID() const override { return "S" + std::to_string(i); }
	double Read() const override { return p.signal(i); }
};
struct Actuator : RWChannel
{
	Plant& p;
	size_t i;
	Actuator(Plant& pl, size_t n) : p(pl), i(n) { ++alive; }
	~Actuator() { --alive; }
	std::string GetID() const override { return "A" + std::to_string(i); }
	double Read() const override { return p.a[i]; }
	void Write(double v) override { p.a[i] = v; }
};
// columns of an orthogonal matrix
M orthogonal(Gen& g, size_t n)
{
	M q(n, V(n, 0));
	for(size_t i = 0; i < n; ++i)
		q[i][i] = 1;
	for(size_t i = 0; i < n; ++i)
		for(size_t j = i + 1; j < n; ++j)
		{
			double t = g.sym(3.14), c = std::cos(t), s = std::sin(t);
			for(size_t k = 0; k < n; ++k)
			{
				double x = q[k][i], y = q[k][j];
				q[k][i] = c * x - s * y;
				q[k][j] = s * x + c * y;
			}
		}
	return q;
}
struct Response
{
	M R, Pinv;     // n x m and m x n
};
Response response(Gen& g, size_t n, size_t m)
{
	M u = orthogonal(g, n), v = orthogonal(g, m);
	size_t r = std::min(n, m);
	double scale = g.pick({1.0, 1e-2, 30.0});
	Response x;
	x.R.assign(n, V(m, 0));
	x.Pinv.assign(m, V(n, 0));
	bool any = false;
	for(size_t k = 0; k < r; ++k)
	{
		double w = (any || k + 1 < r) && g.chance(1, 8) ? 0 : scale * g.real(0.3, 3);
		if(w == 0)
			continue;
		any = true;
		for(size_t i = 0; i < n; ++i)
			for(size_t j = 0; j < m; ++j)
			{
				x.R[i][j] += u[i][k] * w * v[j][k];
				x.Pinv[j][i] += v[j][k] / w * u[i][k];
			}
	}
	return x;
}
RealMatrix to(const M& a)
{
	RealMatrix r(a.size(), a[0].size());
	for(size_t i = 0; i < a.size(); ++i)
		for(size_t j = 0; j < a[0].size(); ++j)
			r(i, j) = a[i][j];
	return r;
}
V mul(const M& a, const V& x)
{
	V r(a.size(), 0);
	for(size_t i = 0; i < a.size(); ++i)
		for(size_t k = 0; k < x.size(); ++k)
			r[i] += a[i][k] * x[k];
	return r;
}
double rms(const V& v)
{
	double s = 0;
	for(double x : v)
		s += x * x;
	return std::sqrt(s / v.size());
}
std::unique_ptr<LinearFBSystem> make(Gen& g, Plant& p, const M& R)
{
	std::vector<ROChannel*> s;
	std::vector<RWChannel*> a;
	for(size_t i = 0; i < p.offset.size(); ++i)
		s.push_back(new Signal(p, i));
	for(size_t i = 0; i < p.a.size(); ++i)
		a.push_back(new Actuator(p, i));
	if(g.b())
		return std::unique_ptr<LinearFBSystem>(new LinearFBSystem(s, a, to(R)));
	ROChannelArray sa(s);
	RWChannelArray aa(a);
	return std::unique_ptr<LinearFBSystem>(new LinearFBSystem(sa, aa, to(R)));
}
}

LAW(histories, 12000, 250000, "a correction moves the actuators by minus the gain times the least-squares solution, as many pulses late as set; settings are read back, stored and restored")
{
	size_t n = g.i(1, 6), m = g.i(1, 6);
	Response plant = response(g, n, m), model = g.b() ? plant : response(g, n, m);
	Plant p;
	p.R = plant.R;
	for(size_t j = 0; j < m; ++j)
		p.a.push_back(g.b() ? 0 : g.sym(1));
	for(size_t i = 0; i < n; ++i)
		p.offset.push_back(g.sym(1));
	int before = alive;
	c.desc << n << " signals, " << m << " actuators: ";
	{
		auto fb = make(g, p, model.R);
		c.eq(fb->GetNumSignals(), (int) n, "number of signals");
		c.eq(fb->GetNumActuators(), (int) m, "number of actuators");
		c.eq(fb->GetGain(), 1.0, "gain of a new feedback");
		V set(n, 0), want = p.a, stored;
		double gain = 1;
		std::deque<V> queue;
		size_t delay = 0;
		bool have = false;
		for(int ops = g.len(1, 15); ops > 0; --ops)
		{
			switch(g.i(0, 9))
			{
			case 0:
				gain = g.pick({1.0, 0.5, 0.1, g.unit()});
				fb->SetGain(gain);
				c.desc << "gain " << gain << "; ";
				c.eq(fb->GetGain(), gain, "gain");
				break;
			case 1:
			{
				RealVector s(n);
				for(size_t i = 0; i < n; ++i)
					s[i] = set[i] = g.sym(1);
				fb->SetSetpoints(s);
				c.desc << "set points; ";
				break;
			}
			case 2:
				for(size_t i = 0; i < n; ++i)
					set[i] = p.signal(i);
				fb->SignalsToSetpoints();
				c.desc << "take signals; ";
				c.near(fb->GetSignalRMS(), 0, 0, 1e-12, "signals at their set points");
				break;
			case 3:
				fb->StoreActuators();
				stored = want;
				have = true;
				c.desc << "store; ";
				break;
			case 4:
				if(!have)
					break;
				fb->RestoreActuators();
				want = stored;
				c.desc << "restore; ";
				break;
			case 5:
				model = g.b() ? plant : response(g, n, m);
				fb->SetResponseMatrix(to(model.R));
				c.desc << "response; ";
				break;
			case 6:
			{
				delay = g.pick({0, 0, 1, 2, 3});
				queue.assign(delay, want);
				fb->SetPulseDelay(delay + 1);
				c.desc << "delay " << delay << "; ";
				break;
			}
			case 7:
				for(auto& x : p.offset)
					x += g.sym(0.3);
				if(g.b())
				{
					size_t j = g.raw(m - 1);
					p.a[j] += g.sym(0.5);
					want[j] = p.a[j];
				}
				c.desc << "disturb; ";
				break;
			default:
			{
				V s(n);
				for(size_t i = 0; i < n; ++i)
					s[i] = p.signal(i) - set[i];
				V d = mul(model.Pinv, s);
				for(size_t j = 0; j < m; ++j)
					d[j] = want[j] - gain * d[j];
				if(delay)
				{
					queue.push_back(d);
					d = queue.front();
					queue.pop_front();
				}
				fb->Apply();
				want = d;
				c.desc << "apply; ";
				c.nontrivial(n > 1 || m > 1);
			}
			}
			double big = 1;
			for(double x : want)
				big = std::max(big, std::fabs(x));
			for(size_t j = 0; j < m; ++j)
			{
				c.near(p.a[j], want[j], 0, 1e-9 * big, "actuator " + std::to_string(j));
				want[j] = p.a[j];
			}
			if(big > 1e6)
				break;
			V s(n);
			for(size_t i = 0; i < n; ++i)
				s[i] = p.signal(i) - set[i];
			c.near(fb->GetSignalRMS(), rms(s), 1e-10, 1e-13 * (1 + big), "rms of the signals");
			c.near(fb->GetActuatorRMS(), rms(p.a), 1e-10, 1e-15, "rms of the actuators");
		}
		c.check(alive > before, "channels are kept");
	}
	c.eq(alive, before, "channels of the feedback are deleted with it");
}

LAW(convergence, 6000, 100000, "with the response of the machine, each correction reduces the correctable error by the gain and leaves the rest")
{
	size_t n = g.i(1, 6), m = g.i(1, 6);
	Response r = response(g, n, m);
	Plant p;
	p.R = r.R;
	for(size_t j = 0; j < m; ++j)
		p.a.push_back(g.sym(1));
	for(size_t i = 0; i < n; ++i)
		p.offset.push_back(g.sym(1));
	auto fb = make(g, p, r.R);
	RealVector set(n);
	for(size_t i = 0; i < n; ++i)
		set[i] = g.sym(1);
	fb->SetSetpoints(set);
	double gain = g.pick({1.0, 1.0, g.real(0.05, 1)}), f = 1;
	int delay = g.chance(1, 4) ? g.i(1, 3) : 0;
	if(delay)
	{
		// (a late correction is repeated: slowly enough to be stable)
		gain = 0.12;
		fb->SetPulseDelay(delay + 1);
	}
	fb->SetGain(gain);
	V s0(n), fix(n, 0);
	for(size_t i = 0; i < n; ++i)
		s0[i] = p.signal(i) - set[i];
	V d = mul(r.Pinv, s0);
	fix = mul(r.R, d);         // the part that can be corrected
	c.desc << n << " signals, " << m << " actuators, gain " << gain << " delay " << delay;
	c.nontrivial(n > 1 || m > 1);
	double scale = 1e-9 * (1 + rms(p.a)) * 40;
	for(int k = delay ? 400 : g.i(1, 6); k > 0; --k)
	{
		fb->Apply();
		f *= 1 - gain;
		if(delay)
			continue;
		for(size_t i = 0; i < n; ++i)
			c.near(p.signal(i) - set[i], s0[i] - fix[i] + f * fix[i], 0, scale, "error " + std::to_string(i));
	}
	if(delay)
		for(size_t i = 0; i < n; ++i)
			c.near(p.signal(i) - set[i], s0[i] - fix[i], 0, 1e-6 + 1e-3 * rms(fix), "final error " + std::to_string(i));
}

LAW(orbit, 500, 10000, "correctors and monitors of a beamline: one correction with the measured response brings the orbit to its set points")
{
	struct Quiet
	{
		bool noise = BPM::generate_noise;
		std::ostringstream sink;
		std::streambuf* old;
		Quiet() : old(std::cout.rdbuf(sink.rdbuf())) { BPM::generate_noise = false; }
		~Quiet()
		{
			std::cout.rdbuf(old);
			BPM::generate_noise = noise;
		}
	} quiet;
	double P0 = 10, q = 1;
	AcceleratorModelConstructor con;
	int cells = g.i(1, 4);
	bool vertical = g.b();
	double K = g.real(0.1, 0.5) * P0 / 0.299792458, L = g.real(0.5, 2);
	for(int k = 0; k < cells; ++k)
	{
		std::string s = std::to_string(k);
		if(vertical)
			con.AppendComponent(new YCor("C" + s, 0.1, 0));
		else
			con.AppendComponent(new XCor("C" + s, 0.1, 0));
		con.AppendComponent(new Quadrupole("QF" + s, 0.2, K));
		con.AppendComponent(new Drift("DA" + s, L));
		con.AppendComponent(new BPM("M" + s, g.b() ? 0 : 0.1));
		con.AppendComponent(new Quadrupole("QD" + s, 0.2, -K));
		con.AppendComponent(new Drift("DB" + s, L));
	}
	std::unique_ptr<AcceleratorModel> model(con.GetModel());
	std::vector<ROChannel*> ro;
	std::vector<RWChannel*> rw;
	size_t ns = model->GetROChannels(vertical ? "BPM.*.Y" : "BPM.*.X", ro);
	size_t na = model->GetRWChannels(vertical ? "YCor.*.B0" : "XCor.*.B0", rw);
	c.eq(ns, (size_t) cells, "monitors");
	c.eq(na, (size_t) cells, "correctors");
	V6 start{};
	start[0] = g.sym(1e-3);
	start[1] = g.sym(1e-4);
	start[2] = g.sym(1e-3);
	start[3] = g.sym(1e-4);
	ParticleTracker t(model->GetBeamline());
	auto shot = [&]
		{
			ParticleBunch b(P0, q);
			b.AddParticle(mk(start));
			t.Track(&b);
		};
	M R(cells, V(cells, 0));
	V zero(cells);
	shot();
	for(int i = 0; i < cells; ++i)
		zero[i] = ro[i]->Read();
	const double kick = 1e-3;
	for(int j = 0; j < cells; ++j)
	{
		rw[j]->Write(kick);
		shot();
		for(int i = 0; i < cells; ++i)
			R[i][j] = (ro[i]->Read() - zero[i]) / kick;
		rw[j]->Write(0);
	}
	for(int i = 0; i < cells; ++i)
		if(std::fabs(R[i][i]) < 0.3 * 0.1 * 0.0299792458)
			c.discard();          // a monitor that does not see its corrector
	LinearFBSystem fb(ro, rw, to(R));
	RealVector set(cells);
	for(int i = 0; i < cells; ++i)
		set[i] = g.sym(1e-3);
	fb.SetSetpoints(set);
	shot();
	c.desc << cells << " cells " << (vertical ? "vertical" : "horizontal") << " L=" << L << " K=" << K;
	c.nontrivial(cells > 1);
	double before = fb.GetSignalRMS();
	for(int k = 0; k < 2; ++k)
	{
		fb.Apply();
		shot();
	}
	c.check(fb.GetSignalRMS() < 1e-3 * before + 1e-9, "the orbit is at its set points: rms " + std::to_string(fb.GetSignalRMS() * 1e6) + " um, before " +
		std::to_string(before * 1e6));
}
