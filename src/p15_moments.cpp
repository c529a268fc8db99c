// P15: bunch moments, reference changes, list operations and binning match their definitions.
#include "mlib.h"
#include "ParticleBunchUtilities.h"
#include "Histogram.h"
#include "PSmoments.h"
#include "ProtonBunch.h"
#include "ElectronBunch.h"
#include "MuonBunch.h"
using namespace ml;
typedef long double LD;

pbt::Info pbt::info = {"P15",
	"Bunches of 0 to 200 particles with any spread and offset, reused result objects, histories of up to 40 operations of "
	"adding, removing, sorting, swapping, clearing, centring and changing the reference, and binning with any number and width of bins. "
	"Non-trivial: at least two particles, or a history of at least three operations.",
	"Moments are compared with long double sample statistics to 1e-12 of the scale of the coordinates; edges of bins are judged up to "
	"rounding."};

namespace
{
std::vector<PSvector> cloud(Gen& g, int lo, int hi)
{
	std::vector<PSvector> v(g.len(lo, hi));
	double off[6], s[6];
	for(int j = 0; j < 6; ++j)
	{
		s[j] = g.pick({0.0, 1.0, g.logu(1e-12, 1e3), g.logu(1e-12, 1e3)});
		off[j] = g.pick({0.0, 1.0, g.slogu(1e-9, 1e3), s[j] * 1e4});
	}
	double mix = g.b() ? g.sym(1) : 0;
	for(size_t k = 0; k < v.size(); ++k)
	{
		for(int j = 0; j < 6; ++j)
			v[k][j] = off[j] + s[j] * g.sym(1);
		v[k][1] += mix * v[k][0];
		v[k][4] += mix * v[k][5];
		v[k].id() = k;
	}
	return v;
}
struct Stat
{
	LD m[6], S[6][6];
	double big[6];
	explicit Stat(const std::vector<PSvector>& v)
	{
		for(int i = 0; i < 6; ++i)
		{
			m[i] = big[i] = 0;
			for(auto& p : v)
			{
				m[i] += p[i];
				big[i] = std::max(big[i], std::abs(p[i]));
			}
			m[i] /= v.size();
		}
		for(int i = 0; i < 6; ++i)
			for(int j = 0; j < 6; ++j)
			{
				S[i][j] = 0;
				for(auto& p : v)
					S[i][j] += (p[i] - m[i]) * (p[j] - m[j]);
				S[i][j] /= v.size();
			}
	}
	double tol(int i, int j) const
	{
		return 1e-12 * (big[i] * std::sqrt((double) S[j][j]) + big[j] * std::sqrt((double) S[i][i])) + 1e-26 * big[i] * big[j];
	}
};
std::unique_ptr<ParticleBunch> bunch(Gen& g, double P0, double Q)
{
	switch(g.i(0, 3))
	{
	case 0:
		return std::unique_ptr<ParticleBunch>(new ParticleBunch(P0, Q));
	case 1:
		return std::unique_ptr<ParticleBunch>(new ProtonBunch(P0, Q));
	case 2:
		return std::unique_ptr<ParticleBunch>(new MuonBunch(P0, Q));
	default:
		return std::unique_ptr<ParticleBunch>(new ElectronBunch(P0, Q));
	}
}
}

LAW(moments, 20000, 400000, "moments are the sample statistics, whatever the result objects held before")
{
	auto v = cloud(g, 1, 200);
	auto b = bunch(g, g.logu(1e-3, 1e4), 1e-3);
	for(auto& p : v)
		b->AddParticle(p);
	c.nontrivial(v.size() > 1);
	c.label(v.size() == 1 ? "single" : v.size() < 10 ? "few" : "many");
	Stat s(v);
	auto atol = [&](int i) { return 1e-12 * s.big[i]; };
	PSvector ctr(0);
	PSmoments m1;
	PSmoments2D m2;
	int reuse = g.i(0, 2);
	if(reuse)     // dirty result objects
	{
		for(int i = 0; i < 6; ++i)
		{
			ctr[i] = g.slogu(1e-6, 1e6);
			m1[i] = g.slogu(1e-6, 1e6);
			for(int j = 0; j <= i; ++j)
				m1(i, j) = g.slogu(1e-6, 1e6);
		}
		m2[0] = g.sym(5);
		m2[1] = g.sym(5);
		m2(0, 0) = g.sym(5);
		m2(0, 1) = g.sym(5);
		m2(1, 1) = g.sym(5);
		c.label("reused");
	}
	PSvector& rc = b->GetCentroid(ctr);
	c.check(&rc == &ctr, "the centroid given is returned");
	PSmoments& rm = b->GetMoments(m1);
	c.check(&rm == &m1, "the moments given are returned");
	PSmoments m3 = b->Bunch::GetMoments();
	for(int i = 0; i < 6; ++i)
	{
		std::string n = std::to_string(i);
		c.near(ctr[i], (double) s.m[i], 0, atol(i), "centroid " + n);
		c.near(m1.mean(i), (double) s.m[i], 0, atol(i), "mean " + n);
		c.near(m1[i], (double) s.m[i], 0, atol(i), "mean [] " + n);
		c.near(m1.var(i), (double) s.S[i][i], 1e-11, s.tol(i, i), "variance " + n);
		c.near(m1.std(i), std::sqrt(m1.var(i)), 1e-15, 0, "std " + n);
		for(int j = 0; j < 6; ++j)
		{
			std::string nn = n + "," + std::to_string(j);
			double scale = std::sqrt((double) (s.S[i][i] * s.S[j][j]));
			c.near(m1.sig(i, j), (double) s.S[i][j], 0, 1e-11 * scale + s.tol(i, j), "covariance " + nn);
			c.eq(m1(i, j), m1(j, i), "symmetry " + nn);
			c.eq(m3(i, j), m1(i, j), "moments by value " + nn);
			if(m1.var(i) > 0 && m1.var(j) > 0)
			{
				c.near(m1.r_ij(i, j), m1.sig(i, j) / std::sqrt(m1.var(i)) / std::sqrt(m1.var(j)), 1e-13, 0, "correlation " + nn);
				c.check(std::abs(m1.r_ij(i, j)) <= 1 + 1e-9, "correlation within [-1,1] " + nn);
			}
		}
		std::pair<double, double> q = b->ParticleBunch::GetMoments(PScoord(i));
		c.near(q.first, (double) s.m[i], 0, atol(i), "mean of one coordinate " + n);
		c.near(q.second * q.second, (double) s.S[i][i], 1e-11, s.tol(i, i), "rms of one coordinate " + n);
		c.eq(m3.mean(i), m1.mean(i), "moments by value");
	}
	int rep = g.i(1, 3);
	for(int k = 0; k < rep; ++k)
	{
		int i = g.i(0, 5), j = g.i(0, 5);
		std::string nn = std::to_string(i) + "," + std::to_string(j);
		PSmoments2D& r = b->GetProjectedMoments(i, j, m2);
		c.check(&r == &m2, "the projected moments given are returned");
		c.near(m2.mean(0), (double) s.m[i], 0, atol(i), "projected mean 0");
		c.near(m2.mean(1), (double) s.m[j], 0, atol(j), "projected mean 1");
		double scale = std::sqrt((double) (s.S[i][i] * s.S[j][j]));
		c.near(m2.var(0), (double) s.S[i][i], 1e-11, s.tol(i, i), "projected variance 0 of " + nn);
		c.near(m2.var(1), (double) s.S[j][j], 1e-11, s.tol(j, j), "projected variance 1 of " + nn);
		c.near(m2.sig(0, 1), (double) s.S[i][j], 0, 1e-11 * scale + s.tol(i, j), "projected covariance of " + nn);
		Point2D x = b->GetProjectedCentroid(i, j);
		c.near(x.x, (double) s.m[i], 0, atol(i), "projected centroid x");
		c.near(x.y, (double) s.m[j], 0, atol(j), "projected centroid y");
	}
	// emittance-like invariant: moments shift with an offset and do not change
	PSvector d(0);
	for(int i = 0; i < 6; ++i)
		d[i] = g.b() ? g.sym(1) * s.big[i] : 0;
	ParticleBunch b2(*b);
	for(auto& p : b2)
		p += d;
	PSmoments m4;
	b2.GetMoments(m4);
	for(int i = 0; i < 6; ++i)
		c.near(m4.mean(i), m1.mean(i) + d[i], 0, 4 * atol(i), "an offset moves the mean");
	for(size_t k = 0; k < v.size(); ++k)
		c.check(b->GetParticles()[k] == v[k] && b->GetParticles()[k].id() == v[k].id(), "asking for moments leaves the particles alone");
}

LAW(history, 25000, 500000, "a bunch behaves as a list of particles with absolute momenta and times")
{
	double P0 = g.logu(1e-3, 1e4), q = g.pick({1.0, -1.0, 0.0, 3.2e5, -1e-7});
	auto b = bunch(g, P0, q);
	std::vector<PSvector> m;
	double T = 0;
	if(g.b())
	{
		T = g.sym(100);
		b->SetReferenceTime(T);
	}
	int ops = g.len(1, 40);
	c.nontrivial(ops >= 3);
	int64_t id = 0;
	auto part = [&]()
	{
		PSvector p(0);
		for(int j = 0; j < 6; ++j)
			p[j] = j == 5 ? g.sym(0.3) : g.coord(1);
		p.id() = ++id;
		return p;
	};
	std::vector<std::string> log;
	int nref = 0;
	double tol = 0;      // exact until the first arithmetic
	for(int k = 0; k < ops; ++k)
	{
		int op = g.i(0, 12);
		switch(op)
		{
		default:
		{
			PSvector p = part();
			if(op & 1)
				c.eq(b->AddParticle(p), m.size() + 1, "AddParticle returns the new number of particles");
			else
				b->push_back(p);
			m.push_back(p);
			break;
		}
		case 0:
			if(!m.empty())
			{
				int i = g.raw(m.size() - 1);
				auto it = b->erase(b->begin() + i);
				m.erase(m.begin() + i);
				c.eq(int(it - b->begin()), i, "erase returns the place of the next particle");
			}
			break;
		case 1:
		{
			b->SortByCT();
			c.eq(b->size(), m.size(), "sorting keeps the number of particles");
			std::vector<PSvector> r(b->begin(), b->end());
			for(size_t i = 1; i < r.size(); ++i)
				c.check(r[i - 1].ct() <= r[i].ct(), "sorted by ct");
			auto by = [](const PSvector& x, const PSvector& y) { return x.id() < y.id(); };
			auto r2 = r, m2 = m;
			std::sort(r2.begin(), r2.end(), by);
			std::sort(m2.begin(), m2.end(), by);
			for(size_t i = 0; i < r.size(); ++i)
			{
				c.eq(r2[i].id(), m2[i].id(), "sorting keeps the particles");
				for(int j = 0; j < 6; ++j)
					c.near(r2[i][j], m2[i][j], tol, tol, "sorting keeps the coordinates together");
			}
			std::sort(m.begin(), m.end(), [](const PSvector& x, const PSvector& y) { return x.ct() < y.ct(); });
			for(size_t i = 0; i < m.size(); ++i)     // equal times may come in any order
				if(m[i].id() != r[i].id())
				{
					for(size_t l = i; l < m.size(); ++l)
						if(m[l].id() == r[i].id())
						{
							c.near(m[l].ct(), m[i].ct(), 2 * tol, 2 * tol, "order");
							std::swap(m[i], m[l]);
							break;
						}
				}
			c.label("sort");
			break;
		}
		case 2:
			if(g.chance(1, 3))
			{
				b->clear();
				m.clear();
			}
			break;
		case 3:
		{
			// absolute momenta stay
			double d;
			if(g.b() || m.empty())
			{
				d = g.sym(0.4);
				double r = b->AdjustRefMomentum(d);
				c.near(r, P0 * (1 + d), 1e-14, 0, "AdjustRefMomentum returns the new momentum");
			}
			else
			{
				Stat s(m);
				d = s.m[5];
				if(std::abs(1 + d) < 0.1)
					break;
				double r = b->AdjustRefMomentumToMean();
				c.near(r, P0 * (1 + d), 1e-12, 0, "AdjustRefMomentumToMean returns the mean momentum");
				PSvector x(0);
				c.near(b->GetCentroid(x).dp(), 0, 0, 1e-12, "after adjusting to the mean the mean is zero");
			}
			for(auto& p : m)
				p.dp() = (P0 * (1 + p.dp())) / (P0 * (1 + d)) - 1;
			P0 *= 1 + d;
			tol = 1e-11;
			++nref;
			c.label("momentum");
			break;
		}
		case 4:
			if(!m.empty())
			{
				Stat s(m);
				double r = b->AdjustRefTimeToMean();
				// T - ct is the absolute time of a particle
				double t = T - s.m[4];
				c.near(r, t, 1e-12, 1e-10, "AdjustRefTimeToMean returns the mean time");
				for(auto& p : m)
					p.ct() = t - (T - p.ct());
				T = t;
				tol = 1e-11;
				++nref;
				c.label("time");
			}
			break;
		case 5:
			if(!m.empty())
			{
				PSvector x0 = g.b() ? part() : m.front();
				bool set = g.b();
				if(set)
				{
					b->SetCentroid(x0);
					m.front() = x0;
				}
				else
					b->SetCentroid();
				PSvector ctr(0);
				b->GetCentroid(ctr);
				for(int j = 0; j < 6; ++j)
				{
					double shift = 0;
					if(m.size() > 1)
					{
						LD rest = 0;
						for(size_t i = 1; i < m.size(); ++i)
							rest += m[i][j];
						shift = m[0][j] - rest / (m.size() - 1);
					}
					for(size_t i = 1; i < m.size(); ++i)
						m[i][j] += shift;
					c.near(ctr[j], m[0][j], 1e-11, 1e-11, "the centroid is the first particle, coordinate " + std::to_string(j));
				}
				tol = 1e-11;
				c.label("centroid");
			}
			break;
		case 6:
		{
			// swap takes the particles of another bunch
			ParticleBunch o(2 * P0, -q);
			std::vector<PSvector> n;
			int k2 = g.i(0, 3);
			for(int i = 0; i < k2; ++i)
			{
				n.push_back(part());
				o.AddParticle(n.back());
			}
			b->swap(o);
			m = n;
			c.label("swap");
			break;
		}
		case 7:
			q = g.pick({1.0, -1.0, 0.0, 3.2e5, -1e-7});
			b->SetMacroParticleCharge(q);
			break;
		case 8:
		{
			// copies are independent
			ParticleBunch o(*b);
			o.AddParticle(part());
			for(auto& p : o)
				p.x() += 1;
			o.AdjustRefMomentum(0.1);
			c.eq(o.size(), m.size() + 1, "size of a copy");
			break;
		}
		case 9:
			b->reserve(g.i(0, 100));
			break;
		}
		// compare
		c.eq(b->size(), m.size(), "number of particles after operation " + std::to_string(op));
		size_t i = 0;
		for(auto& p : *b)
		{
			c.eq(p.id(), m[i].id(), "identity of particle " + std::to_string(i) + " after operation " + std::to_string(op));
			for(int j = 0; j < 6; ++j)
				c.near(p[j], m[i][j], tol, tol, "coordinate " + std::to_string(j) + " after operation " + std::to_string(op));
			++i;
		}
		c.near(b->GetReferenceMomentum(), P0, 1e-12, 0, "reference momentum");
		c.near(b->GetReferenceTime(), T, 1e-12, tol * 10, "reference time");
		c.near(b->GetTotalCharge(), q * m.size(), 1e-14, 0, "total charge");
		c.eq(b->GetChargeSign(), q == 0 ? 0.0 : q < 0 ? -1.0 : 1.0, "sign of the charge");
		if(!m.empty())
			c.eq(b->FirstParticle().id(), m.front().id(), "first particle");
		if(nref > 6)
			break;
	}
}

LAW(slices, 30000, 500000, "slicing a bunch puts every particle in the range into its slice and removes the others")
{
	auto v = cloud(g, 0, 120);
	Stat s(v);
	double a, z;
	if(v.empty() || g.chance(1, 5))
	{
		a = g.sym(1);
		z = a + g.logu(1e-6, 10);
	}
	else
	{
		double sd = std::sqrt((double) s.S[4][4]);
		if(sd < 1e-9 * s.big[4] || sd == 0)
			sd = 1e-3 * s.big[4] + 1e-9;
		a = s.m[4] - g.logu(0.1, 10) * sd;
		z = s.m[4] + g.logu(0.1, 10) * sd;
	}
	if(!(z > a))
		c.discard();
	size_t n = g.pick({1, 2, 100, g.i(1, 30), g.i(1, 30)});
	double dz = (z - a) / n;
	if(dz < 1e-9 * std::max(std::abs(a), std::abs(z)))
		c.discard();
	if(g.b())      // particles at the edges of slices
		for(auto& p : v)
			if(g.chance(1, 4))
				p.ct() = g.pick({a + dz * g.i(0, n), z, a, std::nextafter(z, a), std::nextafter(a, a - 1)});
	auto b = bunch(g, 1, 1);
	for(auto& p : v)
		b->push_back(p);
	std::vector<double> flt;
	int w = g.i(0, 4);
	bool filter = g.b();
	for(int i = 0; i < 2 * w + 1; ++i)
		flt.push_back(g.sym(2));
	std::vector<ParticleBunch::iterator> pb;
	std::vector<double> hd, hdp;
	if(g.b())     // results are replaced
	{
		pb.resize(g.i(0, 5));
		hd.assign(g.i(0, 5), 3);
		hdp.assign(g.i(0, 5), 3);
	}
	size_t lost = ParticleBinList(*b, a, z, n, pb, hd, hdp, filter ? &flt : nullptr);
	size_t in = 0;
	for(auto& p : v)
		in += p.ct() >= a && p.ct() < z;
	c.nontrivial(in > 1 && n > 1);
	c.label(filter ? "filter" : "no filter");
	c.eq(b->size(), in, "particles kept");
	c.eq(lost, v.size() - in, "number of particles removed");
	c.eq(pb.size(), n + 1, "number of boundaries");
	c.eq(hd.size(), n, "number of slices");
	c.eq(hdp.size(), n, "number of derivatives");
	c.check(pb.front() == b->begin() && pb.back() == b->end(), "the slices cover the bunch");
	double eps = 1e-12 * n * std::max(std::abs(a), std::abs(z));
	double sum = 0;
	std::vector<double> cnt(n);
	for(size_t i = 0; i < n; ++i)
	{
		c.check(pb[i] <= pb[i + 1], "the boundaries are in order");
		for(auto p = pb[i]; p != pb[i + 1]; ++p)
			c.check(p->ct() >= a + i * dz - eps && p->ct() <= a + (i + 1) * dz + eps, "every particle is in its slice");
		cnt[i] = pb[i + 1] - pb[i];
		double want = in ? cnt[i] / in / dz : 0;
		c.near(hd[i], want, 1e-12, 0, "density in slice " + std::to_string(i));
		sum += hd[i] * dz;
	}
	c.near(sum, in ? 1 : 0, 1e-12, 0, "the distribution is normalised");
	for(size_t i = 0; i < n; ++i)
	{
		double want = 0, mag = 0;
		if(filter && in)
			for(int k = -w; k <= w; ++k)
				if(int(i) + k >= 0 && int(i) + k < int(n))
				{
					double t = cnt[i + k] * flt[k + w] / in / dz;
					want += t;
					mag += std::abs(t);
				}
		c.near(hdp[i], want, 0, 1e-12 * mag, "filtered distribution in slice " + std::to_string(i) + " of " + std::to_string(n) + ", width " + std::to_string(w));
	}
	std::set<int64_t> ids;
	for(auto& p : *b)
		ids.insert(p.id());
	for(auto& p : v)
		c.eq(ids.count(p.id()) == 1, p.ct() >= a && p.ct() < z, "exactly the particles in range stay");
}

LAW(distribution, 30000, 500000, "histograms count every value in range exactly once")
{
	auto v = cloud(g, 0, 60);
	int u = g.i(0, 5);
	double lo = g.pick({0.0, -1.0, g.sym(3)}), hi, du;
	size_t n = g.pick({1, 2, 10, g.i(1, 40)});
	du = g.pick({0.1, 1.0, 0.25, g.logu(1e-3, 1)});
	bool multiple = g.b();
	hi = multiple ? lo + n * du : lo + du * (n - g.unit() * 0.999);
	if(!(hi > lo))
		c.discard();
	for(auto& p : v)
		if(g.chance(3, 4))
			p[u] = g.pick({lo, hi, lo + du * g.i(0, n), lo + (hi - lo) * g.unit(), lo + (hi - lo) * g.unit(), hi + 0.1, lo - 0.1});
	auto b = bunch(g, 1, 1);
	for(auto& p : v)
		b->push_back(p);
	bool norm = g.b(), trunc = g.b();
	std::vector<double> h(g.i(0, 3), 7.0);
	size_t lost = ParticleBunchDistribution(*b, u, lo, hi, du, h, norm, trunc);
	size_t in = 0;
	for(auto& p : v)
		in += p[u] >= lo && p[u] <= hi;
	c.nontrivial(in > 1 && n > 1);
	c.label(multiple ? "whole bins" : "partial bin");
	c.eq(lost, v.size() - in, "number outside");
	c.check(h.size() >= 1 && h.size() * du >= (hi - lo) * (1 - 1e-9) && (h.size() - 1) * du <= (hi - lo) * (1 + 1e-9), "the bins cover the range");
	c.eq(b->size(), trunc ? in : v.size(), "truncation removes the particles outside and only then");
	{
		std::vector<int64_t> want, got;
		for(auto& p : v)
			if(!trunc || (p[u] >= lo && p[u] <= hi))
				want.push_back(p.id());
		for(auto& p : *b)
			got.push_back(p.id());
		c.check(want == got, "the remaining particles are those in range, in order");
	}
	double eps = 1e-9 * (std::abs(lo) + std::abs(hi) + du);
	double total = 0;
	for(double x : h)
		total += x;
	if(norm && in)
		c.near(total * du, 1, 1e-12, 0, "normalised");
	else
		c.near(total, in && !norm ? in : 0, 1e-12, 0, "every particle in range is counted once");
	double scale = norm && in ? in * du : 1;
	for(size_t i = 0; i < h.size(); ++i)
	{
		double a = lo + i * du, z = a + du, least = 0, most = 0;
		for(auto& p : v)
		{
			double x = p[u];
			if(x < lo || x > hi)
				continue;
			least += x > a + eps && x < z - eps;
			most += x > a - eps && x < z + eps;
		}
		double k = h[i] * scale;
		c.check(k > least - 1e-6 && k < most + 1e-6, "count in bin " + std::to_string(i) + ": " + std::to_string(k) + " between " + std::to_string(least) + " and " + std::to_string(most));
	}
	// plain data
	std::vector<double> data, hist(g.i(0, 3), 7.0);
	for(auto& p : v)
		data.push_back(p[u]);
	size_t out = Hist(data, lo, hi, du, hist);
	double tot = 0;
	for(size_t i = 0; i < hist.size(); ++i)
	{
		tot += hist[i];
		double a = lo + i * du, z = a + du, least = 0, most = 0;
		for(double x : data)
		{
			least += x > a + eps && x < z - eps;
			most += x >= lo && x > a - eps && x < z + eps;
		}
		c.check(hist[i] > least - 0.5 && hist[i] < most + 0.5, "Hist: count in bin " + std::to_string(i));
	}
	c.check(hist.size() * du >= (hi - lo) * (1 - 1e-9), "Hist: the bins cover the range");
	c.eq(tot + out, (double) data.size(), "Hist: every value is counted or lost");
}
