// P16: generated bunches have the requested size, matching and distribution.
#include "mlib.h"
#include <iostream>
#include "RandomNG.h"
#include "BeamData.h"
#include "BunchFilter.h"
#include "NormalTransform.h"
#include "PSmoments.h"
#include "ParticleDistributionGenerator.h"
#include "HaloParticleDistributionGenerator.h"
#include "HollowElensParticleDistributionGenerator.h"
#include "ProtonBunch.h"
#include "ElectronBunch.h"
#include "MuonBunch.h"
#include "MatrixMaps.h"
using namespace ml;
typedef long double LD;

pbt::Info pbt::info = {"P16",
	"Beams with any lattice functions, emittances, spreads, dispersion, coupling, centroid and charge; bunches of 1 to 60 particles from "
	"a recorded distribution (judged exactly) and of up to 2000 particles from every distribution of the library (judged by invariants of "
	"every particle and statistics); filters of the user and of the library. Non-trivial: at least three particles.",
	"Statistics are judged at 6.5 standard errors; the sign convention of the coupling parameters and equal normal mode emittances with "
	"coupling or dispersion are not judged."};

namespace
{
struct Quiet
{
	std::ostringstream s;
	std::streambuf* o;
	Quiet() : o(std::cout.rdbuf(s.rdbuf())) {}
	~Quiet() { std::cout.rdbuf(o); }
};
BeamData beam(Gen& g, bool coupling)
{
	BeamData b;
	b.beta_x = g.pick({1.0, g.logu(1e-2, 1e3)});
	b.beta_y = g.pick({1.0, g.logu(1e-2, 1e3)});
	b.alpha_x = g.b() ? g.sym(5) : 0;
	b.alpha_y = g.b() ? g.sym(5) : 0;
	b.emit_x = g.pick({1.0, g.logu(1e-12, 1e-3)});
	b.emit_y = g.chance(1, 8) ? b.emit_x : g.pick({1.0, 0.5, g.logu(1e-12, 1e-3)});
	b.sig_dp = g.pick({0.0, 1e-3, g.logu(1e-6, 0.1)});
	b.sig_z = g.pick({0.0, 1e-2, g.logu(1e-6, 10)});
	if(g.b())
	{
		b.x0 = g.sym(1e-2);
		b.xp0 = g.sym(1e-2);
		b.y0 = g.sym(1e-2);
		b.yp0 = g.sym(1e-2);
		b.ct0 = g.sym(1);
	}
	if(g.b())
	{
		b.Dx = g.sym(5);
		b.Dxp = g.sym(1);
		b.Dy = g.sym(2);
		b.Dyp = g.sym(1);
	}
	if(coupling)
	{
		b.c_xy = g.sym(0.5);
		b.c_xyp = g.sym(0.5);
		b.c_xpy = g.sym(0.5);
		b.c_xpyp = g.sym(0.5);
	}
	b.p0 = g.logu(1e-3, 1e4);
	b.charge = g.pick({1.0, -1.0, 1e10, -1.6e-9});
	return b;
}
// uncoupled reference: normalised coordinates to phase space
V6 place(const BeamData& b, const V6& u)
{
	double ex = std::sqrt(b.emit_x), ey = std::sqrt(b.emit_y);
	double x = ex * u[0], xp = ex * u[1], y = ey * u[2], yp = ey * u[3], ct = b.sig_z * u[4], dp = b.sig_dp * u[5];
	return V6{std::sqrt(b.beta_x) * x + b.Dx * dp + b.x0, (xp - b.alpha_x * x) / std::sqrt(b.beta_x) + b.Dxp * dp + b.xp0,
		std::sqrt(b.beta_y) * y + b.Dy * dp + b.y0, (yp - b.alpha_y * y) / std::sqrt(b.beta_y) + b.Dyp * dp + b.yp0, ct + b.ct0, dp};
}
struct Recorded : ParticleDistributionGenerator
{
	std::vector<PSvector> v;
	mutable size_t n = 0;
	PSvector GenerateFromDistribution() const override
	{
		return v[n++ % v.size()];
	}
};
struct MyFilter : ParticleBunchFilter
{
	int axis;
	double limit;
	bool above;
	mutable std::vector<PSvector> seen;
	bool Apply(const PSvector& p) const override
	{
		seen.push_back(p);
		return above ? p[axis] > limit : p[axis] <= limit;
	}
};
std::unique_ptr<ParticleBunch> build(int kind, size_t n, const ParticleDistributionGenerator& d, const BeamData& b, ParticleBunchFilter* f = nullptr)
{
	switch(kind)
	{
	case 0:
		return std::unique_ptr<ParticleBunch>(new ProtonBunch(n, d, b, f));
	case 1:
		return std::unique_ptr<ParticleBunch>(new ElectronBunch(n, d, b, f));
	case 2:
		return std::unique_ptr<ParticleBunch>(new MuonBunch(n, d, b, f));
	default:
		return std::unique_ptr<ParticleBunch>(new ParticleBunch(n, d, b, f));
	}
}
void basics(Ctx& c, const ParticleBunch& b, size_t n, const BeamData& beam)
{
	c.eq(b.size(), n, "number of particles");
	c.near(b.GetTotalCharge(), beam.charge, 1e-12, 0, "total charge");
	c.eq(b.GetChargeSign(), beam.charge < 0 ? -1.0 : 1.0, "charge sign");
	c.eq(b.GetReferenceMomentum(), beam.p0, "reference momentum");
	c.eq(b.GetReferenceTime(), 0.0, "reference time");
	const PSvector& f = b.FirstParticle();
	c.check(f.x() == beam.x0 && f.xp() == beam.xp0 && f.y() == beam.y0 && f.yp() == beam.yp0 && f.ct() == beam.ct0 && f.dp() == 0,
		"the first particle is the centroid");
	int64_t id = 0;
	for(auto& p : b)
		c.eq(p.id(), id++, "identities are numbered");
}
// products of pairs of normal mode emittances from Sigma J
void modes(const LD S[4][4], LD& sum2, LD& prod2)
{
	static const int J[4][4] = {{0, 1, 0, 0}, {-1, 0, 0, 0}, {0, 0, 0, 1}, {0, 0, -1, 0}};
	LD A[4][4];
	for(int i = 0; i < 4; ++i)
		for(int j = 0; j < 4; ++j)
		{
			A[i][j] = 0;
			for(int k = 0; k < 4; ++k)
				A[i][j] += S[i][k] * J[k][j];
		}
	LD tr = 0;
	for(int i = 0; i < 4; ++i)
		for(int k = 0; k < 4; ++k)
			tr += A[i][k] * A[k][i];
	sum2 = -tr / 2;
	LD M[4][4];
	for(int i = 0; i < 4; ++i)
		for(int j = 0; j < 4; ++j)
			M[i][j] = S[i][j];
	LD det = 1;
	for(int i = 0; i < 4; ++i)
	{
		int p = i;
		for(int r = i; r < 4; ++r)
			if(std::abs(M[r][i]) > std::abs(M[p][i]))
				p = r;
		if(p != i)
		{
			std::swap_ranges(M[i], M[i] + 4, M[p]);
			det = -det;
		}
		if(M[i][i] == 0)
		{
			prod2 = 0;
			return;
		}
		det *= M[i][i];
		for(int r = i + 1; r < 4; ++r)
		{
			LD f = M[r][i] / M[i][i];
			for(int k = i; k < 4; ++k)
				M[r][k] -= f * M[i][k];
		}
	}
	prod2 = det;
}
}

LAW(matching, 8000, 200000, "normalised coordinates are matched to the beam parameters, filtered and numbered")
{
	bool coupled = g.chance(1, 4);
	BeamData b = beam(g, coupled);
	size_t n = g.len(1, 60);
	Recorded d;
	size_t m = g.len(1, 50);
	for(size_t i = 0; i < m; ++i)
	{
		V6 u;
		for(auto& x : u)
			x = g.coord(3);
		d.v.push_back(mk(u, g.i(0, 9)));
	}
	MyFilter f;
	f.axis = g.i(0, 5);
	bool filter = g.chance(1, 2);
	f.above = g.b();
	RealMatrix N = NormalTransform(b);
	auto want = [&](const PSvector& p)
	{
		V6 u = un(p);
		if(coupled)
		{
			V6 v = {std::sqrt(b.emit_x) * u[0], std::sqrt(b.emit_x) * u[1], std::sqrt(b.emit_y) * u[2], std::sqrt(b.emit_y) * u[3],
				b.sig_z * u[4], b.sig_dp * u[5]}, r = {b.x0, b.xp0, b.y0, b.yp0, b.ct0, 0};
			for(int i = 0; i < 6; ++i)
				for(int j = 0; j < 6; ++j)
					r[i] += N(i, j) * v[j];
			return r;
		}
		return place(b, u);
	};
	if(filter)
	{
		// a limit that lets some of the particles pass
		std::vector<double> a;
		for(auto& p : d.v)
			a.push_back(want(p)[f.axis]);
		std::sort(a.begin(), a.end());
		size_t k = g.raw(a.size() - 1);
		double gap = k + 1 < a.size() ? a[k + 1] - a[k] : 1;
		f.limit = a[k] + gap / 2;
		if(f.above && k + 1 >= a.size())
			f.above = false;
		if(gap == 0 || gap < 1e-9 * std::max(std::abs(a[k]), std::abs(a.back())))
			c.discard();
	}
	Quiet q;
	auto bunch = build(g.i(0, 3), n, d, b, filter ? &f : nullptr);
	c.nontrivial(n >= 3);
	c.label(coupled ? "coupled" : "uncoupled");
	if(filter)
		c.label("filter");
	basics(c, *bunch, n, b);
	double sx = std::sqrt(b.emit_x), sy = std::sqrt(b.emit_y);
	double scale[6] = {sx * std::sqrt(b.beta_x) + std::abs(b.Dx) * b.sig_dp, sx * (1 + std::abs(b.alpha_x)) / std::sqrt(b.beta_x) + std::abs(b.Dxp) * b.sig_dp,
		sy * std::sqrt(b.beta_y) + std::abs(b.Dy) * b.sig_dp, sy * (1 + std::abs(b.alpha_y)) / std::sqrt(b.beta_y) + std::abs(b.Dyp) * b.sig_dp, b.sig_z, b.sig_dp};
	if(coupled)
	{
		scale[0] += sy * std::sqrt(b.beta_x);
		scale[1] += sy * (1 + std::abs(b.alpha_x)) / std::sqrt(b.beta_x);
		scale[2] += sx * std::sqrt(b.beta_y);
		scale[3] += sx * (1 + std::abs(b.alpha_y)) / std::sqrt(b.beta_y);
	}
	double off[6] = {b.x0, b.xp0, b.y0, b.yp0, b.ct0, 0};
	auto same = [&](const PSvector& p, const V6& w, const char* what)
	{
		for(int i = 0; i < 6; ++i)
			c.near(p[i], w[i], 1e-12, 1e-12 * (10 * scale[i] + std::abs(off[i])), std::string(what) + ", coordinate " + std::to_string(i));
	};
	size_t k = 0, t = 0;
	for(size_t i = 1; i < n; ++i)
	{
		V6 w = want(d.v[k++ % m]);
		if(filter)
		{
			c.check(t < f.seen.size(), "the filter is asked for every candidate");
			same(f.seen[t++], w, "candidate given to the filter");
			while(!(f.above ? w[f.axis] > f.limit : w[f.axis] <= f.limit))
			{
				w = want(d.v[k++ % m]);
				same(f.seen[t++], w, "candidate given to the filter");
			}
		}
		same(bunch->GetParticles()[i], w, "particle");
	}
	c.eq(d.n, k, "number of particles drawn");
	if(filter)
		c.eq(f.seen.size(), t, "number of candidates given to the filter");
}

LAW(transform, 8000, 200000, "the normal transformation carries the lattice functions, and beam sizes recover them")
{
	bool coupled = g.b();
	BeamData b = beam(g, coupled);
	c.nontrivial(b.alpha_x != 0 || b.alpha_y != 0 || coupled);
	c.label(coupled ? "coupled" : "uncoupled");
	c.near(b.gamma_x() * b.beta_x - b.alpha_x * b.alpha_x, 1, 1e-12, 1e-12, "beta gamma - alpha^2 x");
	c.near(b.gamma_y() * b.beta_y - b.alpha_y * b.alpha_y, 1, 1e-12, 1e-12, "beta gamma - alpha^2 y");
	c.near(b.sigma_x() * b.sigma_x(), b.beta_x * b.emit_x, 1e-12, 0, "sigma x");
	c.near(b.sigma_y() * b.sigma_y(), b.beta_y * b.emit_y, 1e-12, 0, "sigma y");
	c.near(b.sigma_xp() * b.sigma_xp(), b.gamma_x() * b.emit_x, 1e-12, 0, "sigma xp");
	c.near(b.sigma_yp() * b.sigma_yp(), b.gamma_y() * b.emit_y, 1e-12, 0, "sigma yp");
	RealMatrix N = NormalTransform(b);
	// symplectic in the transverse planes
	for(int i = 0; i < 4; ++i)
		for(int j = 0; j < i; ++j)
		{
			double s = 0, mag = 0;
			for(int k = 0; k < 4; k += 2)
			{
				s += N(i, k) * N(j, k + 1) - N(i, k + 1) * N(j, k);
				mag += std::abs(N(i, k) * N(j, k + 1)) + std::abs(N(i, k + 1) * N(j, k));
			}
			double want = i == 1 && j == 0 ? -1 : i == 3 && j == 2 ? -1 : 0;
			c.near(s, want, 1e-9, 1e-12 * mag, "symplectic condition " + std::to_string(i) + "," + std::to_string(j));
		}
	RealMatrix IB = InverseBetaTransform(b.beta_x, b.beta_y, b.alpha_x, b.alpha_y);
	RealMatrix BA = BetaMatrix(b.beta_x, b.beta_y) * AlphaMatrix(b.alpha_x, b.alpha_y);
	for(int i = 0; i < 6; ++i)
		for(int j = 0; j < 6; ++j)
		{
			double s = 0, mag = 0;
			for(int k = 0; k < 6; ++k)
			{
				s += IB(i, k) * BA(k, j);
				mag += std::abs(IB(i, k) * BA(k, j));
			}
			c.near(s, i == j, 0, 1e-12 * mag, "inverse of the beta transformation");
		}
	PSmoments S;
	bool dirty = g.b();
	if(dirty)
		for(int i = 0; i < 6; ++i)
		{
			S[i] = g.sym(1);
			for(int j = 0; j <= i; ++j)
				S(i, j) = g.sym(1);
		}
	BeamDataToSigmaMtrx(b, S);
	double D[6] = {b.Dx, b.Dxp, b.Dy, b.Dyp, 0, 1};
	double s2 = b.sig_dp * b.sig_dp;
	double mean[6] = {b.x0, b.xp0, b.y0, b.yp0, b.ct0, 0};
	for(int i = 0; i < 5; ++i)
		c.eq(S.mean(i), mean[i], "centroid " + std::to_string(i));
	c.near(S.var(5), s2, 1e-12, 0, "energy spread");
	c.near(S.var(4), b.sig_z * b.sig_z, 1e-12, 0, "bunch length");
	LD B[4][4];
	for(int i = 0; i < 6; ++i)
		c.near(S(i, 5), D[i] * s2 * (i != 4), 1e-12, 1e-14 * s2, "dispersion " + std::to_string(i));
	for(int i = 0; i < 4; ++i)
	{
		c.near(S(i, 4), 0, 0, 0, "no correlation with time");
		for(int j = 0; j < 4; ++j)
			B[i][j] = S(i, j) - (LD) D[i] * D[j] * s2;
	}
	double e2 = b.emit_x * b.emit_x, f2 = b.emit_y * b.emit_y;
	if(!coupled)
	{
		double W[4][4] = {{b.emit_x * b.beta_x, -b.emit_x * b.alpha_x, 0, 0}, {-b.emit_x * b.alpha_x, b.emit_x * b.gamma_x(), 0, 0},
			{0, 0, b.emit_y * b.beta_y, -b.emit_y * b.alpha_y}, {0, 0, -b.emit_y * b.alpha_y, b.emit_y * b.gamma_y()}};
		for(int i = 0; i < 4; ++i)
			for(int j = 0; j < 4; ++j)
				c.near((double) B[i][j], W[i][j], 1e-11, 1e-13 * (std::abs(D[i] * D[j]) * s2 + std::sqrt(W[i][i] * W[j][j])), "second moment " + std::to_string(i) + "," + std::to_string(j));
	}
	// recover, when the subtraction of the dispersion leaves something to recover
	double worst = 0;
	for(int i = 0; i < 4; ++i)
		worst = std::max(worst, (double) (S(i, i) / B[i][i]));
	// conditioning of the emittances
	double ratio = std::max(b.emit_x, b.emit_y) / std::min(b.emit_x, b.emit_y);
	double a2 = (1 + b.alpha_x * b.alpha_x) * (1 + b.alpha_y * b.alpha_y);
	double tol = 1e-13 * worst * a2 * a2 * (coupled ? ratio * ratio : 1) * 10;
	if(tol > 1e-4 || !(worst > 0))
	{
		c.label("ill conditioned");
		return;
	}
	if(coupled)
	{
		LD sum2, prod2;
		modes(B, sum2, prod2);
		c.near((double) sum2, e2 + f2, tol, 0, "sum of the squared normal mode emittances");
		c.near((double) prod2, e2 * f2, tol, 0, "product of the normal mode emittances");
	}
	bool round = std::abs(b.emit_x / b.emit_y - 1) < 0.01 && worst > 1 + 1e-12;
	if(!coupled && !round)
	{
		BeamData r;
		r.Dx = 77;
		r.c_xy = 77;
		BeamData& rr = SigmaMatrixToBeamData(S, r);
		c.check(&rr == &r, "the beam given is returned");
		tol += 1e-11;
		c.near(r.emit_x, b.emit_x, tol, 0, "recovered emittance x");
		c.near(r.emit_y, b.emit_y, tol, 0, "recovered emittance y");
		c.near(r.beta_x, b.beta_x, tol, 0, "recovered beta x");
		c.near(r.beta_y, b.beta_y, tol, 0, "recovered beta y");
		c.near(r.alpha_x, b.alpha_x, tol, tol, "recovered alpha x");
		c.near(r.alpha_y, b.alpha_y, tol, tol, "recovered alpha y");
		c.near(r.sig_z, b.sig_z, 1e-12, 0, "recovered bunch length");
		c.near(r.sig_dp, b.sig_dp, 1e-12, 0, "recovered energy spread");
		double on = b.sig_dp > 0;
		c.near(r.Dx, on * b.Dx, 1e-11, 1e-12, "recovered dispersion x");
		c.near(r.Dxp, on * b.Dxp, 1e-11, 1e-12, "recovered dispersion xp");
		c.near(r.Dy, on * b.Dy, 1e-11, 1e-12, "recovered dispersion y");
		c.near(r.Dyp, on * b.Dyp, 1e-11, 1e-12, "recovered dispersion yp");
		c.eq(r.x0, b.x0, "recovered x0");
		c.eq(r.xp0, b.xp0, "recovered xp0");
		c.eq(r.y0, b.y0, "recovered y0");
		c.eq(r.yp0, b.yp0, "recovered yp0");
		c.eq(r.ct0, b.ct0, "recovered ct0");
		c.check(std::abs(r.c_xy) < 1e-6 && std::abs(r.c_xyp) < 1e-6 && std::abs(r.c_xpy) < 1e-6 && std::abs(r.c_xpyp) < 1e-6, "no coupling is found");
		auto em = NormalModeEmittance(S);
		c.near(em.first, b.emit_x, tol, 0, "normal mode emittance 1");
		c.near(em.second, b.emit_y, tol, 0, "normal mode emittance 2");
		if(b.sig_dp == 0)
		{
			c.near(ProjectedEmittance(S, ps_X, ps_XP), b.emit_x, tol, 0, "projected emittance x");
			c.near(ProjectedEmittance(S, ps_Y, ps_YP), b.emit_y, tol, 0, "projected emittance y");
		}
	}
}

LAW(distributions, 400, 15000, "the distributions keep their shape and limits in every particle")
{
	RandomNG::init(std::uint32_t(g.raw(0xffffffffull)));
	int kind = g.i(0, 8);
	double size = g.pick({1.0, g.logu(0.1, 10)}), outer = size * g.pick({1.0, 1 + g.unit()});
	PSvector cut(0);
	bool same = g.b(), off = g.b();
	for(int i = 0; i < 6; ++i)
		cut[i] = off ? 0 : same && i ? cut[0] : g.pick({0.0, 1.0, 3.0, g.logu(0.3, 5)});
	bool one = kind == 0 && g.b();
	if(one)
		for(int i = 1; i < 6; ++i)
			cut[i] = cut[0];
	std::unique_ptr<ParticleDistributionGenerator> d;
	switch(kind)
	{
	case 0:
		d.reset(one ? new NormalParticleDistributionGenerator(cut[0]) : new NormalParticleDistributionGenerator(cut));
		break;
	case 1:
		d.reset(new UniformParticleDistributionGenerator);
		break;
	case 2:
		d.reset(new RingParticleDistributionGenerator);
		break;
	case 3:
		d.reset(new HorizonalHalo1ParticleDistributionGenerator(size));
		break;
	case 4:
		d.reset(new VerticalHalo1ParticleDistributionGenerator(size));
		break;
	case 5:
		d.reset(new HorizonalHalo2ParticleDistributionGenerator(size, cut));
		break;
	case 6:
		d.reset(new VerticalHalo2ParticleDistributionGenerator(size, cut));
		break;
	case 7:
		d.reset(new ThickHELHaloParticleDistributionGenerator(size, outer));
		break;
	default:
		d.reset(new ThinHELHaloParticleDistributionGenerator(size, outer));
	}
	static const char* nm[] = {"normal", "uniform", "ring", "h halo 1", "v halo 1", "h halo 2", "v halo 2", "thick lens halo", "thin lens halo"};
	c.label(nm[kind]);
	int n = g.i(200, 1500);
	c.nontrivial(true);
	// expected variance of each coordinate; -1: normal with cut
	double var[6];
	auto cutvar = [&](int i)
	{
		double a = cut[i];
		if(a == 0)
			return 1.0;
		double p = std::erf(a / std::sqrt(2.0)), f = std::exp(-a * a / 2) / std::sqrt(2 * std::acos(-1.0));
		return 1 - 2 * a * f / p;
	};
	double h = size * size / 2, third = 1.0 / 3;
	double thick = (size * size + size * outer + outer * outer) / 6;
	switch(kind)
	{
	case 0:
		for(int i = 0; i < 6; ++i)
			var[i] = cutvar(i);
		break;
	case 1:
		for(double& x : var)
			x = third;
		break;
	case 2:
		var[0] = var[1] = var[2] = var[3] = 0.5;
		break;
	case 3:
		var[0] = var[1] = h;
		var[2] = var[3] = 0;
		break;
	case 4:
		var[0] = var[1] = 0;
		var[2] = var[3] = h;
		break;
	case 5:
		var[0] = var[1] = h;
		var[2] = cutvar(2);
		var[3] = cutvar(3);
		break;
	case 6:
		var[0] = cutvar(0);
		var[1] = cutvar(1);
		var[2] = var[3] = h;
		break;
	case 7:
		var[0] = var[2] = thick;
		var[1] = var[3] = 0;
		break;
	default:
		var[0] = var[2] = outer * outer / 2;
		var[1] = var[3] = 0;
	}
	if(kind != 0)
		var[4] = var[5] = third;
	std::vector<PSvector> v;
	for(int i = 0; i < n; ++i)
	{
		v.push_back(d->GenerateFromDistribution());
		const PSvector& p = v.back();
		double rx = std::hypot(p.x(), p.xp()), ry = std::hypot(p.y(), p.yp()), r = std::hypot(p.x(), p.y());
		if(kind == 2)
		{
			c.near(rx, 1, 1e-12, 0, "ring in x");
			c.near(ry, 1, 1e-12, 0, "ring in y");
		}
		if(kind == 3 || kind == 5)
			c.near(rx, size, 1e-12, 0, "amplitude in x");
		if(kind == 4 || kind == 6)
			c.near(ry, size, 1e-12, 0, "amplitude in y");
		if(kind == 7)
			c.check(r >= size * (1 - 1e-12) && r <= outer * (1 + 1e-12), "radius within the halo");
		if(kind == 8)
			c.near(r, outer, 1e-12, 0, "radius of the thin halo");
		for(int j = 0; j < 6; ++j)
		{
			bool normal = kind == 0 || (kind == 5 && (j == 2 || j == 3)) || (kind == 6 && j < 2);
			if(normal && cut[j] != 0)
				c.check(std::abs(p[j]) <= cut[j] * (1 + 1e-12), "cut-off in coordinate " + std::to_string(j));
			if(kind == 1 || (kind != 0 && j > 3))
				c.check(std::abs(p[j]) <= 1, "uniform within -1 and 1");
			if(var[j] == 0)
				c.eq(p[j], 0.0, "coordinate " + std::to_string(j) + " is zero");
		}
	}
	for(int j = 0; j < 6; ++j)
	{
		if(var[j] == 0)
			continue;
		LD m = 0, s = 0, q = 0;
		for(auto& p : v)
			m += p[j];
		m /= n;
		for(auto& p : v)
		{
			LD x = (LD) p[j] * p[j];
			s += x;
			q += x * x;
		}
		s /= n;
		q /= n;
		double se = std::sqrt(std::max<double>(q - s * s, 1e-3 * s * s) / n);
		c.check(std::abs(m) < 6.5 * std::sqrt(var[j] / n), "mean of coordinate " + std::to_string(j));
		c.check(std::abs(s - var[j]) < 7 * se + 0.02 * var[j], "variance of coordinate " + std::to_string(j) + ": " + std::to_string((double) s) + " expected " + std::to_string(var[j]));
		for(int k = 0; k < j; ++k)
		{
			if(var[k] == 0)
				continue;
			LD x = 0;
			for(auto& p : v)
				x += p[j] * p[k];
			c.check(std::abs(x / n) < 7 * std::sqrt(var[j] * var[k] / n) + 0.02 * std::sqrt(var[j] * var[k]), "coordinates " + std::to_string(j) + " and " + std::to_string(k) + " are uncorrelated");
		}
	}
}

LAW(bunches, 300, 10000, "bunches of the library's distributions are reproducible, matched and within their limits")
{
	BeamData b = beam(g, false);
	std::uint32_t seed = g.raw(0xffffffffull);
	size_t n = g.i(1, 1500);
	int kind = g.i(0, 2);
	double cut = g.pick({0.0, g.logu(0.5, 5)});
	std::unique_ptr<ParticleDistributionGenerator> d;
	if(kind == 0)
		d.reset(new NormalParticleDistributionGenerator(cut));
	else if(kind == 1)
		d.reset(new RingParticleDistributionGenerator);
	else
		d.reset(new UniformParticleDistributionGenerator);
	int type = g.i(0, 3);
	c.nontrivial(n >= 3);
	RandomNG::init(seed);
	auto p = build(type, n, *d, b);
	RandomNG::init(seed);
	auto q = build(type, n, *d, b);
	RandomNG::init(seed + 1);
	auto r = build(type, n, *d, b);
	basics(c, *p, n, b);
	bool differ = false;
	for(size_t i = 0; i < n; ++i)
	{
		c.check(p->GetParticles()[i] == q->GetParticles()[i], "equal seeds give equal bunches");
		differ = differ || p->GetParticles()[i] != r->GetParticles()[i];
	}
	if(n > 1)
		c.check(differ, "different seeds give different bunches");
	double sig[6] = {std::hypot(b.sigma_x(), b.Dx * b.sig_dp), std::hypot(b.sigma_xp(), b.Dxp * b.sig_dp), std::hypot(b.sigma_y(), b.Dy * b.sig_dp),
		std::hypot(b.sigma_yp(), b.Dyp * b.sig_dp), b.sig_z, b.sig_dp};
	double mean[6] = {b.x0, b.xp0, b.y0, b.yp0, b.ct0, 0};
	double f = kind == 1 ? 0.5 : kind == 2 ? 1.0 / 3 : 1;
	double fl = kind == 0 ? 1 : 1.0 / 3;
	if(kind == 0 && cut != 0)
	{
		double pr = std::erf(cut / std::sqrt(2.0)), ph = std::exp(-cut * cut / 2) / std::sqrt(2 * std::acos(-1.0));
		f = fl = 1 - 2 * cut * ph / pr;
	}
	if(n > 100)
	{
		PSmoments S;
		p->GetMoments(S);
		for(int i = 0; i < 6; ++i)
		{
			double v = i > 3 ? fl * sig[i] * sig[i] : f * (i == 0 ? b.sigma_x() * b.sigma_x() : i == 1 ? b.sigma_xp() * b.sigma_xp() : i == 2 ? b.sigma_y() * b.sigma_y() : b.sigma_yp() * b.sigma_yp())
				+ fl * std::pow((i == 0 ? b.Dx : i == 1 ? b.Dxp : i == 2 ? b.Dy : b.Dyp) * b.sig_dp, 2);
			double e = std::sqrt(v / n);
			c.near(S.mean(i), mean[i], 0, 6.5 * e + 1e-12 * std::abs(mean[i]), "mean of coordinate " + std::to_string(i));
			c.near(S.var(i), v, 6.5 * std::sqrt(2.0 / n) + 2.0 / n, 1e-20 * mean[i] * mean[i], "variance of coordinate " + std::to_string(i));
		}
	}
	for(auto& x : *p)
	{
		if(&x == &*p->begin())
			continue;
		// normalised amplitudes
		double X = x.x() - b.x0 - b.Dx * x.dp(), XP = x.xp() - b.xp0 - b.Dxp * x.dp();
		double Y = x.y() - b.y0 - b.Dy * x.dp(), YP = x.yp() - b.yp0 - b.Dyp * x.dp();
		double u[4] = {X / b.sigma_x(), (b.alpha_x * X + b.beta_x * XP) / b.sigma_x(), Y / b.sigma_y(), (b.alpha_y * Y + b.beta_y * YP) / b.sigma_y()};
		double round[4];
		double mag = 1e-15 * 30;
		round[0] = mag * (std::abs(b.x0) + std::abs(b.Dx * x.dp())) / b.sigma_x();
		round[1] = std::abs(b.alpha_x) * round[0] + mag * b.beta_x * (std::abs(b.xp0) + std::abs(b.Dxp * x.dp()) + std::abs(XP)) / b.sigma_x();
		round[2] = mag * (std::abs(b.y0) + std::abs(b.Dy * x.dp())) / b.sigma_y();
		round[3] = std::abs(b.alpha_y) * round[2] + mag * b.beta_y * (std::abs(b.yp0) + std::abs(b.Dyp * x.dp()) + std::abs(YP)) / b.sigma_y();
		for(int i = 0; i < 4; ++i)
		{
			double lim = kind == 0 ? cut : 1;
			if(lim != 0)
				c.check(std::abs(u[i]) <= lim * (1 + 1e-9) + 10 * round[i] + 1e-9, "limit of normalised coordinate " + std::to_string(i) + ": " + std::to_string(u[i]));
		}
		if(kind == 1)
		{
			c.near(std::hypot(u[0], u[1]), 1, 0, 1e-9 + 10 * (round[0] + round[1]), "x amplitude of the ring");
			c.near(std::hypot(u[2], u[3]), 1, 0, 1e-9 + 10 * (round[2] + round[3]), "y amplitude of the ring");
		}
		double lim = kind == 0 ? cut : 1;
		if(lim != 0)
		{
			c.check(std::abs(x.dp()) <= lim * b.sig_dp * (1 + 1e-12), "energy limit");
			c.check(std::abs(x.ct() - b.ct0) <= lim * b.sig_z * (1 + 1e-12) + 1e-14 * std::abs(b.ct0), "length limit");
		}
	}
	if(g.b())
	{
		p->SetCentroid();
		PSvector ctr(0);
		p->GetCentroid(ctr);
		for(int i = 0; i < 6; ++i)
			c.near(ctr[i], mean[i], 1e-12, 1e-12 * (sig[i] * 10 + std::abs(mean[i])), "forced centroid " + std::to_string(i));
		c.label("forced centroid");
	}
}

LAW(filters, 400, 15000, "every particle of a filtered bunch passes the filter")
{
	Quiet quiet;
	BeamData b = beam(g, false);
	RandomNG::init(std::uint32_t(g.raw(0xffffffffull)));
	size_t n = g.i(1, 80);
	c.nontrivial(n >= 3);
	NormalParticleDistributionGenerator d;
	bool hor = g.b();
	HorizontalHaloParticleBunchFilter h;
	VerticalHaloParticleBunchFilter v;
	double orbit = 0, k = g.pick({0.0, g.unit() * 2});
	double sx = std::hypot(b.sigma_x(), b.Dx * b.sig_dp), sy = std::hypot(b.sigma_y(), b.Dy * b.sig_dp);
	double lim = k * (hor ? sx : sy);
	bool defaults = g.chance(1, 4);
	if(hor)
	{
		if(!defaults)
		{
			orbit = g.pick({0.0, b.x0, sx * g.sym(1)});
			h.SetHorizontalOrbit(orbit);
		}
		h.SetHorizontalLimit(lim);
		if(std::abs(orbit - b.x0) + lim > 30 * sx)
			lim = lim;
	}
	else
		v.SetVerticalLimit(lim);
	ParticleBunchFilter* f = hor ? (ParticleBunchFilter*) &h : &v;
	c.label(hor ? "horizontal" : "vertical");
	auto p = build(g.i(0, 3), n, d, b, f);
	basics(c, *p, n, b);
	for(size_t i = 1; i < n; ++i)
	{
		const PSvector& x = p->GetParticles()[i];
		if(hor)
			c.check(std::abs(x.x() - orbit) >= lim * (1 - 1e-12) - 1e-15 * std::abs(orbit), "outside the horizontal limit");
		else
			c.check(std::abs(x.y()) >= lim, "outside the vertical limit");
	}
	// and the other way round: what is outside passes, what is inside does not
	for(int i = 0; i < 5; ++i)
	{
		PSvector x(0);
		for(int j = 0; j < 6; ++j)
			x[j] = g.sym(1) + 2;
		double a = g.pick({0.5, 2.0, g.logu(0.01, 100)});
		if(std::abs(a - 1) < 1e-6 || lim == 0)
			continue;
		double s = g.b() ? 1 : -1;
		if(hor)
			x.x() = orbit + s * a * lim;
		else
			x.y() = s * a * lim;
		if(hor && std::abs(orbit) > 1e6 * lim)
			continue;
		c.eq(f->Apply(x), a > 1, "the filter passes what is outside its limit");
	}
}
