// P10: protons in matter.
#include "pbt.h"
#include <complex>
#include <fstream>
#include <iostream>
#include <memory>
#include <unistd.h>
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "Collimator.h"
#include "CollimatorAperture.h"
#include "CollimateProtonProcess.h"
#include "ElasticScatter.h"
#include "DiffractiveScatter.h"
#include "MaterialProperties.h"
#include "ParticleTracker.h"
#include "ParticleBunch.h"
#include "ProtonBunch.h"
#include "RandomNG.h"
#include "ScatteringModelsMerlin.h"
#include "ScatteringProcess.h"
#include "utils.h"
using namespace pbt;
using namespace Collimation;

pbt::Info pbt::info = {"P10",
	"Materials of any constants and mixtures, steps of 1 um to 10 m, energies from 2 GeV to 10 TeV, samples of 400 to 4000 traversals or "
	"interactions of every process and model, histories of interactions in up to three materials. Non-trivial: every sample; histories "
	"that come back to a material.",
	"Samples are judged at a significance of about 1e-9 per comparison. The tables of the elastic and of the diffractive "
	"interaction are generated for two energies of the three of interest per run. The loss of layers so thin that the Landau expansion "
	"is negative is only required not to be a gain."};

void ScatterParticle(PSvector& p, double X0, double x, double E0);

namespace
{
struct Quiet
{
	std::ostringstream sink;
	std::streambuf* old;
	Quiet() : old(std::cout.rdbuf(sink.rdbuf())) {}
	~Quiet() { std::cout.rdbuf(old); }
};
const double PI = 3.14159265358979323846;
const double KS = 3.3;        // 2 exp(-2 x^2) = 7e-10
const double MP = 0.938272013, AMU = 0.931494043;
template<class F> double ks(std::vector<double> v, F f)
{
	std::sort(v.begin(), v.end());
	double d = 0, n = v.size();
	for(size_t i = 0; i < v.size(); ++i)
	{
		double p = f(v[i]);
		d = std::max(d, std::max(p - i / n, (i + 1) / n - p));
	}
	return d * std::sqrt(n);
}
double ks2(std::vector<double> a, std::vector<double> b)
{
	std::sort(a.begin(), a.end());
	std::sort(b.begin(), b.end());
	double d = 0;
	size_t i = 0, j = 0;
	while(i < a.size() && j < b.size())
	{
		double x = std::min(a[i], b[j]);
		while(i < a.size() && a[i] <= x)
			++i;
		while(j < b.size() && b[j] <= x)
			++j;
		d = std::max(d, std::abs(double(i) / a.size() - double(j) / b.size()));
	}
	return d * std::sqrt(double(a.size()) * b.size() / (a.size() + b.size()));
}
double Phi(double x)
{
	return 0.5 * std::erfc(-x / std::sqrt(2.0));
}
double corr(const std::vector<double>& a, const std::vector<double>& b)
{
	double n = a.size(), ma = 0, mb = 0, sab = 0, saa = 0, sbb = 0;
	for(size_t i = 0; i < a.size(); ++i)
		ma += a[i] / n, mb += b[i] / n;
	for(size_t i = 0; i < a.size(); ++i)
		sab += (a[i] - ma) * (b[i] - mb), saa += (a[i] - ma) * (a[i] - ma), sbb += (b[i] - mb) * (b[i] - mb);
	return sab / std::sqrt(saa * sbb);
}
#define DIST(what, d) do { double d_ = d; c.check(d_ < KS, std::string(what) + ": distance from the distribution " + std::to_string(d_)); } while(0)

void random_constants(Gen& g, MaterialProperties& m)
{
	static const double el[][8] = {
		{26.9815, 0.634, 0.421, 0.00034, 1.724, 24.01, 1204, 13}, {9.01218, 0.268, 0.199, 0.000035, 1.594, 65.19, 1848, 4},
		{12.011, 0.331, 0.231, 0.000076, 1.745, 42.7, 2265, 6}, {63.546, 1.232, 0.782, 0.00153, 1.403, 12.86, 8960, 29},
		{207.2, 2.96, 1.71, 0.00907, 1.123, 6.37, 11350, 82}, {183.84, 2.767, 1.65, 0.00768, 1.145, 6.76, 19300, 74}};
	static const double Iex[] = {166, 63.7, 78, 322, 823, 727};
	int k = g.i(0, 5);
	double f = g.chance(1, 2) ? 1 : g.logu(0.3, 3);
	m.A = el[k][0];
	m.sigma_T = el[k][1] * f;
	m.sigma_I = el[k][2] * f;
	m.sigma_R = el[k][3] * f;
	m.dEdx = el[k][4];
	m.X0 = el[k][5] * (g.chance(1, 2) ? 1 : g.logu(0.5, 2));
	m.density = el[k][6] * (g.chance(1, 2) ? 1 : g.logu(0.3, 2));
	m.Z = el[k][7];
	m.Update();
	if(g.chance(3, 4))
		m.SetExtra("MeanExcitationEnergy", Iex[k] * (g.chance(1, 2) ? 1 : g.real(0.7, 1.4)) * 1e-9);
	if(g.chance(3, 4))
		m.SetExtra("SixtrackdEdx", g.logu(0.1, 10));
}
// a material, remade or changed in place from time to time
struct Stock
{
	std::vector<std::unique_ptr<MaterialProperties>> m;
	Stock(Gen& g, int n)
	{
		for(int i = 0; i < n; ++i)
		{
			m.emplace_back(new MaterialProperties);
			random_constants(g, *m.back());
		}
	}
	MaterialProperties* get(Gen& g)
	{
		auto& p = m[g.raw(m.size() - 1)];
		int what = g.i(0, 4);
		if(what == 1)
		{
			p.reset();
			p.reset(new MaterialProperties);
			random_constants(g, *p);
		}
		else if(what == 2)
			random_constants(g, *p);
		return p.get();
	}
};
std::string str(const MaterialProperties& m)
{
	std::ostringstream o;
	o.precision(10);
	o << "[A=" << m.A << " Z=" << m.Z << " density=" << m.density << " X0=" << m.X0 << " T=" << m.sigma_T << " R=" << m.sigma_R << " I=" << m.sigma_I << "]";
	return o.str();
}
struct Bare : ScatteringModel
{
	void Configure(MaterialProperties*, double) override {}
};
PSvector start(Gen& g, double pos, double ang, double dp)
{
	PSvector p(0);
	p.x() = g.coord(pos);
	p.xp() = g.coord(ang);
	p.y() = g.coord(pos);
	p.yp() = g.coord(ang);
	p.ct() = g.coord(1e-2);
	p.dp() = dp;
	p.id() = g.i(0, 1000);
	return p;
}
// Landau energy loss (GeV) without fluctuation: location and scale
void landau_loss(const MaterialProperties& m, bool haveI, double I, double E, double x, double& loc, double& xi)
{
	const double me = 0.510998918, alpha = 1 / 137.03599911;
	double ga = E / MP, b2 = 1 - 1 / (ga * ga), bg2 = ga * ga * b2;
	if(!haveI)
		I = 10 * m.Z;
	xi = 0.1535 * m.Z / m.A * (m.density / 1000) * (x * 100) / b2;      // MeV
	double r = me / (MP * 1000);
	double tmax = 2 * me * bg2 / (1 + 2 * ga * r + r * r);
	double C = 1 + 2 * std::log(I / (28.816 * std::sqrt(m.density / 1000 * m.Z / m.A)));
	double x1 = I < 100 ? 2 : 3, x0 = I < 100 ? (C <= 3.681 ? 0.2 : 0.326 * C - 1) : (C <= 5.215 ? 0.2 : 0.326 * C - 1.5);
	double X = 0.5 * std::log10(bg2), delta = 0;
	if(X > x1)
		delta = 4.606 * X - C;
	else if(X >= x0)
		delta = 4.606 * X - C + (C - 4.606 * x0) / std::pow(x1 - x0, 3) * std::pow(x1 - X, 3);
	double F = PI * alpha * std::sqrt(b2) / 2 - std::log(1 + 2 * tmax * me / (843.0 * 843.0)) - 2 * alpha * alpha / b2 * 1.202001688211;
	loc = std::log(2 * me * bg2 * xi / (I * 1e-6) / (I * 1e-6)) - b2 - delta + F + 0.2;
	xi *= 1e-3;
	loc *= xi;
}
}

LAW(path_length, 400, 8000, "the distance to the next interaction is exponential with the mean free path of the cross sections")
{
	Quiet quiet;
	RandomNG::init((std::uint32_t) g.raw(1000000));
	Stock st(g, 2);
	Bare model;
	int n = g.i(400, 3000);
	for(int k = g.i(1, 3); k > 0; --k)
	{
		MaterialProperties* m = st.get(g);
		c.desc << str(*m) << " n=" << n << " ";
		double mean = m->A * 1e-3 / ((m->sigma_T + m->sigma_R) * m->density * 1e-28 * 6.022e23);
		std::vector<double> v;
		for(int i = 0; i < n; ++i)
		{
			v.push_back(model.PathLength(m, g.pick({450.0, 7000.0})));
			c.check(v.back() >= 0 && std::isfinite(v.back()), "a path length is finite and not negative");
		}
		DIST("path length", ks(v, [&](double x) { return 1 - std::exp(-x / mean); }));
	}
	c.nontrivial();
}

LAW(straggle, 400, 8000, "multiple scattering displaces and deflects as the radiation length prescribes, in both planes independently")
{
	Quiet quiet;
	RandomNG::init((std::uint32_t) g.raw(1000000));
	Stock st(g, 2);
	Bare model;
	for(int k = g.i(1, 3); k > 0; --k)
	{
		MaterialProperties* m = st.get(g);
		double X = m->X0 * 0.01 / (m->density / 1000);
		double x = X * g.logu(1e-5, 30), E1 = g.logu(2, 1e4), E2 = E1 * (g.chance(1, 2) ? 1 : g.real(0.5, 1));
		double th = 0.0136 * std::sqrt(x / X) * (1 + 0.038 * std::log(x / X)) / ((E1 + E2) / 2);
		c.desc << str(*m) << " x=" << x << " E1=" << E1 << " E2=" << E2 << " ";
		int n = g.i(400, 2500);
		std::vector<double> u, v, a, b;
		PSvector p0 = start(g, 10 * x * th, 10 * th, g.coord(1e-2));
		for(int i = 0; i < n; ++i)
		{
			PSvector p = p0;
			model.Straggle(p, x, m, E1, E2);
			double dx = p.x() - p0.x(), dxp = p.xp() - p0.xp(), dy = p.y() - p0.y(), dyp = p.yp() - p0.yp();
			c.check(p.ct() == p0.ct() && p.dp() == p0.dp() && p.id() == p0.id(), "multiple scattering changes neither energy nor time");
			a.push_back(dxp / th);
			b.push_back(dyp / th);
			u.push_back((dx - x * dxp / 2) / (x * th) * std::sqrt(12.0));
			v.push_back((dy - x * dyp / 2) / (x * th) * std::sqrt(12.0));
		}
		DIST("angle x", ks(a, Phi));
		DIST("angle y", ks(b, Phi));
		DIST("displacement x beyond half the angle", ks(u, Phi));
		DIST("displacement y beyond half the angle", ks(v, Phi));
		std::vector<double>* all[] = {&a, &b, &u, &v};
		for(int i = 0; i < 4; ++i)
			for(int j = 0; j < i; ++j)
				c.check(std::abs(corr(*all[i], *all[j])) * std::sqrt(n) < 6.5, "the four variates are independent");
	}
	c.nontrivial();
}

LAW(electrons, 250, 5000, "electrons lose the energy of bremsstrahlung in matter, never gain any, and are deflected as their mean energy and the radiation length prescribe")
{
	double X0 = g.logu(0.003, 0.6), t = g.logu(0.01, 2), x = t * X0, E0 = g.logu(0.05, 500), d0 = g.chance(1, 3) ? 0 : g.sym(0.3);
	c.desc << "X0 " << X0 << " length " << x << " E0 " << E0 << " dp " << d0;
	int seed = g.i(0, 1000000), N = 3000;
	RandomNG::init(seed);
	PSvector in(0);
	in.x() = g.sym(1e-3);
	in.xp() = g.sym(1e-3);
	in.y() = g.sym(1e-3);
	in.yp() = g.sym(1e-3);
	in.ct() = g.sym(1e-3);
	in.dp() = d0;
	double l = 0, a[2] = {}, aa[2] = {}, yy[2] = {}, ya[2] = {}, cross = 0;
	for(int n = 0; n < N; ++n)
	{
		PSvector p = in;
		ScatterParticle(p, X0, x, E0);
		double loss = (d0 - p.dp()) / (1 + d0);
		c.check(loss >= -1e-15 && loss < 1, "relative loss out of range");
		c.same(p.ct(), in.ct(), "ct");
		l += loss;
		double E = E0 * (1 + (d0 + p.dp()) / 2), th = 0.0136 * std::sqrt(t) * (1 + 0.038 * std::log(t)) / E;
		double u[2] = {(p.xp() - in.xp()) / th, (p.yp() - in.yp()) / th}, v[2] = {(p.x() - in.x()) / th / x, (p.y() - in.y()) / th / x};
		for(int k = 0; k < 2; ++k)
		{
			a[k] += u[k];
			aa[k] += u[k] * u[k];
			yy[k] += v[k] * v[k];
			ya[k] += u[k] * v[k];
		}
		cross += u[0] * u[1];
	}
	c.nontrivial(true);
	double q = std::pow(0.5, t / std::log(2)), var = std::pow(1 / 3., t / std::log(2)) - q * q, s = std::sqrt(N);
	c.near(l / N, 1 - q, 0.09, 7 * std::sqrt(1.2 * var) / s, "mean loss");
	for(int k = 0; k < 2; ++k)
	{
		std::string w = k ? " in y" : " in x";
		c.near(a[k] / N, 0, 0, 7 / s, "mean angle" + w);
		c.near(aa[k] / N, 1, 0, 7 * std::sqrt(2.) / s, "rms angle" + w);
		c.near(yy[k] / N, 1 / 3., 0, 7 * std::sqrt(2.) / 3 / s, "rms displacement" + w);
		c.near(ya[k] / N, 0.5, 0, 7 * std::sqrt(7 / 12.) / s, "displacement and angle" + w);
	}
	c.near(cross / N, 0, 0, 7 / s, "angles in x and y");
	double z = g.b() ? t / std::log(2) : g.logu(1e-3, 100);
	c.near(LogGamma(z), std::lgamma(z), 1e-9, 1e-9, "logarithm of the gamma function at " + std::to_string(z));
	c.near(Gamma(z), std::tgamma(z), 1e-7, 0, "gamma function at " + std::to_string(z));
}

LAW(energy_loss, 400, 8000, "the energy loss is the stopping power times the length, or follows the Landau distribution of the material; energy is never gained")
{
	Quiet quiet;
	std::uint32_t seed = (std::uint32_t) g.raw(1000000);
	RandomNG::init(seed);
	Stock st(g, 2);
	Bare model;
	for(int k = g.i(1, 3); k > 0; --k)
	{
		MaterialProperties* m = st.get(g);
		double E = g.logu(2, 1e4), x = g.logu(1e-6, 10), E0 = E * g.pick({1.0, 1.0, 0.9, 1.3});
		double I = m->HaveExtra("MeanExcitationEnergy") ? m->GetExtra("MeanExcitationEnergy") / 1e-9 : 0;
		double loc, xi;
		bool simple = g.chance(1, 4);
		model.energy_loss_mode = simple ? SimpleEnergyLoss : FullEnergyLoss;
		PSvector p0 = start(g, 1e-2, 1e-3, E / E0 - 1);
		c.desc << str(*m) << " I=" << I << " x=" << x << " E=" << E << " E0=" << E0 << (simple ? " simple " : " full ");
		if(simple)
		{
			PSvector p = p0;
			model.EnergyLoss(p, x, m, E0);
			double dedx = m->HaveExtra("SixtrackdEdx") ? m->GetExtra("SixtrackdEdx") : 0;
			c.near(p.dp(), p0.dp() - dedx * x / E0, 1e-13, 1e-15, "momentum after the constant loss");
			p.dp() = p0.dp();
			c.check(p == p0, "nothing else changes");
			continue;
		}
		landau_loss(*m, I != 0, I, E, x, loc, xi);
		int n = g.i(400, 1500);
		// thick enough for the expansion to hold, thin enough for the particle to go on
		bool thick = loc > 4.5 * xi;
		bool soft = (loc + 20 * xi) < 0.02 * E;
		bool split = thick && soft && g.chance(1, 2) && loc / xi > 6;
		int parts = g.i(2, 3);
		std::vector<double> v, w;
		for(int i = 0; i < n; ++i)
		{
			PSvector p = p0;
			if(split)
				for(int j = 0; j < parts && E0 * (1 + p.dp()) > 1; ++j)      // a proton of less is absorbed
					model.EnergyLoss(p, x / parts, m, E0);
			else
				model.EnergyLoss(p, x, m, E0);
			double loss = (p0.dp() - p.dp()) * E0;
			c.check(std::isfinite(loss) && loss >= -1e-15 * E0, "energy is not gained, loss " + std::to_string(loss));
			v.push_back(loss);
			p.dp() = p0.dp();
			c.check(p == p0, "nothing else changes");
		}
		RandomNG::init(seed + 1);
		for(int i = 0; i < 4 * n; ++i)
		{
			double l = loc + xi * RandomNG::landau();
			w.push_back(std::max(0.0, l));
		}
		if(thick)
		{
			// the rounding of the momentum and of the constants
			for(auto& l : v)
				l = std::round(l / xi * 1e6) / 1e6;
			for(auto& l : w)
				l = std::round(l / xi * 1e6) / 1e6;
			if(1e-15 * E0 < 1e-4 * xi)
				DIST(split ? "energy loss in parts" : "energy loss", ks2(v, w));
			c.label(split ? "in parts" : "at once");
		}
	}
	c.nontrivial();
}

namespace
{
enum Kind {RUTH, ST_RUTH, ST_PN, ELA_N, ST_N, ST_SD, PN, INEL};
const char* const kname[] = {"Rutherford", "SixTrackRutherford", "SixTrackElasticpn", "ElasticpN", "SixTrackElasticpN", "SixTrackSD", "Elasticpn", "Inelastic"};
double bpp(double E)
{
	return 8.5 + 1.086 * std::log(std::sqrt(2 * MP * E));
}
struct Stub : ScatteringProcess
{
	int id;
	mutable std::vector<double> E;
	mutable long calls = 0;
	bool answer;
	Stub(int i, bool a) : id(i), answer(a) {}
	bool Scatter(PSvector& p, double e) const override
	{
		E.push_back(e);
		++calls;
		p.id() = id;
		return answer;
	}
};
const double tableE[] = {450, 3500, 7000};
Elasticpn* elastic(int k)
{
	static Elasticpn* t[3] = {nullptr};
	if(!t[k])
		t[k] = new Elasticpn(tableE[k]);
	return t[k];
}
// the amplitude of Donnachie and Landshoff (pp elastic scattering), written as one complex sum
struct Amplitude
{
	typedef std::complex<double> Z;
	const double X[4] = {228.359, 193.811, 518.686, 10.7843}, eps[4] = {0.106231, 0.0972043, -0.510662, -0.302082};
	const double ap[4] = {0.278037, 0.0449029, 0.821595, 0.904556};
	const double Q[3] = {0.26, 0.56, 0.18}, q[3] = {8.38, 3.78, 1.36};
	const double cut = 0.521223, t0 = 5.02965;
	double F(double t) const
	{
		double s = 0;
		for(int i = 0; i < 3; ++i)
			s += Q[i] * std::exp(-q[i] * t);
		return s;
	}
	double dsigma(double t, double roots, bool em) const
	{
		const double mp = 0.93827203, hb = 0.389;
		double nu = roots * roots - 2 * mp * mp - 0.5 * t;
		Z A = 0;
		for(int k = 0; k < 4; ++k)
		{
			double al = 1 + eps[k] - ap[k] * t;
			Z r = -X[k] * F(t) * std::pow(nu * ap[k], al) * std::polar(1.0, -PI / 2 * al);
			A += (k == 3 ? Z(0, -1) * std::conj(Z(-1, 0)) * -1.0 : Z(1, 0)) * (k == 3 ? r * -1.0 : r);
		}
		Z two = 0;
		for(int u = 0; u < 4; ++u)
			for(int v = 0; v < 4; ++v)
			{
				Z lu = ap[u] * (std::log(ap[u] * nu) - Z(0, PI / 2)), lv = ap[v] * (std::log(ap[v] * nu) - Z(0, PI / 2));
				Z s = 0;
				for(int i = 0; i < 3; ++i)
					for(int j = 0; j < 3; ++j)
						s += Q[i] * Q[j] / (q[i] + lu + q[j] + lv) * std::exp(-t * (q[i] + lu) * (q[j] + lv) / (q[i] + lu + q[j] + lv));
				s *= X[u] * X[v] / (16 * PI * nu) * std::exp((1 + eps[u]) / ap[u] * lu + (1 + eps[v]) / ap[v] * lv);
				if(u == 3)
					s *= Z(0, 1);
				if(v == 3)
					s *= Z(0, 1);
				two += s;
			}
		A += cut * Z(0, 1) * two;
		A /= nu;
		double tr = std::sqrt(0.09 * 16 * PI / hb);      // three gluons
		A += t > t0 ? tr / std::pow(t, 4) : tr * std::exp(4 - 4 * t / t0) / std::pow(t0, 4);
		A *= std::sqrt(0.25 * hb);
		double alpha = em ? 0.0072973525376 : 0;
		double b = 8.5 + 1.086 * std::log(roots);
		double phase = -(0.577215664901532861 + std::log(t * b / 2) + std::log(1 + 8 / (b * 0.71)) + 4 * t / 0.71 * std::log(4 * t / 0.71) + 2 * t / 0.71);
		double coul = -alpha * F(t) / t;
		double rho = A.real() / A.imag();
		return (4 * PI * PI * coul * coul + std::norm(A) + 4 * PI * (rho + alpha * phase) * coul * A.imag()) / (4 * PI) / 1000;
	}
};
double roots(double E)
{
	return std::sqrt(2 * MP * E + 2 * MP * MP);
}
}

LAW(interaction, 900, 20000, "each interaction conserves energy and momentum and draws its momentum transfer from its distribution, in a random direction")
{
	Quiet quiet;
	RandomNG::init((std::uint32_t) g.raw(1000000));
	Kind k = (Kind) g.i(0, 7);
	int table = g.raw(3) ? 2 : 0;
	double E = k == PN ? tableE[table] : k == ST_SD ? g.logu(20, 1e4) : g.chance(1, 8) ? g.logu(0.05, 1) : g.logu(2, 1e4);
	double dp = g.pick({0.0, 0.0, g.coord(1e-3), g.real(-0.5, 0.1)});
	double E1 = E * (1 + dp);
	std::map<std::string, MaterialProperties*> dict;
	Stock st(g, 3);
	std::vector<std::string> names = {"a", "b", "c"};
	std::vector<double> prop;
	int nc = g.i(1, 3);
	for(int i = 0; i < nc; ++i)
	{
		dict[names[i]] = st.m[i].get();
		prop.push_back(g.real(0.2, 1));
		for(int j = 0; j < i; ++j)
			if(dict[names[j]]->A == dict[names[i]]->A)
				dict[names[i]]->A *= 1.1 + 0.05 * j;
	}
	names.resize(nc);
	std::unique_ptr<MaterialProperties> mat;
	bool mixed = g.chance(1, 3);
	if(mixed)
		mat.reset(new Mixture(dict, names, prop, 5000));
	else
		mat.reset(new MaterialProperties(*st.m[0]));
	std::unique_ptr<ScatteringProcess> own;
	const ScatteringProcess* s = nullptr;
	switch(k)
	{
	case RUTH: own.reset(new Rutherford(mat.get())); break;
	case ST_RUTH: own.reset(new SixTrackRutherford()); break;
	case ST_PN: own.reset(new SixTrackElasticpn()); break;
	case ELA_N: own.reset(new ElasticpN(E, mat.get())); break;
	case ST_N: own.reset(new SixTrackElasticpN(mat.get())); break;
	case ST_SD: own.reset(new SixTrackSingleDiffractive()); break;
	case INEL: own.reset(new Inelastic()); break;
	case PN: s = elastic(table); break;
	}
	if(own)
		s = own.get();
	int n = g.i(400, 3000);
	c.desc << kname[k] << " E=" << E << " dp=" << dp << (mixed ? " mixture of " + std::to_string(nc) : " ") << str(*mat) << " n=" << n << " ";
	c.label(kname[k]);
	PSvector p0 = start(g, 1e-2, 1e-4, dp);
	std::vector<double> ph, t, xm2;
	std::vector<double> count(nc, 0.0);
	bool recoil = k == RUTH || k == ELA_N;
	bool clear = true;             // the recoil is resolved
	for(int i = 0; i < n; ++i)
	{
		PSvector p = p0;
		bool alive = s->Scatter(p, E);
		double E2 = E * (1 + p.dp());
		c.check(p.x() == p0.x() && p.y() == p0.y() && p.ct() == p0.ct() && p.id() == p0.id(), "an interaction does not move the particle");
		if(k == INEL)
		{
			c.check(!alive, "an inelastic interaction absorbs the proton");
			continue;
		}
		c.check(alive == (E2 > 0.1), "a proton goes on if it has energy left: " + std::to_string(E2));
		double dxp = p.xp() - p0.xp(), dyp = p.yp() - p0.yp();
		double tt = (dxp * dxp + dyp * dyp) * E2 * E2;
		double loss = E1 - E2;
		c.check(std::isfinite(tt) && std::isfinite(loss) && loss >= -1e-14 * E, "no energy is gained, loss " + std::to_string(loss));
		ph.push_back(std::atan2(dyp, dxp));
		if(k == ST_SD)
		{
			double m2 = loss * 2 * MP;
			xm2.push_back(m2);
			c.check(m2 >= 1 - 1e-3 && m2 <= 0.15 * 2 * MP * E * (1 + 1e-3), "mass of the excited system " + std::to_string(m2));
			double bb = bpp(E) * (m2 < 2 ? 2 : m2 > 5 ? 7 / 12.0 : (106 - 17 * m2) / 36);
			t.push_back(tt * bb);
		}
		else if(!recoil)
		{
			c.check(std::abs(loss) <= 1e-14 * E, "no energy is lost");
			t.push_back(k == ST_RUTH ? 1 - 0.9982e-3 / tt : k == ST_PN ? tt * bpp(E) : tt);
		}
		else
		{
			// mass of the recoiling nucleus
			double acc = 4e-16 * E / loss + 1e-7;
			double A = tt / (2 * loss) / AMU;
			double near = mat->A;
			int which = 0;
			if(mixed)
			{
				double best = 1e300;
				for(int j = 0; j < nc; ++j)
					if(std::abs(dict[names[j]]->A - A) < best)
						best = std::abs(dict[names[j]]->A - A), near = dict[names[j]]->A, which = j;
			}
			if(acc < 1e-3)
				c.near(A, near, 1e-5 + 3 * acc + 1e-12 / std::sqrt(dxp * dxp + dyp * dyp), 0, "energy of the recoil: mass of the nucleus");
			else
				clear = false;
			count[which] += 1;
			t.push_back(k == RUTH ? 1 - 0.9982e-3 / tt : tt * 14.1 * std::pow(near, 0.66));
		}
		if(k == ST_N)
			t.back() = tt;
	}
	c.nontrivial();
	if(k == INEL)
		return;
	DIST("direction", ks(ph, [](double x) { return (x + PI) / (2 * PI); }));
	auto flat = [](double x) { return x < 0 ? 0 : x > 1 ? 1 : x; };
	auto expo = [](double x) { return x < 0 ? 0 : 1 - std::exp(-x); };
	if(k == RUTH || k == ST_RUTH)
		for(double x : t)
			c.check(x > -1e-6, "the momentum transfer is above its limit");
	switch(k)
	{
	case RUTH:
	case ST_RUTH:
		DIST("momentum transfer", ks(t, flat));
		break;
	case ST_PN:
		DIST("momentum transfer", ks(t, expo));
		break;
	case ELA_N:
		if(!mixed || clear)
			DIST("momentum transfer", ks(t, expo));
		break;
	case ST_N:
	{
		// mixture of exponentials
		std::vector<double> w, a;
		double sum = 0;
		for(int j = 0; j < (mixed ? nc : 1); ++j)
		{
			w.push_back(mixed ? prop[j] * dict[names[j]]->sigma_T : 1);
			sum += w.back();
			a.push_back(14.1 * std::pow(mixed ? dict[names[j]]->A : mat->A, 0.66));
		}
		DIST("momentum transfer", ks(t, [&](double x)
			{
				double f = 0;
				for(size_t j = 0; j < w.size(); ++j)
					f += w[j] / sum * (1 - std::exp(-a[j] * x));
				return f;
			}));
		break;
	}
	case ST_SD:
	{
		double top = std::log(0.15 * 2 * MP * E);
		DIST("mass of the excited system", ks(xm2, [&](double x) { return std::log(x) / top; }));
		DIST("momentum transfer", ks(t, expo));
		std::vector<double> lm;
		for(double x : xm2)
			lm.push_back(std::log(x));
		c.check(std::abs(corr(lm, t)) * std::sqrt(n) < 9, "the scaled momentum transfer does not depend on the mass");
		break;
	}
	case PN:
	{
		Amplitude amp;
		static std::vector<double> cdf[3];
		if(cdf[table].empty())
		{
			// from 1e-3 to 1 in steps of 1e-4
			double s = 0;
			for(int i = 0; i < 9990; ++i)
			{
				cdf[table].push_back(s);
				s += amp.dsigma(1e-3 + (i + 0.5) * 1e-4, roots(E), true);
			}
			cdf[table].push_back(s);
		}
		std::vector<double> u;
		for(double x : t)
		{
			c.check(x >= 1e-4 * (1 - 1e-5) && x <= 1 + 1e-5, "the momentum transfer is within the table: " + std::to_string(x));
			if(x >= 1e-3)
				u.push_back(x);
		}
		DIST("momentum transfer", ks(u, [&](double x)
			{
				double i = std::min(9989.999, (x - 1e-3) / 1e-4);
				int j = (int) i;
				return (cdf[table][j] + (i - j) * (cdf[table][j + 1] - cdf[table][j])) / cdf[table].back();
			}));
		break;
	}
	default:
		break;
	}
	if(recoil && mixed && clear)
	{
		double sum = 0;
		for(int j = 0; j < nc; ++j)
			sum += prop[j] * (k == RUTH ? dict[names[j]]->sigma_R : dict[names[j]]->sigma_T);
		for(int j = 0; j < nc; ++j)
		{
			double f = prop[j] * (k == RUTH ? dict[names[j]]->sigma_R : dict[names[j]]->sigma_T) / sum;
			c.check(std::abs(count[j] - n * f) < 6.5 * std::sqrt(n * f * (1 - f)) + 6, "nuclei are hit in proportion to their number and cross section");
		}
	}
}

LAW(elastic_table, 150, 3000, "the elastic amplitude is that of its parametrisation and the cross section is its integral")
{
	Quiet quiet;
	int k = g.raw(3) ? 2 : 0;
	Elasticpn* e = elastic(k);
	Amplitude amp;
	double rs = g.pick({roots(tableE[k]), g.logu(10, 200)});
	for(int i = 0; i < 20; ++i)
	{
		double t = g.logu(1e-4, 8);
		bool em = g.b();
		c.desc << "(t=" << t << " sqrt(s)=" << rs << " em=" << em << ") ";
		c.near(e->calculations->PomeronScatter(t, rs, em), amp.dsigma(t, rs, em), 1e-8, 1e-12 * amp.dsigma(1e-3, rs, false), "differential cross section");
	}
	static double integral[3] = {0}, full[3] = {0};
	if(integral[k] == 0)
		for(int i = 0; i < 9999; ++i)
		{
			integral[k] += 1e-4 * amp.dsigma(1e-4 + (i + 0.5) * 1e-4, roots(tableE[k]), false);
			full[k] += 1e-4 * amp.dsigma(1e-4 + (i + 0.5) * 1e-4, roots(tableE[k]), true);
		}
	c.near(e->sigma, integral[k], 5e-3, 0, "cross section without the Coulomb peak");
	c.near(e->calculations->GetElasticCrossSectionN(), integral[k], 5e-3, 0, "cross section without the Coulomb peak");
	c.near(e->calculations->GetElasticCrossSection(), full[k], 0.3, 0, "cross section with the Coulomb peak");
	c.nontrivial();
}

namespace
{
// single diffraction pp -> pX of Appleby et al. (Eur. Phys. J. C 76:520), d2sigma/dt dxi in mb
struct Diffraction
{
	double s, th, thbar, xc, xth;
	double cc[4][3] = {{0.624529, 2.5835, 0}, {3.09088, 4.51487, 0.186211}, {4.0, 3.03392, 10.0}, {177.217, 5.86474, 21.0029}};
	explicit Diffraction(double E)
	{
		const double pion = 0.1349766;
		s = 2 * MP * E + 2 * MP * MP;
		th = (MP + pion) * (MP + pion);
		thbar = (MP - pion) * (MP - pion);
		double cut = s > 4000 ? 3 + 0.6 * std::log(s / 4000) : 3;
		xc = cut * cut / s;
		xth = th / s;
	}
	double c(int k, double t) const
	{
		return cc[k][0] * std::exp(cc[k][1] * t) + cc[k][2];
	}
	double high(double t, double x) const
	{
		double ppp = t > -0.25 ? 0.4 + 0.5 * t : c(0, t) * t / (t - 0.05);
		if(t <= -1.15)
			ppp *= 1 + 0.4597 * (-t - 1.15) + 5.7575 * (-t - 1.15) * (-t - 1.15);
		double sp = std::pow(s, 0.08), sr = std::pow(s, -0.4525);
		double form = (3.52142 - 2.79 * t) / ((1 - 1.40845 * t) * (1 - 1.40845 * t) * (3.52142 - t) * (t - 0.0182185));
		return ppp * sp * std::pow(x, -1.08 - 0.5 * t) + c(1, t) * sr * std::pow(x, -1.6125 - 0.5 * t) + c(2, t) * sp * std::pow(x, -0.015 - 1.86 * t) +
			   c(3, t) * sr * std::pow(x, -0.5475 - 1.86 * t) +
			   1.14591559 * std::pow(x, 1 - 1.86 * (t - 0.0182185)) * (31.79 * std::pow(s * x, -0.4525) + 13.63 * std::pow(s * x, 0.0808)) * std::abs(t) * form * form;
	}
	double resonances(double t, double x, double at) const
	{
		const double ml[4] = {1.44, 1.52, 1.68, 2.19}, G[4] = {0.325, 0.13, 0.14, 0.45}, cl[4] = {3.07, 0.4149, 1.108, 0.9515};
		double r = 0;
		auto mom = [&](double m2) { return std::sqrt((m2 - th) * (m2 - thbar) / (4 * m2)); };
		double q = mom(x * s);
		for(int l = 0; l < 4; ++l)
		{
			double ql = mom(ml[l] * ml[l]);
			double ga = G[l] * std::pow(q / ql, 2 * l + 3) * std::pow((1 + 5 * ql) / (1 + 5 * q), l + 1);
			double d = at * s - ml[l] * ml[l];
			r += cl[l] / at * ml[l] * ga / (d * d + ml[l] * ml[l] * ga * ga);
		}
		return r * std::exp(13.5 * (t + 0.05));
	}
	double operator()(double tt, double x) const
	{
		double t = -tt;
		if(x <= xth)
			return 0;
		if(x > xc)
			return high(t, x);
		double A = high(t, xc), h = xc * 1e-4, dA = (high(t, xc + h) - high(t, xc - h)) / (2 * h), w = xc - xth;
		double d = (w * dA - A) / (w * w), e = dA - 2 * (w * dA - A) / w;
		return d * (x - xth) * (x - xth) + e * (x - xth) + resonances(t, x, x) - resonances(t, x, xc) * (x - xth) / w;
	}
};
SingleDiffractive* diffractive(int k)
{
	static SingleDiffractive* t[3] = {nullptr};
	if(!t[k])
		t[k] = new SingleDiffractive(tableE[k]);
	return t[k];
}
// marginal distributions on grids that are fine where the density is not smooth
struct Marginals
{
	std::vector<double> x, t, Fx, Ft, FxLow, FxHigh;
	double sigma;
	double tmid = 0.1;
	explicit Marginals(double E)
	{
		Diffraction f(E);
		const int NX = 600, NT = 300;
		double x0 = f.xth;
		for(int i = 0; i <= NX; ++i)
			x.push_back(x0 * std::pow(0.12 / x0, double(i) / NX));
		for(int i = 0; i <= NT; ++i)
			t.push_back(1e-4 * std::pow(4 / 1e-4, double(i) / NT));
		Fx.assign(NX + 1, 0.0);
		Ft.assign(NT + 1, 0.0);
		FxLow = FxHigh = Fx;
		for(int i = 0; i < NX; ++i)
			for(int j = 0; j < NT; ++j)
			{
				double xm = (x[i] + x[i + 1]) / 2, tm = (t[j] + t[j + 1]) / 2;
				double w = std::max(0.0, f(tm, xm)) * (x[i + 1] - x[i]) * (t[j + 1] - t[j]);
				Fx[i + 1] += w;
				Ft[j + 1] += w;
				(tm < tmid ? FxLow : FxHigh)[i + 1] += w;
			}
		for(auto* v : {&Fx, &Ft, &FxLow, &FxHigh})
			for(size_t i = 1; i < v->size(); ++i)
				(*v)[i] += (*v)[i - 1];
		sigma = Fx.back() / 1000;
	}
	static double at(const std::vector<double>& g, const std::vector<double>& F, double v)
	{
		if(v <= g[0])
			return 0;
		if(v >= g.back())
			return 1;
		size_t i = std::upper_bound(g.begin(), g.end(), v) - g.begin() - 1;
		return (F[i] + (F[i + 1] - F[i]) * (v - g[i]) / (g[i + 1] - g[i])) / F.back();
	}
};
}

LAW(diffraction, 48, 1600, "single diffraction keeps to the limits of its table, takes the energy of the excited system and follows its parametrisation")
{
	Quiet quiet;
	RandomNG::init((std::uint32_t) g.raw(1000000));
	int k = g.chance(1, 6) ? 0 : 2;
	double E = tableE[k];
	SingleDiffractive* sd = diffractive(k);
	static std::unique_ptr<Marginals> marg[3];
	if(!marg[k])
		marg[k].reset(new Marginals(E));
	Marginals& m = *marg[k];
	double s = 2 * MP * E + 2 * MP * MP, xth = (MP + 0.1349766) * (MP + 0.1349766) / s;
	int n = g.i(500, 4000);
	double dp = g.pick({0.0, g.coord(1e-3)});
	c.desc << "E=" << E << " dp=" << dp << " n=" << n;
	c.near(sd->sigma, m.sigma, 0.02, 0, "cross section");
	PSvector p0 = start(g, 1e-2, 1e-4, dp);
	std::vector<double> xs, ts, low, high, ph;
	for(int i = 0; i < n; ++i)
	{
		PSvector p = p0;
		bool alive = sd->Scatter(p, E);
		double E2 = E * (1 + p.dp()), dxp = p.xp() - p0.xp(), dyp = p.yp() - p0.yp();
		double t = (dxp * dxp + dyp * dyp) * E2 * E2, xi = p0.dp() - p.dp();
		c.check(alive, "the proton goes on");
		c.check(p.x() == p0.x() && p.y() == p0.y() && p.ct() == p0.ct() && p.id() == p0.id(), "an interaction does not move the particle");
		c.check(t >= 1e-4 * (1 - 1e-4) && t <= 4 * (1 + 1e-6), "momentum transfer within the table: " + std::to_string(t));
		c.check(xi >= xth * (1 - 1e-3) && xi <= 0.12 * (1 + 1e-6), "energy of the excited system within the table: " + std::to_string(xi));
		xs.push_back(xi);
		ts.push_back(t);
		(t < m.tmid ? low : high).push_back(xi);
		ph.push_back(std::atan2(dyp, dxp));
	}
	DIST("direction", ks(ph, [](double x) { return (x + PI) / (2 * PI); }));
	DIST("momentum transfer", ks(ts, [&](double x) { return Marginals::at(m.t, m.Ft, x); }));
	DIST("energy of the excited system", ks(xs, [&](double x) { return Marginals::at(m.x, m.Fx, x); }));
	if(low.size() > 50)
		DIST("energy of the excited system at low momentum transfer", ks(low, [&](double x) { return Marginals::at(m.x, m.FxLow, x); }));
	if(high.size() > 50)
		DIST("energy of the excited system at high momentum transfer", ks(high, [&](double x) { return Marginals::at(m.x, m.FxHigh, x); }));
	c.nontrivial();
}

LAW(selection, 500, 10000, "interactions are selected in proportion to the cross sections of the material, also after coming back to a material")
{
	Quiet quiet;
	RandomNG::init((std::uint32_t) g.raw(1000000));
	struct Probe : ScatteringModel
	{
		std::map<MaterialProperties*, int> configured;
		std::map<MaterialProperties*, std::vector<Stub*>> stubs;
		std::map<MaterialProperties*, std::vector<double>> xs;
		double lastE = 0;
		void Configure(MaterialProperties* m, double E) override
		{
			++configured[m];
			lastE = E;
			for(int i = 0; i < 5; ++i)
				Xsection[i] = xs[m][i];
			for(int i = 1; i < 6; ++i)
				Processes[i] = stubs[m][i];
		}
	} model;
	std::vector<std::unique_ptr<Stub>> own;
	std::vector<std::unique_ptr<MaterialProperties>> mats;
	int nm = g.i(1, 3);
	for(int m = 0; m < nm; ++m)
	{
		mats.emplace_back(new MaterialProperties);
		auto* p = mats.back().get();
		auto& xs = model.xs[p];
		xs.assign(6, 0.0);
		double sum = 0;
		for(int i = 1; i < 6; ++i)
			sum += xs[i] = g.chance(1, 5) ? 0 : g.logu(1e-3, 3);
		if(sum == 0)
			sum = xs[5] = 1;
		xs[0] = sum;
		model.stubs[p].push_back(nullptr);
		for(int i = 1; i < 6; ++i)
		{
			own.emplace_back(new Stub(10 * m + i, g.b()));
			model.stubs[p].push_back(own.back().get());
		}
	}
	std::vector<std::vector<double>> seen(nm, std::vector<double>(6, 0.0));
	std::vector<double> total(nm, 0.0);
	int runs = g.i(1, 8);
	std::set<int> used;
	bool back = false;
	int last = -1;
	for(int r = 0; r < runs; ++r)
	{
		int m = g.i(0, nm - 1);
		if(m != last && used.count(m))
			back = true;
		used.insert(m);
		last = m;
		int n = g.i(1, 600);
		double E = g.logu(1, 1e4);
		c.desc << "material " << m << " x" << n << " E=" << E << " ";
		for(int i = 0; i < n; ++i)
		{
			PSvector p(0);
			bool fresh = !model.configured.count(mats[m].get());
			bool ok = model.ParticleScatter(p, mats[m].get(), E);
			if(fresh)
				c.eq(model.lastE, E, "energy of the configuration");
			c.eq(model.configured[mats[m].get()], 1, "number of times a material is configured");
			int id = (int) p.id();
			c.check(id / 10 == m && id % 10 >= 1 && id % 10 <= 5, "the interaction belongs to the material");
			auto* s = model.stubs[mats[m].get()][id % 10];
			c.check(s->answer == ok, "the answer of the interaction is passed on");
			c.eq(s->E.back(), E, "energy of the interaction");
			seen[m][id % 10] += 1;
			total[m] += 1;
		}
	}
	for(int m = 0; m < nm; ++m)
		for(int i = 1; i < 6; ++i)
		{
			auto& xs = model.xs[mats[m].get()];
			double f = xs[i] / xs[0], n = total[m];
			c.check(xs[i] > 0 || seen[m][i] <= (i == 5 ? 0.001 * n : 0), "an interaction without cross section does not happen");
			c.check(std::abs(seen[m][i] - n * f) <= 6.5 * std::sqrt(n * f * (1 - f)) + 6, "interaction " + std::to_string(i) + " happened " + std::to_string(seen[m][i]) + " times of " +
				std::to_string(n) + ", expected " + std::to_string(n * f));
		}
	if(back)
		c.nontrivial();
}

LAW(models, 600, 10000, "the SixTrack models take the cross sections of the material and the parametrisation of their energy")
{
	Quiet quiet;
	Stock st(g, 2);
	bool ion = g.b();
	std::unique_ptr<ScatteringModel> model;
	if(ion)
		model.reset(new ScatteringModelSixTrackIoniz);
	else
		model.reset(new ScatteringModelSixTrack);
	c.check(model->energy_loss_mode == (ion ? FullEnergyLoss : SimpleEnergyLoss), "kind of energy loss");
	MaterialProperties* m = st.m[0].get();
	double E = g.logu(20, 1e4);
	c.desc << str(*m) << " E=" << E << " ioniz=" << ion;
	model->Configure(m, E);
	c.check(model->energy_loss_mode == (ion ? FullEnergyLoss : SimpleEnergyLoss), "kind of energy loss");
	double s = 2 * MP * E + MP * MP, nuc = 1.618 * std::pow(m->A, 0.333);
	c.near(model->Xsection[0], m->sigma_T, 1e-12, 0, "total");
	c.near(model->Xsection[1], m->sigma_R, 1e-12, 0, "Rutherford");
	c.near(model->Xsection[2], nuc * 0.007 * std::pow(E / 450, 0.04792), 1e-9, 0, "elastic");
	c.near(model->Xsection[3], nuc * 0.00068 * std::log(0.15 * s), 1e-6, 0, "diffractive");
	c.near(model->Xsection[4], m->sigma_I, 1e-12, 0, "inelastic");
	ScatteringProcess* p[6];
	for(int i = 1; i < 6; ++i)
		p[i] = model->Processes[i];
	c.check(dynamic_cast<SixTrackRutherford*>(p[1]) && dynamic_cast<SixTrackElasticpn*>(p[2]) && dynamic_cast<SixTrackSingleDiffractive*>(p[3]) &&
		dynamic_cast<Inelastic*>(p[4]) && dynamic_cast<SixTrackElasticpN*>(p[5]), "kinds of interaction");
	for(int i = 1; i < 6; ++i)
		delete p[i];
	c.nontrivial();
}

LAW(kept_loss, 60, 400, "the models with tables keep their kind of energy loss and take the cross sections of their tables")
{
	Quiet quiet;
	std::unique_ptr<ScatteringModel> model;
	int kind = g.i(0, 2);
	if(kind == 0)
		model.reset(new ScatteringModelMerlin);
	else if(kind == 1)
		model.reset(new ScatteringModelSixTrackElastic);
	else
		model.reset(new ScatteringModelSixTrackSD);
	c.check(model->energy_loss_mode == (kind == 0 ? FullEnergyLoss : SimpleEnergyLoss), "kind of energy loss");
	c.desc << "kind " << kind;
	// the tables are made anew by every configuration: once per process
	static bool done = false;
	if(!done)
	{
		done = true;
		Stock st(g, 1);
		MaterialProperties* m = st.m[0].get();
		double E = tableE[0], s = 2 * MP * E + MP * MP, nuc = 1.618 * std::pow(m->A, 0.333);
		c.desc << " " << str(*m);
		model->Configure(m, E);
		c.near(model->Xsection[0], m->sigma_T, 1e-12, 0, "total");
		c.near(model->Xsection[1], m->sigma_R, 1e-12, 0, "Rutherford");
		if(kind == 2)
			c.near(model->Xsection[2], nuc * 0.007 * std::pow(E / 450, 0.04792), 1e-9, 0, "elastic");
		else
			c.near(model->Xsection[2], nuc * elastic(0)->sigma, 1e-9, 0, "elastic");
		if(kind == 1)
			c.near(model->Xsection[3], nuc * 0.00068 * std::log(0.15 * s), 1e-6, 0, "diffractive");
		else
			c.near(model->Xsection[3], nuc * diffractive(0)->sigma, 1e-9, 0, "diffractive");
		c.near(model->Xsection[4], m->sigma_I, 1e-12, 0, "inelastic");
		auto& P = model->Processes;
		c.check(kind == 0 ? dynamic_cast<Rutherford*>(P[1]) != nullptr : dynamic_cast<SixTrackRutherford*>(P[1]) != nullptr, "kind of Rutherford scattering");
		c.check(kind == 2 ? dynamic_cast<SixTrackElasticpn*>(P[2]) != nullptr : dynamic_cast<Elasticpn*>(P[2]) != nullptr, "kind of elastic scattering");
		c.check(kind == 1 ? dynamic_cast<SixTrackSingleDiffractive*>(P[3]) != nullptr : dynamic_cast<SingleDiffractive*>(P[3]) != nullptr, "kind of diffraction");
		c.check(dynamic_cast<Inelastic*>(P[4]) != nullptr, "inelastic interaction");
		c.check(kind == 2 ? dynamic_cast<SixTrackElasticpN*>(P[5]) != nullptr : dynamic_cast<ElasticpN*>(P[5]) != nullptr, "kind of elastic scattering off the nucleus");
		c.check(model->energy_loss_mode == (kind == 0 ? FullEnergyLoss : SimpleEnergyLoss), "kind of energy loss");
	}
	c.nontrivial();
}

LAW(collimator, 300, 5000, "in a collimator a proton interacts as often as the mean free path says, at the energy its momentum refers to, and loses energy along all of its way")
{
	Quiet quiet;
	RandomNG::init((std::uint32_t) g.raw(1000000));
	struct Probe : ScatteringModel
	{
		Stub* s[6] = {nullptr};
		MaterialProperties* only = nullptr;
		Probe()
		{
			energy_loss_mode = SimpleEnergyLoss;
			for(int i = 1; i < 6; ++i)
				s[i] = new Stub(i, true);
		}
		~Probe()
		{
			for(int i = 1; i < 6; ++i)
				delete s[i];
		}
		void Configure(MaterialProperties* m, double) override
		{
			only = m;
			Xsection[0] = m->sigma_T;
			for(int i = 1; i < 5; ++i)
				Xsection[i] = m->sigma_T / 5;
			for(int i = 1; i < 6; ++i)
				Processes[i] = s[i];
		}
	} model;
	Stock st(g, 1);
	MaterialProperties* m = st.m[0].get();
	double P0 = g.pick({7000.0, 450.0, 120.0});
	double E0 = std::sqrt(P0 * P0 + MP * MP);
	double L = m->lambda * g.logu(0.05, 5);
	double bin = g.pick({10.0, L, L / 3, L / 7.3});
	double dedx = g.chance(1, 4) ? 0 : 0.2 * P0 / L * g.unit();
	m->SetExtra("SixtrackdEdx", dedx);
	int n = g.i(50, 600);
	c.desc << str(*m) << " P0=" << P0 << " L=" << L << " bin=" << bin << " dE/dx=" << dedx << " n=" << n;
	AcceleratorModelConstructor con;
	Collimator* col = new Collimator("COL", L);
	col->SetMaterialProperties(m);
	col->SetAperture(new CollimatorAperture(2, 2, 0, L, 0, 0));
	((CollimatorAperture*) col->GetAperture())->SetExitWidth(2);
	((CollimatorAperture*) col->GetAperture())->SetExitHeight(2);
	con.AppendComponent(*col);
	std::unique_ptr<AcceleratorModel> acc(con.GetModel());
	ParticleTracker t(acc->GetBeamline());
	CollimateProtonProcess* p = new CollimateProtonProcess(2, COLL_AT_EXIT);
	t.AddProcess(p);
	p->ScatterAtCollimator(true);
	p->SetScatteringModel(&model);
	p->SetOutputBinSize(bin);
	p->SetLossThreshold(300);
	ProtonBunch b(P0, 1);
	PSvector q(0);
	q.x() = 0;
	q.y() = 1000;
	q.dp() = g.pick({0.0, g.coord(1e-2), -g.real(0, 0.3)});
	for(int i = 0; i < n; ++i)
		b.AddParticle(q);
	t.Track(&b);
	c.eq(b.size(), (size_t) n, "all protons go on");
	double calls = 0;
	for(int i = 1; i < 6; ++i)
	{
		calls += model.s[i]->calls;
		for(double e : model.s[i]->E)
			c.near(e, E0, 1e-12, 0, "energy the momentum deviation refers to");
	}
	double mean = n * L / m->lambda;
	c.check(std::abs(calls - mean) < 6.5 * std::sqrt(mean) + 8, std::to_string(calls) + " interactions, expected " + std::to_string(mean));
	for(auto& x : b.GetParticles())
		c.near(x.dp(), q.dp() - dedx * L / E0, 1e-9, 1e-12, "energy lost along the collimator");
	c.nontrivial();
}

LAW(records, 300, 6000, "scatter plots and jaw impacts hold what was given, for the collimator asked for, in the order given")
{
	Quiet quiet;
	char dir[] = "/tmp/pbt-p10-XXXXXX";
	c.check(mkdtemp(dir), "mkdtemp");
	struct Clean
	{
		std::string d;
		std::vector<std::string> f;
		~Clean()
		{
			for(auto& x : f)
				unlink(x.c_str());
			rmdir(d.c_str());
		}
	} clean{dir, {}};
	std::string d = std::string(dir) + "/";
	Bare model;
	static const char* const names[] = {"TCP.A", "TCP.B", "TCS", "TCL.5"};
	bool used[2][4] = {};
	for(int w = 0; w < 2; ++w)
		for(int k = 0; k < 4; ++k)
			if(g.b())
			{
				used[w][k] = true;
				w ? model.SetJawImpact(names[k]) : model.SetScatterPlot(names[k]);
			}
	struct Row
	{
		PSvector p;
		double z;
		int turn, name;
	};
	int total = 0;
	for(int round = g.i(1, 2), seed = 0; round > 0; --round)
	{
		seed += g.i(1, 50);
		std::vector<Row> rows[2];
		for(int n = g.i(0, 12); n > 0; --n)
		{
			Row r{start(g, 1e-2, 1e-4, g.coord(1e-2)), g.coord(3), g.i(0, 100000), (int) g.raw(3)};
			bool w = g.b();
			if(w)
				model.JawImpact(r.p, r.turn, names[r.name]);
			else
				model.ScatterPlot(r.p, r.z, r.turn, names[r.name]);
			rows[w].push_back(r);
			++total;
			const auto& q = rows[w].back();
			if(w)
			{
				const JawImpactData& x = *model.StoredJawImpactData.back();
				c.check(x.ID == q.p.id() && x.x == q.p.x() && x.xp == q.p.xp() && x.y == q.p.y() && x.yp == q.p.yp() && x.ct == q.p.ct() &&
					x.dp == q.p.dp() && x.turn == q.turn && x.name == names[q.name], "jaw impact kept");
			}
			else
			{
				const ScatterPlotData& x = *model.StoredScatterPlotData.back();
				c.check(x.ID == q.p.id() && x.x == q.p.x() && x.xp == q.p.xp() && x.y == q.p.y() && x.yp == q.p.yp() && x.z == q.z &&
					x.turn == q.turn && x.name == names[q.name], "scatter kept");
			}
		}
		c.desc << rows[0].size() << "+" << rows[1].size() << " ";
		model.OutputScatterPlot(d, seed);
		model.OutputJawImpact(d, seed);
		for(int w = 0; w < 2; ++w)
			for(int k = 0; k < 4; ++k)
			{
				std::string f = d + (w ? "jaw_impact_" : "scatter_plot_") + names[k] + "_" + std::to_string(seed) + ".txt";
				std::ifstream in(f);
				c.check(in.good() == used[w][k], "a file for every collimator asked for and no other");
				if(!used[w][k])
					continue;
				clean.f.push_back(f);
				std::string line;
				std::getline(in, line);
				c.check(!line.empty() && line[0] == '#', "heading");
				for(auto& r : rows[w])
				{
					if(r.name != k)
						continue;
					c.check((bool) std::getline(in, line), "a line for every record");
					std::istringstream is(line);
					std::vector<double> v, want;
					for(double x; is >> x;)
						v.push_back(x);
					want = w ? std::vector<double>{r.p.id(), r.p.x(), r.p.xp(), r.p.y(), r.p.yp(), r.p.ct(), r.p.dp(), (double) r.turn} :
						std::vector<double>{r.p.id(), r.z, r.p.x(), r.p.y(), (double) r.turn};
					c.check(v == want, "record: " + line);
				}
				c.check(!std::getline(in, line), "no further lines: " + line);
			}
	}
	if(total > 1)
		c.nontrivial();
}
