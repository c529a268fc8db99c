// P27: synchrotron radiation and spin tracking obey their laws.
// Reference: the classical power and the moments of the quantum spectrum, and the Thomas-BMT rotation, from first principles.
#include "mlib.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "SynchRadParticleProcess.h"
#include "SpinParticleProcess.h"
#include "ElectronBunch.h"
#include "ProtonBunch.h"
#include "RandomNG.h"
#include "Transform3D.h"
#include <iostream>
using namespace ml;

pbt::Info pbt::info = {"P27",
	"Bends, quadrupoles, sextupoles, correctors and skew magnets of any field with electrons and protons of any momentum, in any number "
	"of steps, with the mean loss and with photons of both spectra; spins of any direction in bends with rotated pole faces, multipoles, "
	"solenoids and lines of them; histories of bunches with spins. Non-trivial: energy is lost or a spin is turned.",
	"Radiated energy per step below 5 %; field and reference path at the position of the particle before the kick. Spins of electrons; "
	"hard edges to first order in the offset; no tilted bends; thin elements are not generated."};

namespace
{
const double ME = 0.51099895e-3, MP = 0.93827209, HBAR = 1.054571817e-34, QE = 1.602176634e-19, ALPHA = 1 / 137.035999, GE = 1.15965218e-3;
struct Silent
{
	std::ostringstream s;
	std::streambuf* old;
	Silent() : old(std::cout.rdbuf(s.rdbuf())) {}
	~Silent() { std::cout.rdbuf(old); }
};
struct Mag
{
	std::unique_ptr<AcceleratorComponent> c;
	std::string kind;
	double L = 1, h = 0, Bz = 0;
	int n = 0;
	std::complex<double> B0 = 0, Bn = 0;    // tesla, tesla/m^n
	bool bend = false, faces = false;
	double e1 = 0, e2 = 0;
	// By + i Bx
	std::complex<double> field(double x, double y) const
	{
		std::complex<double> r = B0;
		if(n > 0)
			r += Bn * std::pow(std::complex<double>(x, y), n);
		return r;
	}
	std::string text() const
	{
		std::ostringstream s;
		s << kind << " L=" << L << " h=" << h << " B0=" << B0 << " B" << n << "=" << Bn << " Bz=" << Bz << " e=" << e1 << "," << e2 << " ";
		return s.str();
	}
};
Mag magnet(Gen& g, double brho, const std::string& name, bool solenoids)
{
	Mag m;
	m.L = g.chance(1, 8) ? g.pick({1.0, 2.5, 0.3}) : length(g, 0.1, 6);
	switch(g.i(0, solenoids ? 6 : 5))
	{
	case 0:
	case 1:
	{
		m.kind = "bend";
		m.bend = true;
		double ang = g.slogu(1e-4, 0.5);
		m.h = ang / m.L;
		m.B0 = m.h * brho * (g.chance(1, 4) ? g.real(0.9, 1.1) : 1.0);
		SectorBend* b = new SectorBend(name, m.L, m.h, m.B0.real());
		if(g.b())
		{
			m.n = 1;
			m.Bn = g.sym(1) * brho;
			b->SetB1(m.Bn.real());
		}
		if(g.b())
		{
			m.faces = true;
			m.e1 = g.sym(0.4);
			m.e2 = g.sym(0.4);
			b->SetPoleFaceInfo(new SectorBend::PoleFace(m.e1), new SectorBend::PoleFace(m.e2));
		}
		m.c.reset(b);
		break;
	}
	case 2:
		m.kind = "quad";
		m.n = 1;
		m.Bn = g.sym(2) * brho;
		m.c.reset(new Quadrupole(name, m.L, m.Bn.real()));
		break;
	case 3:
		m.kind = "skewquad";
		m.n = 1;
		m.Bn = std::complex<double>(0, g.sym(2) * brho);
		m.c.reset(new SkewQuadrupole(name, m.L, m.Bn.imag()));
		break;
	case 4:
		m.kind = "sextupole";
		m.n = 2;
		m.Bn = g.sym(20) * brho;
		m.c.reset(new Sextupole(name, m.L, 2 * m.Bn.real()));
		break;
	case 5:
		if(g.b())
		{
			m.kind = "drift";
			m.c.reset(new Drift(name, m.L));
		}
		else
		{
			m.kind = "xcor";
			m.B0 = g.sym(1e-2) * brho / m.L;
			m.c.reset(new XCor(name, m.L, m.B0.real()));
		}
		break;
	default:
		m.kind = "solenoid";
		m.Bz = g.sym(0.5) * brho;
		m.c.reset(new Solenoid(name, m.L, m.Bz));
	}
	// the field as the component has it (the normalisation of the multipoles is that of P03)
	if(!m.bend && m.n > 0)
	{
		Vector3D f = m.c->GetEMField()->GetBFieldAt(Point3D(1, 0, 0));
		m.Bn = std::complex<double>(f.y, f.x);
	}
	if(m.kind == "xcor")
	{
		Vector3D f = m.c->GetEMField()->GetBFieldAt(Point3D(0, 0, 0));
		m.B0 = std::complex<double>(f.y, f.x);
	}
	return m;
}
// steps of a process as the step manager makes them
template<class PROC> void pass(PROC& p, AcceleratorComponent& e, Ctx& c)
{
	p.SetCurrentComponent(e);
	double s = 0, L = e.GetLength();
	for(int k = 0; k < 2000; ++k)
	{
		double ds = L - s;
		if(p.IsActive())
			ds = std::min(ds, p.GetMaxAllowedStepSize());
		if(p.IsActive())
			p.DoProcess(ds);
		s += ds;
		if(std::fabs(s - L) <= std::numeric_limits<double>::epsilon())
			return;
	}
	c.fail("the steps do not end");
}
std::unique_ptr<ParticleBunch> make_bunch(bool proton, double P0, double q)
{
	return std::unique_ptr<ParticleBunch>(proton ? (ParticleBunch*) new ProtonBunch(P0, q) : (ParticleBunch*) new ElectronBunch(P0, q));
}
// mean energy lost in a path L: 2/3 r_e m c^2 gamma^2 (q B L)^2/L ...
double classical(double P, double B, double L, double m)
{
	// k = B/(B rho) = curvature
	double k = B * per_brho(P), g = P / m;
	// 2/3 alpha hbar c gamma^4 k^2 with gamma = P/m, in GeV
	return 2.0 / 3 * ALPHA * HBAR * CLIGHT / QE * 1e-9 * g * g * g * g * k * k * L;
}
// in GeV
double critical(double P, double B, double m)
{
	double k = std::fabs(B) * per_brho(P), g = P / m;
	return 1.5 * HBAR * CLIGHT / QE * 1e-9 * g * g * g * k;
}
double photons(double P, double B, double L, double m)
{
	return 5 / (2 * std::sqrt(3.0)) * ALPHA * P / m * std::fabs(B) * per_brho(P) * L;
}
// int_0^inf t^mu K_5/3(t)
double bessel(double mu)
{
	return std::pow(2, mu - 1) * std::tgamma((1 + mu + 5.0 / 3) / 2) * std::tgamma((1 + mu - 5.0 / 3) / 2);
}
// moment of the number spectrum, in critical energies
double moment(double n)
{
	return bessel(n + 1) / (n + 1) / (5 * pi / 3);
}
}

LAW(mean, 15000, 300000, "without photons each particle loses the classical mean of its field, energy and path in every step, along its direction")
{
	Silent quiet;
	bool proton = g.chance(1, 5), quad = g.b(), symp = g.b(), adjust = g.chance(3, 4);
	double mass = proton ? MP : ME, P0 = proton ? g.logu(100, 5e4) : g.logu(0.5, 200), q = g.pick({-1.0, 1.0});
	Mag m = magnet(g, P0 / (CLIGHT * 1e-9), "M", true);
	int ns = g.pick({1, 1, 2, 3, 7, 10, g.i(1, 60)});
	double dsmax = 0;
	if(g.chance(1, 4))
	{
		dsmax = m.L * g.pick({2.0, 0.5, 1.0 / 3, g.real(0.03, 1.5)});
		ns = 1 + m.L / dsmax;
	}
	c.desc << (proton ? "proton " : "electron ") << P0 << " q=" << q << (quad ? " quads" : "") << (symp ? " canonical" : "")
		   << (adjust ? " adjust" : "") << " steps " << ns << " (" << dsmax << ") " << m.text();
	auto b = make_bunch(proton, P0, q);
	std::vector<V6> in;
	int n = g.len(0, 10);
	for(int i = 0; i < n; ++i)
	{
		in.push_back({g.coord(1e-2), g.coord(1e-2), g.coord(1e-2), g.coord(1e-2), g.sym(1), g.coord(0.02)});
		b->AddParticle(mk(in.back(), i));
		c.desc << str(in.back()) << " ";
	}
	SynchRadParticleProcess p(1);
	SynchRadParticleProcess::UseSymplecticVariables(symp);
	p.AdjustBunchReferenceEnergy(adjust);
	p.IncludeQuadRadiation(quad);
	if(dsmax > 0)
		p.SetMaxComponentStepSize(dsmax);
	else
		p.SetNumComponentSteps(ns);
	p.InitialiseProcess(*b);
	bool radiates = m.bend || (quad && m.kind != "drift" && m.kind != "solenoid");
	// the reference
	std::vector<V6> v = in;
	double P = P0, largest = 0;
	double total0 = 0, lost = 0;
	for(auto& z : v)
		total0 += P0 * (1 + z[5]);
	if(radiates)
		for(int k = 0; k < ns; ++k)
		{
			double mean = 0;
			for(auto& z : v)
			{
				double pz = P * (1 + z[5]), u = classical(pz, std::abs(m.field(z[0], z[2])), m.L / ns, mass);
				largest = std::max(largest, u / pz);
				if(u > 0.05 * pz)
					c.discard();
				mean += u / v.size();
				lost += u;
				double d = (pz - u) / P - 1;
				if(symp)
				{
					double r = (1 + d) / (1 + z[5]);
					z[1] *= r;
					z[3] *= r;
				}
				else
				{
					z[1] /= 1 + u / P;
					z[3] /= 1 + u / P;
				}
				z[5] = d;
			}
			// as implemented, the reference moves, angles stay
			if(adjust && !v.empty())
			{
				double r = mean / P;
				for(auto& z : v)
					z[5] = (z[5] + r) / (1 - r);
				P *= 1 - r;
			}
		}
	pass(p, *m.c, c);
	SynchRadParticleProcess::UseSymplecticVariables(false);
	double f = 1e-6 * std::max(largest, 1e-300) * ns;
	c.near(b->GetReferenceMomentum(), P, 1e-13, f * P, "reference momentum");
	c.eq(b->size(), in.size(), "number of particles");
	c.eq(b->GetTotalCharge(), q * n, "charge");
	double total = 0;
	for(int i = 0; i < n; ++i)
	{
		const PSvector& o = b->GetParticles()[i];
		std::string w = " of particle " + std::to_string(i);
		for(int k : {0, 2, 4})
			c.same(o[k], in[i][k], "position" + w);
		c.eq((long) o.id(), (long) i, "order");
		c.near(o.dp(), v[i][5], 1e-12, f + 1e-15 * (1 + ns), "dp" + w);
		c.near(o.xp(), v[i][1], 1e-12 + f, 1e-18, "xp" + w);
		c.near(o.yp(), v[i][3], 1e-12 + f, 1e-18, "yp" + w);
		double p1 = b->GetReferenceMomentum() * (1 + o.dp()), p0 = P0 * (1 + in[i][5]);
		c.check(p1 <= p0 * (1 + 1e-14), "a particle gained energy");
		if(std::abs(m.field(in[i][0], in[i][2])) == 0 || !radiates)
			c.near(p1, p0, 1e-14 * ns, 0, "energy without a field");
		total += p1;
	}
	c.near(total, total0 - lost, 1e-12, 1e-6 * lost, "energy of the bunch");
	c.nontrivial(lost > 0);
	c.label(ns > 1 && lost > 0, "several steps");
}

LAW(tracking, 3000, 50000, "in a line every step of every bend radiates once, whatever the lengths and the number of steps")
{
	Silent quiet;
	double P0 = g.logu(1, 100), q = g.pick({-1.0, 1.0});
	AcceleratorModelConstructor mc;
	mc.NewModel();
	struct B
	{
		double L, B0;
	};
	std::vector<B> bends;
	int ne = g.i(1, 8);
	int ns = g.pick({1, 2, 3, 5, 10, g.i(1, 50)});
	c.desc << P0 << " steps " << ns << ": ";
	for(int i = 0; i < ne; ++i)
	{
		double L = g.b() ? g.real(0.05, 20) : g.raw(1000) / 64.0 + 0.1;
		if(g.chance(1, 4))
		{
			mc.AppendComponent(*new Drift("D" + std::to_string(i), L));
			continue;
		}
		double ang = g.sym(0.05), h = ang / L, B0 = q * h * P0 / (CLIGHT * 1e-9);
		SectorBend* b = new SectorBend("B" + std::to_string(i), L, h, B0);
		bends.push_back({L, B0});
		c.desc << L << "/" << B0 << " ";
		mc.AppendComponent(*b);
	}
	std::unique_ptr<AcceleratorModel> m(mc.GetModel());
	ElectronBunch b(P0, q);
	b.AddParticle(mk({0, 0, 0, 0, 0, g.coord(1e-3)}));
	double p = P0 * (1 + b.GetParticles()[0].dp());
	ParticleTracker t(m->GetBeamline());
	SynchRadParticleProcess* sr = new SynchRadParticleProcess(2);
	sr->SetNumComponentSteps(ns);
	t.AddProcess(sr);
	double loss = 0, start = p;
	for(auto& e : bends)
		for(int k = 0; k < ns; ++k)
		{
			double u = classical(p, e.B0, e.L / ns, ME);
			if(u > 0.03 * p)
				c.discard();
			loss += u;
			p -= u;
		}
	t.Track(&b);
	double got = b.GetReferenceMomentum() * (1 + b.GetParticles()[0].dp());
	c.near(start - got, loss, 1e-6, start * 1e-13 * (1 + bends.size() * ns), "energy lost");
	c.nontrivial(loss > 1e-9 * P0);
}

LAW(quantum, 150, 3000, "photons: never a gain, the mean and the spread of the loss and of the spectrum as of the quantum theory, the same after the same seed")
{
	Silent quiet;
	double P0 = g.logu(1, 100), L = g.real(0.2, 5), B0 = g.slogu(0.01, 1), q = 1;
	double nph = photons(P0, B0, L, ME), uc = critical(P0, B0, ME);
	if(nph > 40 || uc > 1e-3 * P0)
		c.discard();
	bool spec = g.chance(2, 3);     // the exact spectrum
	SynchRadParticleProcess::SetPhotonGenerator(spec ? HBSpectrumGen : AWSpectrumGen);
	int seed = g.i(0, 100000), N = 3000;
	c.desc << "P0=" << P0 << " B=" << B0 << " L=" << L << " photons " << nph << " critical " << uc << (spec ? " exact" : " approximate")
		   << " seed " << seed;
	SectorBend bend("B", L, per_brho(P0) * B0, B0);
	std::vector<double> first;
	int none = 0;
	double s = 0, s2 = 0;
	for(int round = 0; round < 2; ++round)
	{
		RandomNG::init(seed);
		ElectronBunch b(P0, q);
		for(int i = 0; i < N; ++i)
			b.AddParticle(mk({0, 0, 0, 0, 0, 0}, i));
		SynchRadParticleProcess p(1, true);
		p.AdjustBunchReferenceEnergy(false);
		p.InitialiseProcess(b);
		pass(p, bend, c);
		c.eq(b.GetReferenceMomentum(), P0, "reference momentum");
		for(int i = 0; i < N; ++i)
		{
			double u = -b.GetParticles()[i].dp() * P0;
			c.check(u >= 0 && std::isfinite(u), "a particle gained energy");
			if(round)
				c.same(u, first[i], "loss of particle " + std::to_string(i) + " after the same seed");
			else
			{
				first.push_back(u);
				none += u == 0;
				s += u / uc;
				s2 += u / uc * u / uc;
			}
		}
	}
	SynchRadParticleProcess::SetPhotonGenerator(HBSpectrumGen);
	// compound Poisson distribution
	double m1 = moment(1), m2 = moment(2), m4 = moment(4);
	if(!spec)
	{
		// the approximation is one of a few per cent
		auto beta = [](double a, double b)
			{
				return std::tgamma(a) * std::tgamma(b) / std::tgamma(a + b);
			};
		m1 = 0.57 * beta(1 - 1.0 / 3, 1 + pi);
		m2 = 0.57 * 0.57 * beta(1 - 2.0 / 3, 1 + 2 * pi);
		c.near(m1, moment(1), 0.02, 0, "mean of the approximate spectrum");
	}
	double var = nph * m2;
	// the spectrum of the approximation falls only with the fourth power of the energy: allow for its largest photon
	double tail = spec ? 0 : 0.57 * std::cbrt(nph * N * 1e8) / N;
	c.near(s / N, nph * m1, 0, 7 * std::sqrt(var / N) + 1e-6 * nph + tail, "mean loss in critical energies");
	if(spec)
	{
		// the fourth moment of a compound Poisson variable about its mean: N m4 + 3 var^2
		double v = s2 / N - (s / N) * (s / N);
		c.near(v, var, 0, 7 * std::sqrt((nph * m4 + 2 * var * var) / N) + 1e-6 * var, "variance of the loss");
	}
	double e0 = std::exp(-nph);
	c.near(double(none) / N, e0, 0, 7 * std::sqrt(e0 * (1 - e0) / N) + 5.0 / N, "particles that do not radiate");
	c.nontrivial(nph > 0.1);
}

LAW(spectrum, 60, 1000, "the energies of the photons have the moments of the synchrotron radiation spectrum and scale with the critical energy")
{
	int seed = g.i(0, 100000), N = 20000;
	double uc = g.logu(1e-9, 1e-3);
	RandomNG::init(seed);
	c.desc << "seed " << seed << " critical " << uc;
	double s[4] = {0, 0, 0, 0};
	const double n[4] = {1.0 / 3, 0.5, 1, 2};
	double above = 0;
	for(int i = 0; i < N; ++i)
	{
		double u = HBSpectrumGen(uc) / uc;
		c.check(u >= 0 && std::isfinite(u) && u < 60, "energy of a photon");
		for(int k = 0; k < 4; ++k)
			s[k] += std::pow(u, n[k]);
		above += u > 1;
	}
	for(int k = 0; k < 4; ++k)
	{
		double m = moment(n[k]), v = moment(2 * n[k]) - m * m;
		c.near(s[k] / N, m, 0, 7 * std::sqrt(v / N), "moment " + std::to_string(n[k]));
	}
	c.eq(HBSpectrumGen(0), 0.0, "no critical energy");
	c.nontrivial(true);
}

namespace
{
typedef std::array<double, 3> V3;
V3 rotate(const V3& s, const V3& w, double L)
{
	double o = std::sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]);
	if(o == 0)
		return s;
	V3 n{w[0] / o, w[1] / o, w[2] / o};
	double C = std::cos(o * L), S = std::sin(o * L), d = n[0] * s[0] + n[1] * s[1] + n[2] * s[2];
	return {s[0] * C + (n[1] * s[2] - n[2] * s[1]) * S + n[0] * d * (1 - C), s[1] * C + (n[2] * s[0] - n[0] * s[2]) * S + n[1] * d * (1 - C),
		s[2] * C + (n[0] * s[1] - n[1] * s[0]) * S + n[2] * d * (1 - C)};
}
// field integrals in units of the magnetic rigidity of the particle, times L; h: curvature of the frame
V3 bmt(const V3& s, V3 k, double gamma, double L, double h)
{
	return rotate(s, {-(1 + GE * gamma) * k[0], -(1 + GE * gamma) * k[1] + h, -(1 + GE) * k[2]}, L);
}
V3 spin_at(SpinParticleBunch& b, int i)
{
	SpinVector& v = *(b.beginSpinArray() + i);
	return {v.x(), v.y(), v.z()};
}
V3 direction(Gen& g)
{
	switch(g.i(0, 4))
	{
	case 0:
		return {1, 0, 0};
	case 1:
		return {0, 1, 0};
	case 2:
		return {0, 0, 1};
	default:
		double z = g.sym(1), a = g.sym(pi), r = std::sqrt(1 - z * z);
		return {r * std::cos(a), r * std::sin(a), z};
	}
}
// the spin after a magnet, the particle stays where it is
V3 through(const Mag& m, V3 s, const V6& z, double brho, double gamma, int steps)
{
	double r = brho * (1 + z[5]), x = z[0], y = z[2];
	for(int k = 0; k < steps; ++k)
	{
		if(k == 0 && m.bend)
		{
			// curl free fringe field of the pole face
			double B0 = m.B0.real() * y / r;
			s = bmt(s, {-B0 * std::tan(m.e1), 0, B0}, gamma, 1, 0);
		}
		if(k == 0 && m.Bz != 0)
			s = bmt(s, {-m.Bz * x / 2 / r, -m.Bz * y / 2 / r, 0}, gamma, 1, 0);
		std::complex<double> B = m.field(x, y);
		s = bmt(s, {B.imag() / r, B.real() / r, m.Bz / r}, gamma, m.L / steps, m.h);
		if(k == steps - 1 && m.bend)
		{
			double B0 = m.B0.real() * y / r;
			s = bmt(s, {-B0 * std::tan(m.e2), 0, -B0}, gamma, 1, 0);
		}
		if(k == steps - 1 && m.Bz != 0)
			s = bmt(s, {m.Bz * x / 2 / r, m.Bz * y / 2 / r, 0}, gamma, 1, 0);
	}
	return s;
}
}

LAW(precession, 15000, 300000, "a magnet turns each spin as the Thomas-BMT equation does, keeps its length and leaves the particle alone")
{
	Silent quiet;
	double P0 = g.logu(0.1, 100), q = g.pick({1.0, 1.0, -1.0}), brho = q * P0 / (CLIGHT * 1e-9);
	Mag m = magnet(g, brho, "M", true);
	int steps = g.pick({1, 1, 2, 3, 10, g.i(1, 40)});
	SpinParticleBunch b(P0, q);
	std::vector<V6> in;
	std::vector<V3> spin;
	int n = g.len(1, 8);
	double ps = g.chance(1, 4) ? g.logu(0.1, 100) : 0;
	c.desc << "P0=" << P0 << " q=" << q << " spin momentum " << ps << " steps " << steps << " " << m.text();
	for(int i = 0; i < n; ++i)
	{
		in.push_back({g.coord(1e-3), g.coord(1e-3), g.coord(1e-3), g.coord(1e-3), g.coord(1e-2), g.coord(1e-2)});
		spin.push_back(direction(g));
		b.AddParticle(mk(in.back(), i), SpinVector(spin.back()[0], spin.back()[1], spin.back()[2]));
		c.desc << str(in.back()) << " ";
	}
	SpinParticleProcess p(1);
	p.SetNumComponentSteps(steps);
	if(ps > 0)
		p.SetSpinMomentum(ps);
	p.InitialiseProcess(b);
	pass(p, *m.c, c);
	bool turned = false;
	for(int i = 0; i < n; ++i)
	{
		for(int k = 0; k < 6; ++k)
			c.same(b.GetParticles()[i][k], in[i][k], "coordinates");
		V3 s = spin_at(b, i);
		c.near(s[0] * s[0] + s[1] * s[1] + s[2] * s[2], 1, 0, 1e-13 * (10 + steps), "length of the spin");
		double gamma = (ps > 0 ? ps : P0) * (1 + in[i][5]) / ME;
		V3 e = through(m, spin[i], in[i], brho, gamma, steps);
		// the angles are known to 1e-7
		double x = std::fabs(in[i][0]) + std::fabs(in[i][2]);
		double tol = 1e-11 + 1e-6 * (1 + GE * gamma)
			* (std::abs(m.field(in[i][0], in[i][2])) / std::fabs(brho) * m.L + std::fabs(m.Bz / brho) * (m.L + x) + std::fabs(m.B0 / brho) * x
			+ std::fabs(m.h) * m.L);
		for(int k = 0; k < 3; ++k)
		{
			c.near(s[k], e[k], 0, tol, "spin component " + std::to_string(k) + " of particle " + std::to_string(i));
			turned |= std::fabs(s[k] - spin[i][k]) > 1e-9;
		}
	}
	c.nontrivial(turned);
	c.label(steps > 1, "several steps");
	c.label(m.kind == "solenoid", "solenoid");
	c.label(m.bend, "bend");
}

namespace
{
// stops at the entrance, as collimation does, and within the element
struct Divider: public ParticleBunchProcess
{
	int n;
	double step = 1, s = 0;
	bool first = true;
	Divider(int prio, int k) : ParticleBunchProcess("DIVIDER", prio), n(k) {}
	void SetCurrentComponent(AcceleratorComponent& c) override
	{
		active = true;
		step = std::max(c.GetLength(), 1e-9) / n;
		first = true;
	}
	void DoProcess(double) override { first = false; }
	double GetMaxAllowedStepSize() const override { return first ? 0 : step; }
};
}

LAW(edges, 4000, 60000, "entrance and exit fields turn the spin once, however the steps are divided")
{
	Silent quiet;
	double P0 = g.logu(0.2, 20), q = g.pick({1.0, -1.0}), brho = q * P0 / (CLIGHT * 1e-9), gamma = P0 / ME;
	bool bend = g.b();
	double L = g.real(1e-5, 2e-5), x = g.sym(1e-3), y = g.sym(1e-3);
	// so short that only the edges matter
	double e1 = g.sym(0.5), e2 = -e1 + g.sym(0.3), B = g.sym(1.0) * brho;
	AcceleratorModelConstructor mc;
	mc.NewModel();
	Mag m;
	m.L = L;
	if(bend)
	{
		m.bend = true;
		m.h = B / brho;
		m.B0 = B;
		m.e1 = e1;
		m.e2 = e2;
		SectorBend* s = new SectorBend("B", L, m.h, B);
		s->SetPoleFaceInfo(new SectorBend::PoleFace(e1), new SectorBend::PoleFace(e2));
		mc.AppendComponent(*s);
	}
	else
	{
		m.Bz = B;
		mc.AppendComponent(*new Solenoid("S", L, B));
	}
	V3 s0 = direction(g);
	V6 z{x, 0, y, 0, 0, 0};
	std::unique_ptr<AcceleratorModel> model(mc.GetModel());
	SpinParticleBunch b(P0, q);
	b.AddParticle(mk(z), SpinVector(s0[0], s0[1], s0[2]));
	ParticleTracker t(model->GetBeamline());
	int steps = g.pick({1, 2, 3}), prio = g.i(0, 4), div = g.i(2, 5);
	t.AddProcess(new SpinParticleProcess(2, steps));
	if(g.chance(2, 3))
		t.AddProcess(new Divider(prio, div));
	c.desc << "P0=" << P0 << " q=" << q << (bend ? " bend" : " solenoid") << " B=" << B << " faces " << e1 << "," << e2 << " at " << x << "," << y
		   << " steps " << steps << " prio " << prio << " div " << div;
	t.Track(&b);
	V3 e = through(m, s0, z, brho, gamma, 1), o = spin_at(b, 0);
	// the particle moves a little, mostly by the second order terms of the pole faces
	double k = std::fabs(B / brho), tol = 1e-10 + (1 + GE * gamma) * k * ((1e-6 + 2e-5 * k) * (std::fabs(x) + std::fabs(y) + L) + 2 * k * (x * x + y * y) + 4 * L * k * 1e-3 + 2e-8);
	for(int i = 0; i < 3; ++i)
		c.near(o[i], e[i], 0, tol, "spin component " + std::to_string(i));
	c.nontrivial(k * (std::fabs(x) + std::fabs(y)) * (1 + GE * gamma) > 10 * tol);
}

LAW(spinline, 3000, 40000, "in a line the spin follows its particle: planar orbits turn it a*gamma times the bending angle, each orbit deflection 1+a*gamma times")
{
	Silent quiet;
	double P0 = g.logu(0.2, 20), q = g.pick({1.0, -1.0}), brho = q * P0 / (CLIGHT * 1e-9), gamma = P0 / ME;
	AcceleratorModelConstructor mc;
	mc.NewModel();
	int ne = g.i(1, 8), steps = g.pick({1, 1, 2, 5});
	double ang = 0, sol = 0, mag = 0;
	c.desc << "P0=" << P0 << " q=" << q << " steps " << steps << ": ";
	V3 s0 = direction(g), s = s0;
	for(int i = 0; i < ne; ++i)
	{
		double L = g.real(0.1, 4);
		std::string name = "E" + std::to_string(i);
		switch(g.i(0, 4))
		{
		case 0:
			mc.AppendComponent(*new Drift(name, L));
			break;
		case 1:
			mc.AppendComponent(*new Quadrupole(name, L, g.sym(1) * brho));
			break;
		case 2:
		{
			double k = g.sym(0.2) / L;
			sol += k * L;
			mc.AppendComponent(*new Solenoid(name, L, k * brho));
			s = bmt(s, {0, 0, k}, gamma, L, 0);
			mag += std::fabs(k * L);
			c.desc << "solenoid " << k * L << " ";
			break;
		}
		default:
		{
			double a = g.sym(0.5);
			mc.AppendComponent(*new SectorBend(name, L, a / L, a / L * brho));
			s = rotate(s, {0, -GE * gamma, 0}, a);
			ang += a;
			mag += std::fabs(a) * (1 + GE * gamma);
			c.desc << "bend " << a << " ";
		}
		}
	}
	std::unique_ptr<AcceleratorModel> m(mc.GetModel());
	SpinParticleBunch b(P0, q);
	b.AddParticle(mk({0, 0, 0, 0, 0, 0}), SpinVector(s0[0], s0[1], s0[2]));
	ParticleTracker t(m->GetBeamline());
	t.AddProcess(new SpinParticleProcess(2, steps));
	if(g.chance(1, 3))
	{
		t.AddProcess(new Divider(g.i(0, 4), g.i(2, 5)));
		c.desc << "divided ";
	}
	t.Track(&b);
	V3 e = spin_at(b, 0);
	for(int k = 0; k < 3; ++k)
		c.near(e[k], s[k], 0, 1e-11 + 1e-6 * mag, "spin component " + std::to_string(k));
	c.nontrivial(std::fabs(ang) + std::fabs(sol) > 1e-6);
}

LAW(spinbunch, 8000, 100000, "the spins stay with their particles: adding, erasing, clearing, sorting, transforming and the mean")
{
	Silent quiet;
	SpinParticleBunch b(1.0, 1.0);
	struct S
	{
		V6 v;
		V3 s;
	};
	std::vector<S> ref;
	int n = g.len(1, 30);
	bool rotated = false, sorted = false;
	for(int k = 0; k < n; ++k)
	{
		switch(g.i(0, 8))
		{
		case 8:
		{
			b.SortByCT();
			sorted |= ref.size() > 1;
			c.desc << "sort ";
			// the order of equal times is free
			std::vector<S> next;
			for(size_t i = 0; i < b.size(); ++i)
			{
				V6 w = un(b.GetParticles()[i]);
				if(i)
					c.check(w[4] >= next.back().v[4], "order of the particles");
				auto it = std::find_if(ref.begin(), ref.end(), [&](const S& e) { return e.v == w; });
				c.check(it != ref.end(), "particle of the sorted bunch");
				next.push_back(*it);
				ref.erase(it);
			}
			c.check(ref.empty(), "all particles kept");
			ref = next;
			break;
		}
		case 0:
		case 1:
		case 2:
		{
			S e{{g.sym(1e-3), g.sym(1e-3), g.sym(1e-3), g.sym(1e-3), g.sym(1e-3), g.sym(1e-3)}, direction(g)};
			b.AddParticle(mk(e.v), SpinVector(e.s[0], e.s[1], e.s[2]));
			ref.push_back(e);
			c.desc << "add ";
			break;
		}
		case 3:
		{
			S e{{g.sym(1e-3), 0, 0, 0, 0, 0}, {0, 0, 1}};
			if(g.b())
				b.AddParticle(mk(e.v));
			else
				b.push_back(mk(e.v));
			ref.push_back(e);
			c.desc << "push ";
			break;
		}
		case 4:
			if(!ref.empty())
			{
				size_t i = g.raw(ref.size() - 1);
				b.erase(b.begin() + i);
				ref.erase(ref.begin() + i);
				c.desc << "erase " << i << " ";
			}
			break;
		case 5:
			if(g.chance(1, 2))
			{
				ParticleBunch& base = b;
				base.clear();
				ref.clear();
				c.desc << "clear ";
			}
			break;
		default:
		{
			// a rotation about the axis turns spin and position alike
			double a = g.sym(pi);
			b.ApplyTransformation(Transform3D(Point3D(0, 0, 0), Rotation3D::rotationZ(a)));
			rotated |= !ref.empty();
			c.desc << "rotate " << a << " ";
			double C = 0, D = 0;
			bool have = false;
			for(size_t i = 0; i < ref.size(); ++i)
			{
				V6& v = ref[i].v;
				double r2 = v[0] * v[0] + v[2] * v[2];
				V6 w = un(b.GetParticles()[i]);
				if(r2 > 1e-10)
				{
					// the rotation that the position has made
					C = (v[0] * w[0] + v[2] * w[2]) / r2;
					D = (v[0] * w[2] - v[2] * w[0]) / r2;
					have = true;
				}
				v = w;
			}
			if(have)
			{
				c.near(C * C + D * D, 1, 1e-9, 0, "rotation");
				for(auto& e : ref)
					e.s = {C * e.s[0] - D * e.s[1], D * e.s[0] + C * e.s[1], e.s[2]};
			}
			else
				for(size_t i = 0; i < ref.size() && i < size_t(b.endSpinArray() - b.beginSpinArray()); ++i)
					ref[i].s = spin_at(b, i);
		}
		}
		c.eq(b.size(), ref.size(), "particles");
		c.eq(size_t(b.endSpinArray() - b.beginSpinArray()), ref.size(), "spins");
		V3 mean{0, 0, 0};
		for(size_t i = 0; i < ref.size(); ++i)
		{
			V3 s = spin_at(b, i);
			for(int j = 0; j < 3; ++j)
			{
				c.near(s[j], ref[i].s[j], 0, 1e-9, "spin of particle " + std::to_string(i));
				mean[j] += s[j] / ref.size();
			}
			for(int j = 0; j < 6; ++j)
				c.near(b.GetParticles()[i][j], ref[i].v[j], 0, 1e-15, "particle " + std::to_string(i));
		}
		if(!ref.empty())
		{
			SpinVector a = b.GetAverageSpin();
			c.near(a.x(), mean[0], 0, 1e-12, "mean spin");
			c.near(a.y(), mean[1], 0, 1e-12, "mean spin");
			c.near(a.z(), mean[2], 0, 1e-12, "mean spin");
		}
	}
	c.nontrivial(rotated);
	c.label(sorted, "sorted");
}
