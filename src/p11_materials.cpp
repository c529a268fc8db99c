// P11: material properties, copies, mixtures.
#include "pbt.h"
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include "MaterialData.h"
#include "MaterialProperties.h"
#include "RandomNG.h"
#include "MerlinException.h"
using namespace pbt;

pbt::Info pbt::info = {"P11",
	"Histories of definitions, copies, assignments, changes and energy scalings of up to six materials with arbitrary positive "
	"constants and extra properties; mixtures by number and by weight of 1 to 6 components, in both calling forms, any scale of the "
	"proportions, any order. Non-trivial: a copy or assignment followed by a change; a mixture of two or more components.",
	"Constants of the standard materials that are tabulated as -1 (unknown) are not judged."};

namespace
{
struct Quiet
{
	std::ostringstream sink;
	std::streambuf* old;
	Quiet() : old(std::cout.rdbuf(sink.rdbuf())) {}
	~Quiet() { std::cout.rdbuf(old); }
};
// A sigma_T sigma_I sigma_R dEdx X0 density Z
struct Model
{
	double v[8];
	double lambda;
	double more[2];      // sigma_E, sigma_D
	bool hasMore;
	std::map<std::string, double> extra;
	void update()
	{
		lambda = v[0] * 1e-3 / ((v[1] + v[3]) * v[6] * 1e-28 * 6.022e23);
	}
};
const char* const names[] = {"A", "sigma_T", "sigma_I", "sigma_R", "dEdx", "X0", "density", "Z"};
double& field(MaterialProperties& m, int i)
{
	switch(i)
	{
	case 0: return m.A;
	case 1: return m.sigma_T;
	case 2: return m.sigma_I;
	case 3: return m.sigma_R;
	case 4: return m.dEdx;
	case 5: return m.X0;
	case 6: return m.density;
	default: return m.Z;
	}
}
Model random_model(Gen& g)
{
	Model m;
	m.v[0] = g.real(1, 240);
	m.v[1] = g.logu(0.05, 5);
	m.v[2] = m.v[1] * g.real(0.3, 0.9);
	m.v[3] = g.logu(1e-5, 0.1);
	m.v[4] = g.logu(0.1, 10);
	m.v[5] = g.logu(1, 100);
	m.v[6] = g.logu(0.1, 25000);
	m.v[7] = g.i(1, 94);
	m.hasMore = false;
	m.update();
	return m;
}
std::unique_ptr<MaterialProperties> make(const Model& m)
{
	return std::unique_ptr<MaterialProperties>(new MaterialProperties(m.v[0], m.v[1], m.v[2], m.v[3], m.v[4], m.v[5], m.v[6], m.v[7]));
}
void compare(Ctx& c, MaterialProperties& p, const Model& m, const std::string& w)
{
	for(int i = 0; i < 8; ++i)
		c.eq(field(p, i), m.v[i], w + " " + names[i]);
	c.near(p.lambda, m.lambda, 1e-13, 0, w + " mean free path");
	if(m.hasMore)
	{
		c.eq(p.sigma_E, m.more[0], w + " sigma_E");
		c.eq(p.sigma_D, m.more[1], w + " sigma_D");
	}
	for(auto e : {"a", "conductivity", "MeanExcitationEnergy", "x1"})
	{
		auto i = m.extra.find(e);
		c.eq(p.HaveExtra(e), i != m.extra.end(), w + " has " + e);
		if(i == m.extra.end())
			c.eq(p.GetExtra(e), 0.0, w + " missing " + e);
		if(i != m.extra.end())
			c.eq(p.GetExtra(e), i->second, w + " " + e);
	}
	c.eq(p.A_H(), m.v[0], w + " nucleus");
	c.eq(p.A_R(), m.v[0], w + " nucleus");
}
}

LAW(history, 20000, 800000, "materials hold what they were given; copies are equal and independent")
{
	std::vector<std::unique_ptr<MaterialProperties> > p;
	std::vector<Model> m;
	int n = g.i(1, 25);
	bool copied = false, changed = false;
	for(int k = 0; k < n; ++k)
	{
		int op = p.empty() ? g.i(0, 1) : g.i(0, 9);
		size_t a = p.empty() ? 0 : g.raw(p.size() - 1), b = p.empty() ? 0 : g.raw(p.size() - 1);
		c.desc << op << "(" << a << "," << b << ") ";
		if(p.size() >= 6 && (op <= 2 || op == 8))
			op = 3;
		switch(op)
		{
		case 0:
			m.push_back(random_model(g));
			p.push_back(make(m.back()));
			break;
		case 1:
		{
			Model z;
			std::fill(z.v, z.v + 8, 0.0);
			z.lambda = 0;
			z.hasMore = false;
			m.push_back(z);
			p.emplace_back(new MaterialProperties);
			c.label("default");
			break;
		}
		case 2:
			p.emplace_back(new MaterialProperties(*p[a]));
			m.push_back(Model(m[a]));
			copied = true;
			c.label("copy");
			break;
		case 3:
			*p[a] = *p[b];
			if(a != b)
				m[a] = Model(m[b]);
			copied = true;
			c.label(a == b ? "self-assignment" : "assignment");
			break;
		case 4:
		{
			int i = g.i(0, 7);
			double x = g.logu(0.1, 100);
			field(*p[a], i) = m[a].v[i] = x;
			changed = changed || copied;
			break;
		}
		case 5:
			if(m[a].v[6] > 0 && m[a].v[1] + m[a].v[3] > 0)
			{
				p[a]->Update();
				m[a].update();
			}
			break;
		case 6:
		{
			double x = g.slogu(1e-6, 1e8), y = g.slogu(1e-6, 1e8);
			switch(g.i(0, 2))
			{
			case 0:
				p[a]->SetExtra("a", x);
				m[a].extra["a"] = x;
				break;
			case 1:
				p[a]->SetExtra("conductivity  MeanExcitationEnergy", x, y);
				m[a].extra["conductivity"] = x;
				m[a].extra["MeanExcitationEnergy"] = y;
				break;
			default:
				p[a]->SetExtra("x1 a x1", x, 2., y);
				m[a].extra["x1"] = y;
				m[a].extra["a"] = 2;
			}
			changed = changed || copied;
			break;
		}
		case 7:
			p.erase(p.begin() + a);
			m.erase(m.begin() + a);
			break;
		case 8:
			if(m[a].v[6] > 0 && m[a].v[1] + m[a].v[3] > 0)
			{
				p.emplace_back(p[a]->EnergyScale(g.logu(1, 7000)));
				Model s = m[a];
				s.update();
				m.push_back(s);
				c.label("energy scale");
			}
			break;
		default:
			p[a]->sigma_E = m[a].more[0] = g.real(0, 3);
			p[a]->sigma_D = m[a].more[1] = g.real(0, 3);
			m[a].hasMore = true;
		}
		for(size_t i = 0; i < p.size(); ++i)
			compare(c, *p[i], m[i], "after step " + std::to_string(k) + " material " + std::to_string(i));
	}
	c.nontrivial(changed);
}

LAW(mixture, 20000, 500000, "a mixture has the weighted averages of its components")
{
	MaterialData d;
	int n = g.i(1, 6);
	std::vector<Model> m;
	std::vector<double> w;
	std::vector<int> pick;
	for(int i = 0; i < n; ++i)
	{
		m.push_back(random_model(g));
		d.property["M" + std::to_string(i)] = make(m.back()).release();
	}
	int k = g.i(1, n);
	std::vector<int> all;
	for(int i = 0; i < n; ++i)
		all.push_back(i);
	double scale = g.pick({1.0, 100.0, 1e-3});
	for(int i = 0; i < k; ++i)
	{
		int j = g.raw(all.size() - 1);
		pick.push_back(all[j]);
		all.erase(all.begin() + j);
		w.push_back(scale * (g.chance(1, 6) ? 1 : g.logu(0.01, 1)));
	}
	bool weight = g.b(), form = g.b() || k > 3;
	double rho = g.logu(0.1, 25000);
	auto build = [&](const std::string& name, const std::vector<int>& e, const std::vector<double>& w)
	{
		std::string s;
		for(int i : e)
			s += (s.empty() ? "M" : " M") + std::to_string(i);
		if(form)
			weight ? d.MakeMixtureByWeight(name, s, w, rho) : d.MakeMixture(name, s, w, rho);
		else if(weight)
			k == 1 ? d.MakeMixtureByWeight(name, s, w[0], rho) : k == 2 ? d.MakeMixtureByWeight(name, s, w[0], w[1], rho) : d.MakeMixtureByWeight(name, s, w[0], w[1], w[2], rho);
		else
			k == 1 ? d.MakeMixture(name, s, w[0], rho) : k == 2 ? d.MakeMixture(name, s, w[0], w[1], rho) : d.MakeMixture(name, s, w[0], w[1], w[2], rho);
		return d.property[name];
	};
	c.nontrivial(k > 1);
	c.label(weight ? "by weight" : "by number");
	c.label(form ? "vector" : "variadic");
	c.desc << (weight ? "by weight" : "by number");
	for(int i = 0; i < k; ++i)
		c.desc << " M" << pick[i] << " A=" << m[pick[i]].v[0] << " w=" << w[i];
	MaterialProperties* x = build("mix", pick, w);
	// number fractions
	std::vector<double> f(w);
	double sum = 0, suma = 0;
	for(int i = 0; i < k; ++i)
	{
		if(weight)
			f[i] /= m[pick[i]].v[0];
		sum += f[i];
		suma += f[i] * m[pick[i]].v[0];
	}
	double e[8] = {0}, rx = 0;
	for(int i = 0; i < k; ++i)
	{
		const Model& q = m[pick[i]];
		for(int j : {0, 1, 2, 3, 7})
			e[j] += q.v[j] * f[i] / sum;
		e[4] += q.v[4] * f[i] * q.v[0] / suma;
		rx += 1 / q.v[5] * f[i] * q.v[0] / suma;
	}
	e[5] = 1 / rx;
	e[6] = rho;
	for(int j = 0; j < 8; ++j)
		c.near(field(*x, j), e[j], 2e-6, 0, std::string("mixture ") + names[j]);
	c.near(x->lambda, e[0] * 1e-3 / ((e[1] + e[3]) * rho * 1e-28 * 6.022e23), 2e-6, 0, "mixture mean free path");
	c.check(!x->HaveExtra("conductivity"), "a new mixture has no extra properties");
	x->SetExtra("conductivity", 3.5);
	c.eq(x->GetExtra("conductivity"), 3.5, "extra property of a mixture");
	// order and scale do not matter
	{
		std::vector<int> pk(pick);
		std::vector<double> pw(w);
		for(int i = k - 1; i > 0; --i)
		{
			int j = g.raw(i);
			std::swap(pk[i], pk[j]);
			std::swap(pw[i], pw[j]);
		}
		double s = g.pick({1.0, 2.0, 1e3});
		for(double& q : pw)
			q *= s;
		MaterialProperties* y = build("mix2", pk, pw);
		for(int j = 0; j < 8; ++j)
			c.near(field(*y, j), field(*x, j), 2e-6, 0, std::string("order of components: ") + names[j]);
	}
	// struck nuclei
	if(g.chance(1, 4))
	{
		RandomNG::init(g.raw(1000000));
		const int N = 4000;
		std::map<double, double> ph, pr, nh, nr;
		double sh = 0, sr = 0;
		for(int i = 0; i < k; ++i)
		{
			const Model& q = m[pick[i]];
			sh += f[i] * q.v[1];
			sr += f[i] * q.v[3];
			ph[q.v[0]] += f[i] * q.v[1];
			pr[q.v[0]] += f[i] * q.v[3];
		}
		for(int i = 0; i < N; ++i)
		{
			++nh[x->A_H()];
			++nr[x->A_R()];
		}
		for(int t = 0; t < 2; ++t)
		{
			auto& pp = t ? pr : ph;
			auto& nn = t ? nr : nh;
			double tot = t ? sr : sh;
			for(auto& o : nn)
				c.check(pp.count(o.first), "the nucleus struck is one of the components");
			for(auto& o : pp)
			{
				double pe = o.second / tot, sd = std::sqrt(N * pe * (1 - pe)) + 1;
				std::ostringstream s;
				s << (t ? "Rutherford" : "nuclear") << " scattering on A=" << o.first << ": " << nn[o.first] << " of " << N << ", share of the cross section " << pe;
				c.check(std::fabs(nn[o.first] - N * pe) < 7 * sd + N * 1e-5, s.str());
			}
		}
		c.label("nuclei");
	}
	// misuse
	if(g.chance(1, 6))
	{
		auto count = d.property.size();
		bool thrown = false;
		try
		{
			std::vector<double> v{1, 2, 3};
			int what = g.i(0, 3);
			if(what == 0)
				d.MakeMixture("bad", "M0", v, 1);
			else if(what == 1)
				d.MakeMixture("bad", "M0 nosuch", {1, 2}, 1);
			else if(what == 2)
				d.MakeMixtureByWeight("bad", "M0", v, 1);
			else
				d.MakeMixtureByWeight("bad", "M0 nosuch", {1, 2}, 1);
		}
		catch(std::exception&)
		{
			thrown = true;
		}
		c.check(thrown, "a mixture that cannot be made is reported");
		c.check(d.property.size() == count && !d.property.count("bad"), "a mixture that cannot be made is not defined");
		c.label("misuse");
	}
	std::ostringstream all_text;
	{
		Quiet q;
		all_text << &d;
	}
	for(auto& q : d.property)
		c.check(all_text.str().find(q.first + " ") != std::string::npos, "the table of materials names " + q.first);
}

LAW(standard, 200, 2000, "the standard materials have consistent derived quantities, whichever set is in use")
{
	StandardMaterialData d;
	c.nontrivial(true);
	bool six = g.b();
	if(six)
		d.UseSixTrackValues();
	c.label(six ? "sixtrack" : "standard");
	for(auto& q : d.property)
	{
		MaterialProperties& p = *q.second;
		c.check(p.A > 0 && p.Z > 0 && p.density > 0, q.first + " A, Z and density");
		c.near(p.lambda, p.A * 1e-3 / ((p.sigma_T + p.sigma_R) * p.density * 1e-28 * 6.022e23), 1e-12, 0, "mean free path of " + q.first);
	}
	struct Row { const char* n; double A, Z, T, I, R; };
	for(Row r : {Row{"Al", 26.9815, 13, 0.634, 0.421, 0.00034}, Row{"Be", 9.01218, 4, 0.268, 0.199, 0.000035}, Row{"C", 12.011, 6, 0.331, 0.231, 0.000076},
			Row{"Cu", 63.546, 29, 1.232, 0.782, 0.00153}, Row{"Pb", 207.2, 82, 2.96, 1.71, 0.00907}, Row{"W", 183.84, 74, 2.767, 1.65, 0.00768},
			Row{"AC150K", 12.011, 6, 0.331, 0.231, 0.000076}})
	{
		MaterialProperties& p = *d.property.at(r.n);
		c.near(p.A, r.A, 1e-12, 0, std::string(r.n) + " A");
		c.near(p.Z, r.Z, 1e-12, 0, std::string(r.n) + " Z");
		c.near(p.sigma_T, r.T, 1e-12, 0, std::string(r.n) + " total cross section");
		c.near(p.sigma_I, r.I, 1e-12, 0, std::string(r.n) + " inelastic cross section");
		c.near(p.sigma_R, r.R, 1e-12, 0, std::string(r.n) + " Rutherford cross section");
	}
	// a material taken from the library and changed does not change the library
	std::string n = g.pick(std::vector<std::string>{"C", "Cu", "W", "AC150K", "Glidcop"});
	MaterialProperties copy(*d.property[n]);
	double rho = d.property[n]->density;
	copy.density *= 2;
	copy.Update();
	copy.SetExtra("conductivity", 1.0);
	c.eq(d.property[n]->density, rho, "the library keeps its density");
	c.near(copy.lambda, d.property[n]->lambda / 2, 1e-12, 0, "mean free path of the changed copy");
	if(n == "C" || n == "Cu" || n == "W" || n == "Glidcop")
		c.check(d.property[n]->GetExtra("conductivity") > 1.5, "the library keeps its conductivity");
}
