// P01: magnet and drift tracking maps are symplectic.
#include "mlib.h"
using namespace ml;

pbt::Info pbt::info = {"P01",
	"Elements of every kind (thick and thin, with additional multipole components, pole faces, tilts) with random strength, "
	"length, charge sign and momentum, and particles of the paraxial acceptance. Non-trivial: the particle is off axis and "
	"the element is not a marker.",
	"Jacobians are central differences; canonical coordinates are (x,px,y,py,ct,dp) in the SYMPLECTIC set and slopes at "
	"fixed momentum in the THIN_LENS and TRANSPORT sets. THIN_LENS maps are linear in dp, hence symplectic at dp=0; "
	"TRANSPORT maps are quadratic, hence symplectic to second order."};

namespace
{
struct EFSet: public ISetBase
{
	void Init(TBunchCMPTracker<ParticleBunch>& ct) const
	{
		iset(SYMP_SET).Init(ct);
		ct.Register(new ParticleTracking::SYMPLECTIC::SectorBendCI_ef);
	}
};
V6 track_ef(AcceleratorComponent& c, double P0, double q, const V6& v)
{
	static EFSet set;
	ParticleBunch b(P0, q);
	b.AddParticle(mk(v));
	ParticleComponentTracker t(set);
	t.SetBunch(b);
	c.PrepareTracker(t);
	t.Track();
	return un(b.GetParticles()[0]);
}
const std::initializer_list<std::string> magnets = {"drift", "quad", "skewquad", "sext", "skewsext", "oct", "deca", "xcor",
													"ycor", "bend", "bend", "bend"};
const V6 H{2e-6, 2e-6, 2e-6, 2e-6, 2e-6, 2e-6};
// fourth-order central difference Jacobian
template<class F> M6 jac(F f, const V6& at)
{
	M6 A = jacobian(f, at, H), B = jacobian(f, at, V6{4e-6, 4e-6, 4e-6, 4e-6, 4e-6, 4e-6});
	for(int i = 0; i < 6; ++i)
		for(int j = 0; j < 6; ++j)
			A[i][j] = (4 * A[i][j] - B[i][j]) / 3;
	return A;
}
void verify(Ctx& c, const M6& J, int n, const std::string& what, double noise = 0)
{
	double w = norm(J);
	c.near(symplectic_error(J, n), 0, 0, (3e-8 + noise) * (1 + w) * (1 + w), what + ": symplectic condition, |J|=" + std::to_string(w));
}
}

LAW(symplectic_set, 20000, 300000, "6D Jacobians of the SYMPLECTIC set are symplectic at every particle")
{
	double P0 = beam_momentum(g), q = charge(g);
	ElOpts o;
	o.thin = true;
	std::string k = g.pick(magnets);
	auto e = element(g, P0, q, k, o);
	bool ef = k == "bend" && g.b();
	V6 v = particle(g, 3e-3, 1e-2);
	double Pb = k == "bend" && g.chance(1, 5) ? P0 * (1 + g.sym(0.02)) : P0;
	c.desc << (ef ? "EF " : "") << e->text() << " P0=" << P0 << " bunch " << Pb << " q=" << q << " " << str(v);
	c.label(k);
	c.nontrivial(v[0] != 0 && v[1] != 0 && v[2] != 0 && v[3] != 0);
	M6 J = jac([&](const V6& a) {
			return ef ? track_ef(*e->c, Pb, q, a) : track1(SYMP_SET, *e->c, Pb, q, a);
		}, v);
	double noise = ef && e->h ? 4e-10 / std::fabs(e->h) : 0;   // rounding errors of radius-sized coordinates
	if(k == "bend" && e->B.size() > 1)
	{
		double j1 = std::fabs(e->h * e->h + q * per_brho(P0) * e->B[1].real());
		noise += 1e-9 * e->h * e->h * e->L / std::max(j1, 1e-9 / e->L / e->L);   // gradient cancels weak focusing
	}
	verify(c, J, 6, k, noise);
}

LAW(solenoid, 3000, 40000, "solenoids and monitors are symplectic at every particle of fixed momentum, in every set")
{
	double P0 = beam_momentum(g), q = charge(g);
	Set set = (Set) g.i(0, 2);
	std::string k = g.pick({"solenoid", "solenoid", "solenoid", "bpm", "marker"});
	auto e = element(g, P0, q, k);
	V6 v = particle(g, 3e-3, 1e-2);
	c.desc << setname(set) << " " << e->text() << " P0=" << P0 << " q=" << q << " " << str(v);
	c.nontrivial(e->Bz != 0);
	M6 J = jac([&](const V6& a) {
			return track1(set, *e->c, P0, q, a);
		}, v);
	verify(c, J, 4, k);
}

LAW(thin_lens, 8000, 100000, "THIN_LENS maps are symplectic at every on-momentum particle")
{
	double P0 = beam_momentum(g), q = charge(g);
	ElOpts o;
	o.thin = true;
	std::string k = g.pick(magnets);
	auto e = element(g, P0, q, k, o);
	V6 v = particle(g, 3e-3, 0);
	v[5] = 0;
	c.desc << e->text() << " P0=" << P0 << " q=" << q << " " << str(v);
	c.label(k);
	c.nontrivial(v[0] != 0 && v[2] != 0);
	M6 J = jac([&](const V6& a) {
			return track1(THIN_SET, *e->c, P0, q, a);
		}, v);
	verify(c, J, 4, k);
}

LAW(transport, 8000, 100000, "TRANSPORT maps are symplectic to second order in the coordinates")
{
	double P0 = beam_momentum(g), q = charge(g);
	ElOpts o;
	o.thin = true;
	std::string k = g.pick(magnets);
	auto e = element(g, P0, q, k, o);
	c.desc << e->text() << " P0=" << P0 << " q=" << q;
	c.label(k);
	auto f = [&](const V6& a)
		{
			return track1(TRANSPORT_SET, *e->c, P0, q, a);
		};
	bool kicked = k != "bend" && std::abs(e->B.empty() ? 0 : e->B[0]) != 0;
	if(!kicked)
		verify(c, jac(f, V6{}), k == "bend" ? 6 : 4, k + " on axis");
	// derivative of the Jacobian along a transverse direction
	if(kicked || (k == "bend" && e->B.size() > 2))
		return;   // the kick in the centre is off axis for the second half
	V6 u{};
	for(int i = 0; i < 4; ++i)
		u[i] = g.sym(1);
	c.desc << " direction " << str(u);
	c.nontrivial(u[0] != 0 && u[2] != 0);
	const double a = 1e-5;
	V6 p, m;
	for(int i = 0; i < 6; ++i)
	{
		p[i] = a * u[i];
		m[i] = -p[i];
	}
	M6 P = jac(f, p), M = jac(f, m), Z = jac(f, V6{});
	double scale = 0, worst = 0;
	for(int i = 0; i < 4; ++i)
		for(int j = 0; j < 4; ++j)
		{
			P[i][j] = (P[i][j] - M[i][j]) / 2 / a;
			scale = std::max(scale, std::fabs(P[i][j]));
		}
	for(int i = 0; i < 4; ++i)
		for(int j = 0; j < 4; ++j)
		{
			double s = 0;
			for(int l = 0; l < 4; l += 2)
				s += Z[l][i] * P[l + 1][j] - Z[l + 1][i] * P[l][j] + P[l][i] * Z[l + 1][j] - P[l + 1][i] * Z[l][j];
			worst = std::max(worst, std::fabs(s));
		}
	// the fringe field integral corrects the linear edge focusing only
	double phi = 2 * std::fabs(e->h) * (e->fint1 * e->gap1 + e->fint2 * e->gap2);
	c.near(worst, 0, 0, 1e-5 * (1 + norm(Z)) * (1 + scale) + e->h * e->h * phi * (1 + norm(Z)), k + ": second order symplectic condition");
}

LAW(line, 1500, 20000, "a whole line of symplectic elements is symplectic")
{
	double P0 = beam_momentum(g), q = charge(g);
	ElOpts o;
	o.thin = true;
	o.maxk1 = 0.4;
	std::vector<std::unique_ptr<El> > line;
	int n = g.i(2, 8);
	for(int i = 0; i < n; ++i)
	{
		line.push_back(element(g, P0, q, g.pick(magnets), o));
		c.desc << line.back()->text() << "; ";
	}
	V6 v = particle(g, 1e-4, 1e-3);
	c.desc << " P0=" << P0 << " q=" << q << " " << str(v);
	c.nontrivial(true);
	M6 J = jac([&](V6 a) {
			for(auto& e : line)
				a = track1(SYMP_SET, *e->c, P0, q, a);
			return a;
		}, v);
	double w = norm(J);
	if(!(w < 1e3))
		c.discard();
	c.near(symplectic_error(J, 6), 0, 0, 1e-7 * (1 + w) * (1 + w) * (1 + w), "symplectic condition of the line");
}
