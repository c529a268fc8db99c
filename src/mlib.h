// mlib.h - shared generators and reference models for the tracking checks.
#ifndef MLIB_H
#define MLIB_H
#include "pbt.h"
#include <array>
#include <memory>
#include "Components.h"
#include "Monitor.h"
#include "BPM.h"
#include "RMSProfileMonitor.h"
#include "ParticleBunch.h"
#include "ParticleBunchTypes.h"
#include "ParticleTracker.h"
#include "ParticleComponentTracker.h"
#include "StdIntegrators.h"
#include "SymplecticIntegrators.h"
#include "PhysicalConstants.h"
#include "PhysicalUnits.h"
#include "MultipoleField.h"

namespace ml
{
using namespace ParticleTracking;
using pbt::Gen;
using pbt::Ctx;
typedef std::array<double, 6> V6;
typedef std::array<V6, 6> M6;

// q*c/P : field to curvature, from first principles (P in GeV, B in tesla, c in m/s)
const double CLIGHT = 299792458.0;
inline double per_brho(double P0)
{
	return CLIGHT * 1e-9 / P0;
}

inline PSvector mk(const V6& v, int64_t id = 0)
{
	PSvector p(0);
	for(int i = 0; i < 6; ++i)
		p[i] = v[i];
	p.id() = id;
	return p;
}
inline V6 un(const PSvector& p)
{
	V6 v;
	for(int i = 0; i < 6; ++i)
		v[i] = p[i];
	return v;
}
inline std::string str(const V6& v)
{
	std::ostringstream s;
	s.precision(10);
	s << "(";
	for(int i = 0; i < 6; ++i)
		s << (i ? "," : "") << v[i];
	s << ")";
	return s.str();
}

enum Set { TRANSPORT_SET, THIN_SET, SYMP_SET };
inline const char* setname(Set s)
{
	return s == TRANSPORT_SET ? "TRANSPORT" : s == THIN_SET ? "THIN_LENS" : "SYMPLECTIC";
}
typedef ParticleComponentTracker::ISetBase ISetBase;
inline const ISetBase& iset(Set s)
{
	static ParticleTracking::TRANSPORT::StdISet t;
	static ParticleTracking::THIN_LENS::StdISet h;
	static ParticleTracking::SYMPLECTIC::StdISet y;
	return s == TRANSPORT_SET ? static_cast<const ISetBase&>(t) : s == THIN_SET ? static_cast<const ISetBase&>(h) : y;
}
// track a bunch through a component, in steps if given (the last step is whatever remains)
inline void track(Set s, AcceleratorComponent& c, ParticleBunch& b, const std::vector<double>& steps = {})
{
	ParticleComponentTracker t(iset(s));
	t.SetBunch(b);
	c.PrepareTracker(t);
	if(steps.empty())
	{
		t.Track();
		return;
	}
	for(double ds : steps)
		t.TrackStep(ds);
	// as the step manager does: rounding may leave a rest of the size of the precision
	for(int k = 0; k < 3 && t.GetRemainingLength() != 0; ++k)
		t.TrackStep(t.GetRemainingLength());
}
inline V6 track1(Set s, AcceleratorComponent& c, double P0, double q, const V6& v, const std::vector<double>& steps = {})
{
	ParticleBunch b(P0, q);
	b.AddParticle(mk(v));
	track(s, c, b, steps);
	return un(b.GetParticles()[0]);
}
template<class F> M6 jacobian(F f, const V6& at, const V6& h)
{
	M6 J;
	for(int j = 0; j < 6; ++j)
	{
		V6 a = at, b = at;
		a[j] += h[j];
		b[j] -= h[j];
		V6 fa = f(a), fb = f(b);
		for(int i = 0; i < 6; ++i)
			J[i][j] = (fa[i] - fb[i]) / (a[j] - b[j]);
	}
	return J;
}
inline M6 mul(const M6& A, const M6& B)
{
	M6 C;
	for(int i = 0; i < 6; ++i)
		for(int j = 0; j < 6; ++j)
		{
			double s = 0;
			for(int k = 0; k < 6; ++k)
				s += A[i][k] * B[k][j];
			C[i][j] = s;
		}
	return C;
}
inline M6 unit6()
{
	M6 A;
	for(int i = 0; i < 6; ++i)
		for(int j = 0; j < 6; ++j)
			A[i][j] = i == j;
	return A;
}
// largest element of M^T J M - J over the first n coordinates, J with (q,p) pairs
inline double symplectic_error(const M6& M, int n)
{
	double worst = 0;
	for(int a = 0; a < n; ++a)
		for(int b = 0; b < n; ++b)
		{
			double s = 0;
			for(int k = 0; k < n; k += 2)
				s += M[k][a] * M[k + 1][b] - M[k + 1][a] * M[k][b];
			double e = (a / 2 == b / 2 && a != b) ? (a < b ? 1 : -1) : 0;
			worst = std::max(worst, std::fabs(s - e));
		}
	return worst;
}
inline double norm(const M6& M)
{
	double w = 0;
	for(auto& r : M)
		for(double x : r)
			w = std::max(w, std::fabs(x));
	return w;
}

// An element as generated: the component and the field that it contains
struct El
{
	std::string kind;
	std::unique_ptr<AcceleratorComponent> c;
	double L = 0, h = 0, tilt = 0, Bz = 0;
	std::vector<std::complex<double> > B;   // multipole field: By + i Bx = sum B[n] (x+iy)^n
	bool face1 = false, face2 = false;
	double rot1 = 0, fint1 = 0, gap1 = 0, rot2 = 0, fint2 = 0, gap2 = 0;
	std::string text() const
	{
		std::ostringstream s;
		s.precision(8);
		s << kind << " L=" << L;
		if(h)
			s << " h=" << h;
		if(tilt)
			s << " tilt=" << tilt;
		if(Bz)
			s << " Bz=" << Bz;
		for(size_t n = 0; n < B.size(); ++n)
			if(B[n] != 0.0)
				s << " B" << n << "=" << B[n].real() << "+i" << B[n].imag();
		if(face1)
			s << " e1=" << rot1 << "/" << fint1 << "/" << gap1;
		if(face2)
			s << " e2=" << rot2 << "/" << fint2 << "/" << gap2;
		return s.str();
	}
};

struct ElOpts
{
	bool thin = false;        // allow zero-length kicks
	bool skew = true;
	bool extra = true;        // additional multipole components
	bool faces = true;
	bool tilt = true;
	double maxang = 0.3;
	double maxk1 = 1.0;       // 1/m^2
	bool special = true;      // field indices where expressions of the map degenerate
};

inline double beam_momentum(Gen& g)
{
	switch(g.raw(3))
	{
	case 0:
		return 1.0;
	case 1:
		return g.logu(0.1, 7000);
	default:
		return g.pick({7000.0, 450.0, 45.0, 5.0, 0.5});
	}
}
inline double charge(Gen& g)
{
	return g.b() ? -1.0 : 1.0;
}
// a length that has a full significand now and then
inline double length(Gen& g, double lo, double hi)
{
	return g.chance(1, 4) ? 0.25 * std::max(1.0, std::floor(hi * 4 * g.unit())) : g.real(lo, hi);
}

// n-th derivative style strength Kn (1/m^(n+1)) -> B[n]=Kn*brho/n!
inline double fact(int n)
{
	return n <= 1 ? 1 : n * fact(n - 1);
}

inline std::unique_ptr<El> element(Gen& g, double P0, double q, const std::string& kind, const ElOpts& o = ElOpts())
{
	std::unique_ptr<El> e(new El);
	e->kind = kind;
	double brho = 1 / per_brho(P0);
	e->L = length(g, 0.05, 4);
	if(kind == "drift")
		e->c.reset(new Drift("d", e->L));
	else if(kind == "marker")
	{
		e->L = 0;
		e->c.reset(new Marker("m"));
	}
	else if(kind == "bpm")
	{
		e->L = g.b() ? 0 : e->L;
		e->c.reset(new BPM("b", e->L));
	}
	else if(kind == "solenoid")
	{
		double ks = g.coord(0.5);
		e->Bz = ks * brho / q;
		e->c.reset(new Solenoid("s", e->L, e->Bz));
	}
	else if(kind == "bend")
	{
		double ang = g.slogu(1e-3, o.maxang);
		e->h = ang / e->L;
		double b0 = e->h * brho / q;
		double k1 = o.maxk1 > 0 && g.chance(1, 2) ? g.coord(o.maxk1) : 0;
		if(k1 != 0 && o.special && g.chance(1, 8))
			k1 = -e->h * e->h * g.pick({1.0, 0.2, 0.5, g.real(0, 2)});     // special field indices
		SectorBend* s = new SectorBend("B", e->L, e->h, b0);
		e->c.reset(s);
		e->B.push_back(b0);
		if(k1)
		{
			s->SetB1(k1 * brho / q);
			e->B.push_back(k1 * brho / q);
		}
		if(o.extra && g.chance(1, 4))
		{
			int n = g.i(2, 3);
			double kn = g.sym(5);
			s->GetField().SetComponent(n, kn * brho / q / fact(n));
			e->B.resize(n + 1);
			e->B[n] = kn * brho / q / fact(n);
		}
		if(o.faces && g.chance(1, 2))
		{
			e->face1 = e->face2 = true;
			e->rot1 = g.coord(0.4);
			e->fint1 = g.b() ? g.real(0, 0.7) : 0;
			e->gap1 = g.b() ? g.real(0, 0.05) : 0;
			e->rot2 = g.coord(0.4);
			e->fint2 = g.b() ? g.real(0, 0.7) : 0;
			e->gap2 = g.b() ? g.real(0, 0.05) : 0;
			s->SetPoleFaceInfo(new SectorBend::PoleFace(e->rot1, e->fint1, e->gap1),
				new SectorBend::PoleFace(e->rot2, e->fint2, e->gap2));
		}
		if(o.tilt && g.chance(1, 4))
		{
			e->tilt = g.coord(1.5);
			s->GetGeometry().SetTilt(e->tilt);
		}
	}
	else
	{
		bool thin = o.thin && g.chance(1, 4);
		if(thin)
			e->L = 0;
		int n = 0;
		bool skew = false;
		double k = 0;
		if(kind == "quad" || kind == "skewquad")
		{
			n = 1;
			k = g.coord(o.maxk1);
			skew = kind != "quad";
		}
		else if(kind == "sext" || kind == "skewsext")
		{
			n = 2;
			k = g.coord(20);
			skew = kind != "sext";
		}
		else if(kind == "oct")
		{
			n = 3;
			k = g.coord(500);
		}
		else if(kind == "deca")
		{
			n = 4;
			k = g.coord(1e4);
		}
		else
		{
			k = g.coord(2e-3);
			skew = kind == "ycor";
		}
		double bn = k * brho / q;   // the constructors take the n-th derivative
		RectMultipole* m =
			kind == "quad" ? new Quadrupole("Q", e->L, bn) :
			kind == "skewquad" ? static_cast<RectMultipole*>(new SkewQuadrupole("Q", e->L, bn)) :
			kind == "sext" ? static_cast<RectMultipole*>(new Sextupole("Q", e->L, bn)) :
			kind == "skewsext" ? static_cast<RectMultipole*>(new SkewSextupole("Q", e->L, bn)) :
			kind == "oct" ? static_cast<RectMultipole*>(new Octupole("Q", e->L, bn)) :
			kind == "deca" ? static_cast<RectMultipole*>(new Decapole("Q", e->L, bn)) :
			kind == "xcor" ? static_cast<RectMultipole*>(new XCor("Q", e->L, bn)) : new YCor("Q", e->L, bn);
		e->c.reset(m);
		e->B.resize(n + 1);
		e->B[n] = skew ? std::complex<double>(0, bn / fact(n)) : std::complex<double>(bn / fact(n), 0);
		if(o.extra && bn != 0 && g.chance(1, 3))
		{
			// another component: the order may be below or above the main one
			static const double scale[] = {1e-3, 0.5, 10, 300};
			int m2 = g.i(0, 3);
			if(m2 != n)
			{
				double kr = g.sym(scale[m2]), ki = o.skew ? g.sym(scale[m2]) : 0;
				double br = kr * brho / q / fact(m2), bi = ki * brho / q / fact(m2);
				m->GetField().SetComponent(m2, br, bi);
				if((int) e->B.size() < m2 + 1)
					e->B.resize(m2 + 1);
				e->B[m2] = std::complex<double>(br, bi);
			}
		}
	}
	return e;
}

// A particle well inside the paraxial acceptance
inline V6 particle(Gen& g, double a = 1e-3, double d = 1e-3)
{
	return V6{g.coord(a), g.coord(a), g.coord(a), g.coord(a), g.coord(a), g.coord(d)};
}

// Exact motion in the hard-edge field of the element (canonical coordinates scaled by P0:
// x, px, y, py, ct, dp with ct positive for early arrival, massless limit)
struct Exact
{
	double h = 0, k0 = 0;                    // curvature of the frame, q c/P0 times
	std::vector<std::complex<double> > b;    // q*B[n]*c/P0
	double bs = 0;
	bool maxwell = true;                     // curvature correction of the multipole field
	void rhs(const V6& z, V6& d) const
	{
		double x = z[0], y = z[2], px = z[1], py = z[3], e = 1 + z[5];
		double ps = std::sqrt(e * e - px * px - py * py);
		double By = 0, Bx = 0;
		std::complex<double> w(1, 0), zz(x, y);
		for(auto& c : b)
		{
			std::complex<double> f = c * w;
			By += f.real();
			Bx += f.imag();
			w *= zz;
		}
		if(maxwell && h != 0 && b.size() > 1)
			By -= 0.5 * y * y * h * b[1].real();   // div B = curl B = 0 in the curved frame, second order
		double u = 1 + h * x;
		d[0] = u * px / ps;
		d[2] = u * py / ps;
		d[1] = h * ps + u * (py / ps * bs - By);
		d[3] = u * (Bx - px / ps * bs);
		d[4] = 1 - u * e / ps;
		d[5] = 0;
	}
	V6 run(V6 z, double L, int n) const
	{
		double s = L / n;
		V6 k1, k2, k3, k4, t;
		if(bs != 0)
		{
			z[1] += 0.5 * bs * z[2];
			z[3] -= 0.5 * bs * z[0];
		}
		for(int i = 0; i < n; ++i)
		{
			rhs(z, k1);
			for(int j = 0; j < 6; ++j)
				t[j] = z[j] + s / 2 * k1[j];
			rhs(t, k2);
			for(int j = 0; j < 6; ++j)
				t[j] = z[j] + s / 2 * k2[j];
			rhs(t, k3);
			for(int j = 0; j < 6; ++j)
				t[j] = z[j] + s * k3[j];
			rhs(t, k4);
			for(int j = 0; j < 6; ++j)
				z[j] += s / 6 * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]);
		}
		if(bs != 0)
		{
			z[1] -= 0.5 * bs * z[2];
			z[3] += 0.5 * bs * z[0];
		}
		return z;
	}
};
// slope coordinates <-> canonical momenta (straight frames)
inline V6 to_canonical(const V6& v)
{
	double n = (1 + v[5]) / std::sqrt(1 + v[1] * v[1] + v[3] * v[3]);
	return V6{v[0], v[1] * n, v[2], v[3] * n, v[4], v[5]};
}
inline V6 to_slopes(const V6& v)
{
	double n = std::sqrt((1 + v[5]) * (1 + v[5]) - v[1] * v[1] - v[3] * v[3]);
	return V6{v[0], v[1] / n, v[2], v[3] / n, v[4], v[5]};
}
}
#endif
