// P18: vectors, matrices and the solvers built on them obey linear algebra.
// Oracles: plain std::vector arithmetic; matrices built from known factors; defining equations.
#include "pbt.h"
#include <memory>
#include <sstream>
#include <algorithm>
#include <cmath>
#include "LinearAlgebra.h"
#include "TMatrixLib.h"
#include "TLAS.h"
#include "TLASimp.h"
#include "MatrixMaps.h"
#include "MatrixPrinter.h"
#include "RMap.h"
#include "RTMap.h"
#include "OPFormat.h"
#include "PSvector.h"
#include "PSmoments.h"
#include "MVCMatrix.h"
using pbt::Gen;
using pbt::Ctx;
pbt::Info pbt::info = {"P18", "the matrices have at least two rows and two columns and are neither zero nor the identity",
	"Solver accuracy is claimed relative to the norm times the condition number of the generated matrix; EigenSystem for weakly coupled "
	"stable symplectic matrices, Symplectify for matrices near symplectic."};
void ref_fill(Gen& g, std::vector<std::vector<double> >& m);

namespace
{
typedef std::vector<double> V;
typedef std::vector<V> M;
M zero(size_t n, size_t m)
{
	return M(n, V(m, 0));
}
M mul(const M& a, const M& b)
{
	M r = zero(a.size(), b[0].size());
	for(size_t i = 0; i < a.size(); ++i)
		for(size_t j = 0; j < b[0].size(); ++j)
			for(size_t k = 0; k < b.size(); ++k)
				r[i][j] += a[i][k] * b[k][j];
	return r;
}
V mul(const M& a, const V& x)
{
	V r(a.size(), 0);
	for(size_t i = 0; i < a.size(); ++i)
		for(size_t k = 0; k < x.size(); ++k)
			r[i] += a[i][k] * x[k];
	return r;
}
M tr(const M& a)
{
	M r = zero(a[0].size(), a.size());
	for(size_t i = 0; i < a.size(); ++i)
		for(size_t j = 0; j < a[0].size(); ++j)
			r[j][i] = a[i][j];
	return r;
}
double norm(const M& a)
{
	double s = 0;
	for(auto& r : a)
		for(double x : r)
			s = std::max(s, std::fabs(x));
	return s;
}
double norm(const V& a)
{
	return norm(M{a});
}
double elem(Gen& g)
{
	switch(g.i(0, 3))
	{
	case 0:
		return g.i(-3, 3);
	case 1:
		return 0;
	default:
		return g.sym(5);
	}
}
M gen(Gen& g, size_t n, size_t m)
{
	M r = zero(n, m);
	for(auto& a : r)
		for(double& x : a)
			x = elem(g);
	return r;
}
V gen(Gen& g, size_t n)
{
	V r(n);
	for(double& x : r)
		x = elem(g);
	return r;
}
RealMatrix to(const M& a)
{
	RealMatrix r(a.size(), a[0].size());
	for(size_t i = 0; i < a.size(); ++i)
		for(size_t j = 0; j < a[0].size(); ++j)
			r(i, j) = a[i][j];
	return r;
}
RealVector to(const V& a)
{
	RealVector r(a.size());
	for(size_t i = 0; i < a.size(); ++i)
		r(i) = a[i];
	return r;
}
M from(const RealMatrix& a)
{
	M r = zero(a.nrows(), a.ncols());
	for(size_t i = 0; i < a.nrows(); ++i)
		for(size_t j = 0; j < a.ncols(); ++j)
			r[i][j] = a(i, j);
	return r;
}
V from(const RealVector& a)
{
	V r(a.size());
	for(size_t i = 0; i < a.size(); ++i)
		r[i] = a(i);
	return r;
}
std::string show(const M& a)
{
	std::ostringstream o;
	o << a.size() << "x" << (a.empty() ? 0 : a[0].size()) << "[";
	for(auto& r : a)
	{
		for(double x : r)
			o << x << " ";
		o << ";";
	}
	o << "]";
	return o.str();
}
void cmp(Ctx& c, const M& a, const M& b, double tol, const std::string& what)
{
	c.check(a.size() == b.size() && (a.empty() || a[0].size() == b[0].size()), what + ": shape");
	for(size_t i = 0; i < a.size(); ++i)
		for(size_t j = 0; j < a[0].size(); ++j)
			if(!(std::fabs(a[i][j] - b[i][j]) <= tol))
				c.fail(what + ": [" + std::to_string(i) + "][" + std::to_string(j) + "] " + std::to_string(a[i][j]) + " for " + std::to_string(b[i][j])
					+ " in " + show(a) + " for " + show(b));
}
void cmp(Ctx& c, const V& a, const V& b, double tol, const std::string& what)
{
	cmp(c, M{a}, M{b}, tol, what);
}
// a random orthogonal matrix as a product of reflections
M orthogonal(Gen& g, size_t n)
{
	M r = zero(n, n);
	for(size_t i = 0; i < n; ++i)
		r[i][i] = 1;
	size_t k = g.raw(3);
	while(k-- > 0)
	{
		V v(n);
		double s = 0;
		for(double& x : v)
		{
			x = g.chance(1, 4) ? 0 : g.sym(1);
			s += x * x;
		}
		if(s < 1e-6)
			continue;
		for(auto& row : r)
		{
			double d = 0;
			for(size_t i = 0; i < n; ++i)
				d += row[i] * v[i];
			for(size_t i = 0; i < n; ++i)
				row[i] -= 2 * d * v[i] / s;
		}
	}
	return r;
}
struct Known    // n x m matrix of known singular values
{
	M a, u, v;
	V w;
	size_t n, m, rank;
	double smax, smin;   // of the nonzero ones
};
Known known(Gen& g, size_t n, size_t m, bool full, double scale)
{
	Known k;
	k.n = n;
	k.m = m;
	size_t r = std::min(n, m);
	k.rank = full ? r : g.i(1, (int) r);
	k.u = orthogonal(g, n);
	k.v = orthogonal(g, m);
	k.w = V(r, 0);
	k.smax = 0;
	k.smin = 1e300;
	double range = g.pick({1., 10., 1e3});
	for(size_t i = 0; i < k.rank; ++i)
	{
		k.w[i] = scale * (g.chance(1, 4) ? 1 : g.logu(1 / range, 1));
		k.smax = std::max(k.smax, k.w[i]);
		k.smin = std::min(k.smin, k.w[i]);
	}
	k.a = zero(n, m);
	for(size_t i = 0; i < n; ++i)
		for(size_t j = 0; j < m; ++j)
			for(size_t l = 0; l < k.rank; ++l)
				k.a[i][j] += k.u[i][l] * k.w[l] * k.v[j][l];
	return k;
}
// pseudo-inverse applied to b
V pinv(const Known& k, const V& b)
{
	V x(k.m, 0);
	for(size_t l = 0; l < k.rank; ++l)
	{
		double d = 0;
		for(size_t i = 0; i < k.n; ++i)
			d += k.u[i][l] * b[i];
		for(size_t j = 0; j < k.m; ++j)
			x[j] += k.v[j][l] * d / k.w[l];
	}
	return x;
}
}

LAW(vectors, 30000, 400000, "vector arithmetic and views are those of plain arrays")
{
	size_t n = g.i(1, 7);
	V a = gen(g, n), b = gen(g, n);
	RealVector x = to(a), y = to(b);
	c.nontrivial(n > 1 && norm(a) > 0 && norm(b) > 0);
	c.desc << show(M{a}) << " " << show(M{b}) << " ";
	const RealVector cx = x;
	for(int t = g.i(1, 8); t > 0; --t)
	{
		double s = elem(g);
		int op = g.i(0, 23);
		if((op == 3 || op == 11) && s == 0)
			s = 2;
		c.desc << op << "(" << s << ") ";
		V e = a;
		switch(op)
		{
		case 0: x += s; for(double& z : a) z += s; break;
		case 1: x -= s; for(double& z : a) z -= s; break;
		case 2: x *= s; for(double& z : a) z *= s; break;
		case 3: x /= s; for(double& z : a) z /= s; break;
		case 4: x += y; for(size_t i = 0; i < n; ++i) a[i] += b[i]; break;
		case 5: x -= y; for(size_t i = 0; i < n; ++i) a[i] -= b[i]; break;
		case 6: x *= y; for(size_t i = 0; i < n; ++i) a[i] *= b[i]; break;
		case 7:
			for(size_t i = 0; i < n; ++i)
				e[i] = a[i] + b[i];
			cmp(c, from(x + y), e, 0, "x+y");
			for(size_t i = 0; i < n; ++i)
				e[i] = a[i] - b[i];
			cmp(c, from(x - y), e, 0, "x-y");
			break;
		case 8:
			{
				double d = 0, m = 0;
				for(size_t i = 0; i < n; ++i)
				{
					d += a[i] * b[i];
					m += std::fabs(a[i] * b[i]);
				}
				c.near(x * y, d, 0, 1e-14 * m, "dot product");
				break;
			}
		case 9:
			for(size_t i = 0; i < n; ++i)
				e[i] = s + a[i];
			cmp(c, from(s + x), e, 0, "s+x");
			cmp(c, from(x + s), e, 0, "x+s");
			for(size_t i = 0; i < n; ++i)
				e[i] = s - a[i];
			cmp(c, from(s - x), e, 0, "s-x");
			for(size_t i = 0; i < n; ++i)
				e[i] = a[i] - s;
			cmp(c, from(x - s), e, 0, "x-s");
			break;
		case 10:
			for(size_t i = 0; i < n; ++i)
				e[i] = s * a[i];
			cmp(c, from(s * x), e, 0, "s*x");
			cmp(c, from(x * s), e, 0, "x*s");
			break;
		case 11:
			for(size_t i = 0; i < n; ++i)
				e[i] = a[i] / s;
			cmp(c, from(x / s), e, 0, "x/s");
			break;
		case 12:
			x = s;
			a.assign(n, s);
			break;
		case 13:
			{
				// a view is the vector itself
				size_t i = g.raw(n - 1), k = i + g.raw(n - 1 - i);
				RealVector sub = x(Range(i, k));
				cmp(c, from(sub), V(a.begin() + i, a.begin() + k + 1), 0, "view");
				RealVector sub2 = static_cast<const RealVector&>(x)[Range(i, k)];
				cmp(c, from(sub2), V(a.begin() + i, a.begin() + k + 1), 0, "const view");
				switch(g.i(0, 6))
				{
				case 0: x(Range(i, k)) = s; break;
				case 1: x[Range(i, k)] += s; break;
				case 2: x(Range(i, k)) -= s; break;
				case 3: x(Range(i, k)) *= s; break;
				case 4: x(Range(i, k)) += RealVector(s, k - i + 1); break;
				case 5: x(Range(i, k)) *= RealVector(s, k - i + 1); break;
				default: x(Range(i, k)) = static_cast<const RealVector&>(y)(Range(i, k));
				}
				// (same order of choices)
				double s1 = 0;
				for(size_t j = 0; j < n; ++j)
					if(j < i || j > k)
						s1 = std::max(s1, std::fabs(x(j) - a[j]));
				c.same(s1, 0., "a view changes only its range");
				a = from(x);
				break;
			}
		case 14:
			{
				size_t i = g.raw(n + 2);
				bool bad = pbt::throws<RangeError>([&]() { x(i); });
				c.check(bad == (i >= n), "index out of range is reported");
				if(i < n)
				{
					x[i] = s;
					a[i] = s;
					c.same(static_cast<const RealVector&>(x)(i), s, "written element");
				}
				break;
			}
		case 15:
			{
				RealVector z(n + g.i(1, 2));
				c.check(pbt::throws<DimensionError>([&]() { x += z; }), "length mismatch in +=");
				c.check(pbt::throws<DimensionError>([&]() { x = z; }), "length mismatch in =");
				c.check(pbt::throws<DimensionError>([&]() { x - z; }), "length mismatch in -");
				c.check(pbt::throws<DimensionError>([&]() { x == z; }), "length mismatch in ==");
				break;
			}
		case 16:
			{
				RealVector z;
				z.copy(x);
				c.check(z == x && !(z != x), "copies are equal");
				z(g.raw(n - 1)) += 1;
				c.check(z != x && !(z == x), "a changed copy differs");
				c.check(x == to(a), "the original does not change");
				break;
			}
		case 17:
			{
				RealVector z = x(Range(0, n - 1));
				size_t k = x(Range(0, n - 1)).locmaxabs();
				for(size_t i = 0; i < n; ++i)
					c.check(std::fabs(a[i]) <= std::fabs(a[k]) && (i >= k || std::fabs(a[i]) < std::fabs(a[k])), "position of the largest");
				double q = 0, f = 0;
				for(double z1 : a)
				{
					q += z1 * z1;
					f += std::fabs(z1);
				}
				c.near(x(Range(0, n - 1)).sumsquared(), q, 1e-14, 0, "sum of squares");
				c.near(x(Range(0, n - 1)).sumfabs(), f, 1e-14, 0, "sum of absolute values");
				break;
			}
		case 18:
			x = y;
			a = b;
			break;
		default:
			{
				V k;
				for(double z : x)
					k.push_back(z);
				cmp(c, k, a, 0, "iteration");
			}
		}
		if(norm(a) > 1e100)
			break;
		cmp(c, from(x), a, 0, "vector");
		c.check(cx == cx, "");
	}
}

LAW(matrices, 30000, 400000, "matrix arithmetic, products, transposes and views are those of plain arrays")
{
	size_t n = g.i(1, 5), m = g.i(1, 5), p = g.i(1, 5);
	M a = gen(g, n, m), b = gen(g, n, m), d = gen(g, m, p);
	V v = gen(g, m);
	c.nontrivial(n > 1 && m > 1 && norm(a) > 0 && norm(d) > 0);
	c.desc << show(a) << show(b) << show(d);
	RealMatrix A = to(a), B = to(b), D = to(d);
	const RealMatrix& cA = A;
	M e = a;
	for(size_t i = 0; i < n; ++i)
		for(size_t j = 0; j < m; ++j)
			e[i][j] = a[i][j] + b[i][j];
	cmp(c, from(A + B), e, 0, "A+B");
	for(size_t i = 0; i < n; ++i)
		for(size_t j = 0; j < m; ++j)
			e[i][j] = a[i][j] - b[i][j];
	cmp(c, from(A - B), e, 0, "A-B");
	double s = elem(g);
	for(size_t i = 0; i < n; ++i)
		for(size_t j = 0; j < m; ++j)
			e[i][j] = a[i][j] * s;
	cmp(c, from(A * s), e, 0, "A*s");
	cmp(c, from(s * A), e, 0, "s*A");
	cmp(c, from(A * D), mul(a, d), 1e-13 * m * norm(a) * norm(d), "A*D");
	cmp(c, from(A * to(v)), mul(a, v), 1e-13 * m * norm(a) * norm(v), "A*v");
	cmp(c, from(TLAS::Transpose(A)), tr(a), 0, "transpose");
	if(m != p || n != m)
	{
		size_t k = m + g.i(1, 2);
		RealMatrix W(k, p);
		c.check(pbt::throws<DimensionError>([&]() { A * W; }), "product of mismatched matrices");
		RealVector w(k);
		c.check(pbt::throws<DimensionError>([&]() { A * w; }), "product with a mismatched vector");
		RealMatrix W2(n, k);
		c.check(pbt::throws<DimensionError>([&]() { A + W2; }), "sum of mismatched matrices");
		c.check(pbt::throws<DimensionError>([&]() { A = W2; }), "assignment of mismatched matrices");
	}
	{
		RealMatrix I = RealMatrix(IdentityMatrix(n));
		cmp(c, from(I * A), a, 0, "identity times A");
		RealMatrix J;
		J.copy(IdentityMatrix(m));
		cmp(c, from(A * J), a, 0, "A times identity");
	}
	// views
	size_t i0 = g.raw(n - 1), i1 = i0 + g.raw(n - 1 - i0), j0 = g.raw(m - 1), j1 = j0 + g.raw(m - 1 - j0);
	M sub = zero(i1 - i0 + 1, j1 - j0 + 1);
	for(size_t i = i0; i <= i1; ++i)
		for(size_t j = j0; j <= j1; ++j)
			sub[i - i0][j - j0] = a[i][j];
	{
		RealMatrix S = A(Range(i0, i1), Range(j0, j1));
		cmp(c, from(S), sub, 0, "view");
		RealMatrix S2 = cA(Range(i0, i1), Range(j0, j1));
		cmp(c, from(S2), sub, 0, "const view");
		c.same(A(Range(i0, i1), Range(j0, j1))(i1 - i0, j1 - j0), a[i1][j1], "element of a view");
		c.same(cA(Range(i0, i1), Range(j0, j1))(i1 - i0, 0), a[i1][j0], "element of a const view");
		RealMatrix S3;
		S3.copy(cA(Range(i0, i1), Range(j0, j1)));
		cmp(c, from(S3), sub, 0, "copied view");
		RealVector r = cA.row(i0), q = cA.column(j1), r2 = A.row(i0), q2 = A.column(j1), r3 = cA[i0];
		cmp(c, from(r), a[i0], 0, "row");
		cmp(c, from(r2), a[i0], 0, "row");
		cmp(c, from(r3), a[i0], 0, "row");
		cmp(c, from(q), tr(a)[j1], 0, "column");
		cmp(c, from(q2), tr(a)[j1], 0, "column");
		RealVector pr = A(i1, Range(j0, j1)), pc = A(Range(i0, i1), j0), pr2 = cA(i1, Range(j0, j1)), pc2 = cA(Range(i0, i1), j0);
		cmp(c, from(pr), sub[i1 - i0], 0, "part of a row");
		cmp(c, from(pc), tr(sub)[0], 0, "part of a column");
		cmp(c, from(pr2), sub[i1 - i0], 0, "part of a row");
		cmp(c, from(pc2), tr(sub)[0], 0, "part of a column");
		c.check(pbt::throws<RangeError>([&]() { A(n, 0); }) && pbt::throws<RangeError>([&]() { A(0, m); }), "element out of range is reported");
		c.check(pbt::throws<RangeError>([&]() { A.row(n); }) && pbt::throws<RangeError>([&]() { A.column(m); }), "row out of range is reported");
		c.check(pbt::throws<RangeError>([&]() { A(Range(0, n), Range(0, m - 1)); }), "view out of range is reported");
	}
	// changes through views
	M x = gen(g, sub.size(), sub[0].size());
	e = a;
	int op = g.i(0, 9);
	for(size_t i = i0; i <= i1; ++i)
		for(size_t j = j0; j <= j1; ++j)
		{
			double& z = e[i][j], w = x[i - i0][j - j0];
			z = op == 0 ? w : op == 1 ? z + w : op == 2 ? z - w : op == 3 ? z * w : op == 4 ? s : op == 5 ? z + s : op == 6 ? z - s : op == 7 ? z * s : z;
		}
	{
		Range ri(i0, i1), rj(j0, j1);
		switch(op)
		{
		case 0: A(ri, rj) = to(x); break;
		case 1: A(ri, rj) += to(x); break;
		case 2: A(ri, rj) -= to(x); break;
		case 3: A(ri, rj) *= to(x); break;
		case 4: A(ri, rj) = s; break;
		case 5: A(ri, rj) += s; break;
		case 6: A(ri, rj) -= s; break;
		case 7: A(ri, rj) *= s; break;
		case 8:
			A.row(i0) = static_cast<const RealMatrix&>(B).row(i0);
			e[i0] = b[i0];
			break;
		default:
			A.column(j0) = static_cast<const RealMatrix&>(B).column(j0);
			for(size_t i = 0; i < n; ++i)
				e[i][j0] = b[i][j0];
		}
	}
	cmp(c, from(A), e, 1e-14 * (1 + norm(e)), "matrix changed through a view, operation " + std::to_string(op));
	if(op < 4)
	{
		RealMatrix bad(sub.size() + 1, sub[0].size());
		c.check(pbt::throws<DimensionError>([&]()
			{
				SubMatrix<double> w = A(Range(i0, i1), Range(j0, j1));
				op == 0 ? w = bad : op == 1 ? w += bad : op == 2 ? w -= bad : w *= bad;
			}), "mismatched matrix in an operation on a view");
	}
	// text
	{
		std::ostringstream o;
		o << to(a);
		std::istringstream is(o.str());
		std::string line;
		size_t rows = 0;
		while(std::getline(is, line))
		{
			std::istringstream ls(line);
			double z;
			size_t k = 0;
			while(ls >> z)
			{
				c.check(rows < n && k < m, "shape of the printed matrix");
				c.near(z, a[rows][k++], 1e-5, 1e-300, "printed element");
			}
			c.eq(k, m, "printed columns");
			++rows;
		}
		c.eq(rows, n, "printed rows");
		std::ostringstream o2;
		MatrixForm(to(a), o2, OPFormat().precision(9).scientific());
		std::istringstream is2(o2.str());
		for(size_t i = 0; i < n; ++i)
			for(size_t j = 0; j < m; ++j)
			{
				double z = -77;
				is2 >> z;
				c.near(z, a[i][j], 1e-8, 1e-300, "formatted element");
			}
	}
}

LAW(lu, 30000, 400000, "LU solutions satisfy their equations, determinants and inverses are right")
{
	size_t n = g.i(1, 7);
	double scale = g.pick({1., 1., 1e-6, 1e6});
	Known k = known(g, n, n, true, scale);
	double cond = k.smax / k.smin;
	c.nontrivial(n > 1);
	c.desc << show(k.a);
	RealMatrix A = to(k.a);
	LUMatrix<double> lu(A);
	for(int t = 0; t < 2; ++t)
	{
		V b = gen(g, n);
		if(t && g.b())
		{
			b.assign(n, 0);
			b[g.raw(n - 1)] = 1;
		}
		V x = pinv(k, b);
		double tol = 1e-13 * n * cond * (norm(b) / k.smin + 1e-300);
		const RealVector cb = to(b);
		cmp(c, from(lu(cb)), x, tol, "LU solution");
		RealVector w = to(b);
		lu(w);
		cmp(c, from(w), x, tol, "LU solution in place");
		RealMatrix H(n, 2);
		H.column(1) = to(b);
		SubVector<double> col = H.column(1);
		lu(col);
		for(size_t i = 0; i < n; ++i)
		{
			c.near(H(i, 1), x[i], 0, tol, "LU solution of a column");
			c.same(H(i, 0), 0., "other columns");
		}
	}
	double det = 1;
	for(double w : k.w)
		det *= w;
	c.near(std::fabs(lu.det()), det, 1e-12 * n * cond, 0, "determinant");
	c.near(TLAS::Det(A), lu.det(), 0, 0, "determinant");
	{
		// sign and product rule
		Known k2 = known(g, n, n, true, 1);
		double d1 = lu.det(), d2 = TLAS::Det(to(k2.a)), d12 = TLAS::Det(A * to(k2.a));
		c.near(d12, d1 * d2, 1e-11 * n * cond * (k2.smax / k2.smin), 0, "determinant of a product");
		RealMatrix T = TLAS::Transpose(A);
		c.near(TLAS::Det(T), d1, 1e-12 * n * cond, 0, "determinant of the transpose");
		if(n > 1)
		{
			M sw = k.a;
			size_t i = g.raw(n - 2);
			std::swap(sw[i], sw[i + 1]);
			c.near(TLAS::Det(to(sw)), -d1, 1e-12 * n * cond, 0, "determinant after swapping rows");
		}
	}
	M inv = zero(n, n);
	for(size_t j = 0; j < n; ++j)
	{
		V b(n, 0);
		b[j] = 1;
		V x = pinv(k, b);
		for(size_t i = 0; i < n; ++i)
			inv[i][j] = x[i];
	}
	double tol = 1e-13 * n * cond / k.smin;
	const RealMatrix cA = A;
	cmp(c, from(TLAS::Invert(cA)), inv, tol, "inverse");
	RealMatrix A2 = A, A3 = A;
	TLAS::InvertMatrix(A2);
	cmp(c, from(A2), inv, tol, "inverse in place");
	TLAS::Invert(A3);
	cmp(c, from(A3), inv, tol, "Gauss-Jordan inverse");
}

LAW(singular, 20000, 200000, "singular and non-square input to the solvers is reported")
{
	// integer matrices with an exactly zero row or column, or equal rows of a diagonal matrix: elimination is exact
	size_t n = g.i(2, 6);
	M a = zero(n, n);
	for(size_t i = 0; i < n; ++i)
		for(size_t j = 0; j < n; ++j)
			a[i][j] = j < i ? 0 : i == j ? g.pick({1., -1., 2.}) : g.pick({0., 1., -1.});
	int kind = g.i(0, 3);
	if(kind == 2)
		for(size_t i = 0; i < n; ++i)
			for(size_t j = 0; j < n; ++j)
				if(i != j)
					a[i][j] = 0;
	size_t r = g.raw(n - 1), q = g.raw(n - 1);
	if(kind == 0)
		a[r].assign(n, 0);
	else if(kind == 1)
		for(auto& row : a)
			row[r] = 0;
	else if(kind == 2)
	{
		if(r == q)
			q = (r + 1) % n;
		a[q] = a[r];
	}
	for(size_t k = g.raw(3); k > 0; --k)
		std::swap(a[g.raw(n - 1)], a[g.raw(n - 1)]);
	bool sing = kind < 3;
	c.nontrivial(true);
	c.label(sing ? "singular" : "regular");
	c.desc << show(a);
	RealMatrix A = to(a);
	c.check(pbt::throws<SingularMatrix>([&]() { LUMatrix<double> l(A); }) == sing, "LU reports exactly the singular matrices");
	RealMatrix B = A;
	c.check(pbt::throws<SingularMatrix>([&]() { TLAS::Invert(B); }) == sing, "Gauss-Jordan reports exactly the singular matrices");
	RealMatrix N(n, n + g.i(1, 2));
	c.check(pbt::throws<DimensionError>([&]() { LUMatrix<double> l(N); }), "LU of a rectangle");
	c.check(pbt::throws<NonSquareMatrix>([&]() { TLAS::Invert(N); }), "inverse of a rectangle");
	c.check(pbt::throws<NonSquareMatrix>([&]() { TLAS::InvertMatrix(N); }), "inverse of a rectangle");
}

LAW(svd, 30000, 400000, "singular value decompositions have orthogonal factors, reproduce the matrix and give the minimal least-squares solution")
{
	size_t n = g.i(1, 7), m = g.i(1, 7);
	double scale = g.pick({1., 1., 1e-9, 1e-5, 1e4});
	Known k = known(g, n, m, g.b(), scale);
	c.nontrivial(n > 1 && m > 1);
	c.label(n < m ? "wide" : n > m ? "tall" : "square");
	if(k.rank < std::min(n, m))
		c.label("rank deficient");
	c.desc << show(k.a) << " rank " << k.rank;
	bool weighted = g.chance(1, 3);
	V wt(n, 1);
	if(weighted)
		for(double& x : wt)
			x = g.real(0.5, 2);
	std::unique_ptr<SVDMatrix<double> > svd(weighted ? new SVDMatrix<double>(to(k.a), to(wt)) : new SVDMatrix<double>(to(k.a)));
	M u = from(svd->U()), v = from(svd->V());
	V w = from(svd->W());
	size_t rows = std::max(n, m);
	c.eq(u.size(), rows, "rows of U");
	c.eq(w.size(), m, "singular values");
	size_t nz = 0;
	for(size_t i = 0; i < m; ++i)
	{
		c.check(w[i] >= 0, "singular values are not negative");
		nz += w[i] > 0;
		c.check(svd->wflags()[i] == (w[i] > 0), "flags of the kept singular values");
	}
	c.eq(nz, k.rank, "number of nonzero singular values is the rank");
	M vtv = mul(tr(v), v), I = zero(m, m);
	for(size_t i = 0; i < m; ++i)
		I[i][i] = 1;
	cmp(c, vtv, I, 1e-12 * m, "V is orthogonal");
	M utu = mul(tr(u), u);
	for(size_t i = 0; i < m; ++i)
		for(size_t j = 0; j < m; ++j)
			if(w[i] > 0 && w[j] > 0)
				c.near(utu[i][j], I[i][j], 0, 1e-11 * rows * k.smax / k.smin, "columns of U are orthonormal");
	M uw = u;
	for(size_t i = 0; i < rows; ++i)
		for(size_t j = 0; j < m; ++j)
			uw[i][j] *= w[j];
	M back = mul(uw, tr(v)), e = zero(rows, m);
	for(size_t i = 0; i < n; ++i)
		for(size_t j = 0; j < m; ++j)
			e[i][j] = k.a[i][j] * wt[i];
	cmp(c, back, e, 1e-12 * rows * k.smax, "U W V' is the matrix");
	if(!weighted)
	{
		V s1 = w, s2 = k.w;
		s2.resize(m, 0);
		std::sort(s1.begin(), s1.end());
		std::sort(s2.begin(), s2.end());
		cmp(c, s1, s2, 1e-12 * rows * k.smax, "singular values");
	}
	V b = gen(g, n);
	const RealVector rb = to(b);
	V x = from((*svd)(rb));
	c.eq(x.size(), m, "length of the solution");
	double cond = k.smax / k.smin;
	if(!weighted)
		cmp(c, x, pinv(k, b), 1e-12 * rows * cond * cond * (norm(b) / k.smax + 1e-300), "minimal least-squares solution");
	else
	{
		// normal equations A' W^2 (A x - b) = 0
		V r = mul(k.a, x);
		for(size_t i = 0; i < n; ++i)
			r[i] = wt[i] * wt[i] * (r[i] - b[i]);
		V z = mul(tr(k.a), r);
		cmp(c, z, V(m, 0), 1e-11 * rows * cond * cond * (k.smax * norm(b) + 1e-300), "weighted normal equations");
	}
	{
		RealMatrix H(n, 1);
		H.column(0) = to(b);
		RealVector y = (*svd)(static_cast<const RealMatrix&>(H).column(0));
		cmp(c, from(y), x, 0, "solution for a column");
	}
}

LAW(symmetric, 20000, 300000, "eigenvalues and eigenvectors of symmetric matrices satisfy the eigen-equation")
{
	size_t n = g.i(1, 8);
	double scale = g.pick({1., 1., 1e-8, 1e6});
	M q = orthogonal(g, n);
	V l(n);
	for(double& x : l)
		x = scale * (g.chance(1, 4) ? g.i(-1, 1) : g.sym(1));
	M a = zero(n, n);
	for(size_t i = 0; i < n; ++i)
		for(size_t j = 0; j <= i; ++j)
		{
			for(size_t k = 0; k < n; ++k)
				a[i][j] += q[i][k] * l[k] * q[j][k];
			a[j][i] = a[i][j];
		}
	c.nontrivial(n > 1 && norm(l) > 0);
	c.desc << show(a);
	RealMatrix A = to(a);
	RealVector w;
	EigenSystemSymmetricMatrix(A, w);
	M v = from(A);
	V ev = from(w);
	c.eq(ev.size(), n, "number of eigenvalues");
	M av = mul(a, v);
	for(size_t i = 0; i < n; ++i)
		for(size_t j = 0; j < n; ++j)
			c.near(av[i][j], v[i][j] * ev[j], 0, 1e-10 * n * scale, "A v = l v");
	M I = zero(n, n);
	for(size_t i = 0; i < n; ++i)
		I[i][i] = 1;
	cmp(c, mul(tr(v), v), I, 1e-11 * n, "eigenvectors are orthonormal");
	std::sort(ev.begin(), ev.end());
	std::sort(l.begin(), l.end());
	cmp(c, ev, l, 1e-10 * n * scale, "eigenvalues");
}

namespace
{
// one-turn matrix with given phases in the three planes, and (optionally) weak coupling
M twiss(Gen& g, double mu[3])
{
	M r = zero(6, 6);
	for(int p = 0; p < 3; ++p)
	{
		mu[p] = 2 * M_PI * (p == 0 ? g.real(0.03, 0.14) : p == 1 ? g.real(0.17, 0.31) : g.real(0.34, 0.47));
		if(g.b())
			mu[p] = 2 * M_PI - mu[p];
		double b = g.chance(1, 4) ? 1 : g.logu(0.3, 30), al = g.chance(1, 3) ? 0 : g.sym(2), co = std::cos(mu[p]), si = std::sin(mu[p]);
		r[2 * p][2 * p] = co + al * si;
		r[2 * p][2 * p + 1] = b * si;
		r[2 * p + 1][2 * p] = -(1 + al * al) / b * si;
		r[2 * p + 1][2 * p + 1] = co - al * si;
	}
	return r;
}
// symplectic kick: p -= grad of a small quadratic form of the positions
M kick(Gen& g, double size)
{
	M r = zero(6, 6);
	for(int i = 0; i < 6; ++i)
		r[i][i] = 1;
	for(int i = 0; i < 3; ++i)
		for(int j = 0; j <= i; ++j)
		{
			double z = g.sym(size);
			r[2 * i + 1][2 * j] = z;
			if(i != j)
				r[2 * j + 1][2 * i] = z;
		}
	return r;
}
M sympl()
{
	M s = zero(6, 6);
	for(int i = 0; i < 6; i += 2)
	{
		s[i][i + 1] = 1;
		s[i + 1][i] = -1;
	}
	return s;
}
}

LAW(eigen, 20000, 200000, "eigenvalues and eigenvectors of a stable symplectic matrix satisfy the eigen-equation and are normalised")
{
	double mu[3];
	M a = twiss(g, mu);
	bool coupled = g.b();
	if(coupled)
		a = mul(kick(g, 1e-4), a);
	c.nontrivial(true);
	c.label(coupled ? "coupled" : "uncoupled");
	c.desc << "mu " << mu[0] << " " << mu[1] << " " << mu[2] << " " << show(a);
	RealMatrix A = to(a);
	ComplexVector l;
	ComplexMatrix v;
	bool ok = EigenSystem(A, l, v);
	c.check(ok, "stable");
	c.eq(l.size(), (size_t) 3, "eigenvalues");
	M s = sympl();
	for(int p = 0; p < 3; ++p)
	{
		c.near(std::abs(l(p)), 1, 0, 1e-9, "modulus of the eigenvalue of plane " + std::to_string(p));
		c.near(l(p).real(), std::cos(mu[p]), 0, coupled ? 0.05 : 1e-9, "eigenvalue of plane " + std::to_string(p));
		double vm = 0;
		for(int i = 0; i < 6; ++i)
			vm = std::max(vm, std::abs(v(p, i)));
		for(int i = 0; i < 6; ++i)
		{
			Complex z = 0;
			for(int j = 0; j < 6; ++j)
				z += a[i][j] * v(p, j);
			c.near(std::abs(z - l(p) * v(p, i)), 0, 0, 1e-8 * vm * (1 + norm(a)), "A v = l v");
		}
		for(int q = 0; q < 3; ++q)
		{
			Complex z = 0;
			for(int i = 0; i < 6; ++i)
				for(int j = 0; j < 6; ++j)
					z += std::conj(v(q, i)) * s[i][j] * v(p, j);
			c.near(std::abs(z - Complex(0, p == q)), 0, 0, 1e-7 * (1 + vm * vm), "normalisation of eigenvectors");
		}
	}
}

LAW(eigendispersive, 20000, 200000,
	"where dispersion couples the planes, slow longitudinal motion is found although its diagonal block alone looks unstable")
{
	double mu[3];
	M a = twiss(g, mu);
	double mz = 2 * M_PI * g.logu(2e-3, 0.02), b = g.logu(1, 100);
	if(g.b())
		mz = -mz;
	a[4][4] = a[5][5] = std::cos(mz);
	a[4][5] = b * std::sin(mz);
	a[5][4] = -std::sin(mz) / b;
	double D = g.sym(1), E = g.sym(0.5);
	bool vertical = g.chance(1, 4);
	int x = vertical ? 2 : 0;
	M d = zero(6, 6), e = zero(6, 6);
	for(int i = 0; i < 6; ++i)
		d[i][i] = e[i][i] = 1;
	d[x][5] = D;
	d[x + 1][5] = E;
	d[4][x] = -E;
	d[4][x + 1] = D;
	for(int i = 0; i < 2; ++i)
	{
		e[x + i][5] = -d[x + i][5];
		e[4][x + i] = -d[4][x + i];
	}
	a = mul(mul(d, a), e);
	// a cavity at a dispersive place
	double f = g.chance(1, 2) ? g.sym(0.003) : 0;
	M k = zero(6, 6);
	for(int i = 0; i < 6; ++i)
		k[i][i] = 1;
	k[5][4] = f;
	a = mul(k, a);
	// reference: characteristic polynomial in z + 1/z for the x-z pair
	double A2[4][4], tr1 = 0, tr2 = 0;
	int n[] = {x, x + 1, 4, 5};
	for(int i = 0; i < 4; ++i)
		for(int j = 0; j < 4; ++j)
			A2[i][j] = a[n[i]][n[j]];
	for(int i = 0; i < 4; ++i)
	{
		tr1 += A2[i][i];
		for(int j = 0; j < 4; ++j)
			tr2 += A2[i][j] * A2[j][i];
	}
	// with u = z + 1/z: u1 + u2 = tr M, u1^2 + u2^2 - 4 = tr M^2
	double disc = 2 * (tr2 + 4) - tr1 * tr1;
	if(disc <= 0)
		c.discard();
	double u = (tr1 + std::sqrt(disc)) / 2, w = (tr1 - std::sqrt(disc)) / 2, trz = a[4][4] + a[5][5];
	if(u > 2 - 1e-4 || w < -2 + 1e-3 || u - w < 0.5 || u < 1.9)
		c.discard();
	if(std::fabs(trz - 2) < 1e-6 || std::fabs(trz - 2) > 0.01)
		c.discard();
	c.nontrivial(trz > 2);
	c.label(trz > 2 ? "block looks unstable" : "block looks stable");
	c.desc << show(a);
	RealMatrix Am = to(a);
	ComplexVector l;
	ComplexMatrix v;
	bool ok = EigenSystem(Am, l, v);
	c.check(ok, "stable");
	M s = sympl();
	c.near(l(2).real(), u / 2, 0, 1e-7, "longitudinal eigenvalue");
	c.near(std::abs(l(2)), 1, 0, 1e-7, "modulus of the longitudinal eigenvalue");
	double vm = 0;
	for(int i = 0; i < 6; ++i)
		vm = std::max(vm, std::abs(v(2, i)));
	Complex nn = 0;
	for(int i = 0; i < 6; ++i)
	{
		Complex z = 0;
		for(int j = 0; j < 6; ++j)
		{
			z += a[i][j] * v(2, j);
			nn += std::conj(v(2, i)) * s[i][j] * v(2, j);
		}
		c.near(std::abs(z - l(2) * v(2, i)), 0, 0, 1e-7 * vm * (1 + norm(a)), "A v = l v");
	}
	c.near(std::abs(nn - Complex(0, 1)), 0, 0, 1e-6 * (1 + vm * vm), "normalisation");
}

LAW(symplectify, 20000, 200000, "Symplectify returns a symplectic matrix near the input and leaves symplectic matrices alone")
{
	double mu[3];
	M a = twiss(g, mu);
	if(g.b())
		a = mul(kick(g, 0.1), a);
	double err = g.chance(1, 3) ? 0 : g.logu(1e-8, 1e-4);
	double na = norm(a);
	M b = a;
	for(auto& r : b)
		for(double& x : r)
			x += g.sym(err);
	c.nontrivial(err > 0);
	c.label(err ? "near symplectic" : "symplectic");
	c.desc << show(b);
	RealMatrix B = to(b);
	Symplectify(B);
	M r = from(B);
	M s = sympl();
	double nr = norm(r);
	if(err == 0 && std::fabs(1 + std::cos(mu[0])) > 0.02 && std::fabs(1 + std::cos(mu[1])) > 0.02 && std::fabs(1 + std::cos(mu[2])) > 0.02)
		cmp(c, r, a, 1e-9 * na * na * na, "symplectic matrix");
	cmp(c, mul(mul(tr(r), s), r), s, 1e-9 * (1 + nr * nr * nr * nr), "M' S M = S");
	if(norm(r) < 1e3 * na && err && err * na * na * na < 1e-3)
		cmp(c, r, b, 1e3 * err * (1 + na * na * na), "distance from the input");
}

namespace
{
PSvector psv(Gen& g)
{
	PSvector p(0);
	for(int i = 0; i < 6; ++i)
		p[i] = g.sym(i == 5 ? 0.1 : 1);
	return p;
}
PSmoments moments(const std::vector<PSvector>& b)
{
	PSmoments s;
	for(int i = 0; i < 6; ++i)
	{
		for(auto& p : b)
			s[i] += p[i];
		s[i] /= b.size();
	}
	for(int i = 0; i < 6; ++i)
		for(int j = 0; j <= i; ++j)
		{
			double z = 0;
			for(auto& p : b)
				z += (p[i] - s[i]) * (p[j] - s[j]);
			s(i, j) = z / b.size();
		}
	return s;
}
void cmp(Ctx& c, const PSmoments& a, const PSmoments& b, double tol, const std::string& what)
{
	for(int i = 0; i < 6; ++i)
	{
		c.near(a[i], b[i], 0, tol, what + ": mean " + std::to_string(i));
		for(int j = 0; j <= i; ++j)
			c.near(a(i, j), b(i, j), 0, tol, what + ": " + std::to_string(i) + std::to_string(j));
	}
}
}

LAW(maps, 20000, 200000, "linear maps act alike on particles and on the moments of any set of particles")
{
	int ndf = g.i(1, 3);
	size_t n = 2 * ndf;
	M r = gen(g, n, n), t = gen(g, n, n);
	double pref = g.b() ? 0 : g.real(1, 10), p0 = pref == 0 ? g.real(1, 10) : pref * g.pick({1., 0.5, 1.1, 2.});
	if(ndf == 3)
	{
		// magnets leave the momentum alone
		r[5].assign(6, 0);
		r[5][5] = 1;
		t[5].assign(6, 0);
	}
	bool second = g.b();
	c.nontrivial(ndf > 1);
	c.label("ndf " + std::to_string(ndf) + (pref ? " scaled" : "") + (second ? " dp" : ""));
	c.desc << show(r) << (second ? show(t) : "") << " at " << pref << " for " << p0;
	std::vector<PSvector> b;
	double common = g.sym(0.1);
	for(int k = g.i(1, 6); k > 0; --k)
	{
		b.push_back(psv(g));
		if(second)
			b.back().dp() = common;
	}
	std::vector<PSvector> e = b;
	for(auto& p : e)
	{
		PSvector q = p;
		double ratio = pref ? p0 / pref : 1, dp = ratio * (1 + p.dp()) - 1;
		PSvector in = p;
		in.dp() = dp;
		for(size_t i = 0; i < n; ++i)
		{
			double z = 0;
			for(size_t j = 0; j < n; ++j)
				z += (r[i][j] + (second ? t[i][j] * dp : 0)) * in[j];
			q[i] = z;
		}
		q.dp() = p.dp();
		p = q;
	}
	double tol = 1e-12 * (1 + norm(r) + norm(t)) * (1 + norm(r) + norm(t)) * 20;
	RMtrx R(to(r), pref);
	RdpMtrx T(to(r), to(t), pref);
	c.eq(R.GetNDF(), ndf, "degrees of freedom");
	c.check(R.EnergyIndependent() == (pref == 0), "energy independence");
	PSmoments s0 = moments(b), s1 = moments(e);
	for(size_t k = 0; k < b.size(); ++k)
	{
		PSvector q = b[k];
		if(second)
			T.Apply(q, p0);
		else
			R.Apply(q, p0);
		for(int i = 0; i < 6; ++i)
			c.near(q[i], e[k][i], 0, tol, "coordinate " + std::to_string(i));
	}
	PSmoments s = s0;
	if(second)
		T.Apply(s, p0);
	else
		R.Apply(s, p0);
	cmp(c, s, s1, tol, "moments");
	PSvectorArray pa(b.begin(), b.end());
	PSmomentsArray sa(2, s0);
	if(second)
	{
		T.Apply(pa, p0);
		T.Apply(sa, p0);
	}
	else
	{
		R.Apply(pa, p0);
		R.Apply(sa, p0);
	}
	size_t k = 0;
	for(auto& q : pa)
	{
		for(int i = 0; i < 6; ++i)
			c.near(q[i], e[k][i], 0, tol, "particle array");
		++k;
	}
	cmp(c, sa[1], s1, tol, "moments array");
	// products
	M r2 = gen(g, n, n);
	RMtrx P(to(r), pref);
	P *= RMtrx(to(r2), pref);
	cmp(c, from(P.R), mul(r2, r), tol * (1 + norm(r2)), "product of maps");
	c.same(P(1, (int) n), P.R(0, n - 1), "element access");
}

namespace
{
PSmoments image(const PSmoments& s, const M& r)
{
	PSmoments o;
	for(int i = 0; i < 6; ++i)
	{
		for(int j = 0; j < 6; ++j)
			o[i] += r[i][j] * s[j];
		for(int j = 0; j <= i; ++j)
			for(int k = 0; k < 6; ++k)
				for(int l = 0; l < 6; ++l)
					o(i, j) += r[i][k] * s(k, l) * r[j][l];
	}
	return o;
}
PSmoments random_moments(Gen& g)
{
	PSmoments s;
	M a = gen(g, 6, 6);
	for(int i = 0; i < 6; ++i)
		for(int j = 0; j <= i; ++j)
			for(int k = 0; k < 6; ++k)
				s(i, j) += a[i][k] * a[j][k];
	for(int i = 0; i < 6; ++i)
		s[i] = g.sym(1);
	return s;
}
// numbers printed as a matrix
M read(std::istream& in, size_t n, size_t m)
{
	M r = zero(n, m);
	for(auto& x : r)
		for(auto& y : x)
			in >> y;
	return r;
}
}

LAW(sparse, 15000, 200000, "sparse linear and second order maps act as the matrices of their terms, on particles and on moments, and copies are independent")
{
	M r = zero(6, 6);
	int density = g.i(1, 4);
	for(auto& x : r)
		for(auto& y : x)
			if((int) g.raw(3) < density)
				y = g.sym(2);
	RMap a;
	RTMap t;
	int how = g.i(0, 2);
	std::vector<int> order(36);
	for(int i = 0; i < 36; ++i)
		order[i] = i;
	for(int i = 35; i > 0; --i)
		std::swap(order[i], order[g.raw(i)]);
	c.desc << "how " << how << " " << show(r);
	size_t terms = 0;
	if(how == 2)
	{
		a = RMap(to(r));
		t = RTMap(to(r));
	}
	for(int o : order)
	{
		double v = r[o / 6][o % 6];
		if(v == 0)
			continue;
		++terms;
		if(how == 0)
			a.AddTerm(o / 6 + 1, o % 6 + 1, v), t.AddTerm(o / 6 + 1, o % 6 + 1) = v;
		else if(how == 1)
			a(o / 6 + 1, o % 6 + 1) = v, t(o / 6 + 1, o % 6 + 1) = v;
	}
	// copies are changed, the maps are not
	for(int k = g.i(0, 2); k > 0; --k)
	{
		int i = g.i(1, 6), j = g.i(1, 6);
		if(g.b())
		{
			RMap b(a);
			b(i, j) = g.sym(2);
			c.check(a(i, j) == 0 || std::abs(a(i, j)) <= 2, "element of the original");
			RMap d;
			d = b;
			d(j, i) += 1;
			PSvector q = psv(g);
			d.Apply(q);
			if(g.b())
			{
				// the copy goes on when the original is gone
				std::unique_ptr<RMap> o(new RMap(a));
				RMap e(*o);
				for(int x = 1; x < 7; ++x)
					for(int y = 1; y < 7; ++y)
						(*o)(x, y) = 99;
				o.reset();
				a = e;
			}
		}
		else
		{
			RTMap b(t);
			b(i, j) = g.sym(2);
			b(i, j, g.i(1, 6)) = g.sym(1);
			PSvector q = psv(g);
			b.Apply(q);
		}
	}
	// second order terms, none twice
	struct T
	{
		int i, j, k;
		double v;
	};
	std::vector<T> tt;
	for(int n = g.pick({0, 1, 2, 5, 15}); n > 0; --n)
	{
		T x{g.i(1, 6), g.i(1, 6), g.i(1, 6), g.sym(2)};
		bool twice = false;
		for(auto& y : tt)
			twice = twice || (x.i == y.i && std::min(x.j, x.k) == std::min(y.j, y.k) && std::max(x.j, x.k) == std::max(y.j, y.k));
		if(twice)
			continue;
		tt.push_back(x);
		c.desc << "T" << x.i << x.j << x.k << "=" << x.v << " ";
		t(x.i, x.j, x.k) = x.v;
	}
	c.nontrivial(terms > 3 && !tt.empty());
	const RMap& ca = a;
	for(int i = 0; i < 6; ++i)
		for(int j = 0; j < 6; ++j)
			c.eq(ca(i + 1, j + 1), r[i][j], "element");
	RealMatrix R(6, 6, 7.0), R0(6, 6, 0.0);
	a.ToMatrix(R);
	cmp(c, from(R), r, 0, "matrix");
	t.ToMatrix(R0, false);
	cmp(c, from(R0), r, 0, "matrix of a second order map");
	cmp(c, from((RealMatrix) a), r, 0, "conversion");
	const double tol = 1e-12 * (1 + norm(r)) * (1 + norm(r)) * 200;
	PSvector p = psv(g);
	p.id() = g.i(0, 1000);
	PSvector q = p, q2 = p;
	V x(6), y(6);
	for(int i = 0; i < 6; ++i)
		x[i] = p[i];
	y = mul(r, x);
	PSvector& back = a.Apply(q);
	c.check(&back == &q && q.id() == p.id(), "the particle itself is mapped");
	for(int i = 0; i < 6; ++i)
		c.near(q[i], y[i], 0, tol, "linear map " + std::to_string(i));
	for(auto& z : tt)
		y[z.i - 1] += z.v * x[z.j - 1] * x[z.k - 1];
	t.Apply(q2);
	c.eq(q2.id(), p.id(), "identity");
	for(int i = 0; i < 6; ++i)
		c.near(q2[i], y[i], 0, tol, "second order map " + std::to_string(i));
	PSmoments s = random_moments(g), e = image(s, r), s1 = s;
	a.Apply(s1);
	cmp(c, s1, e, tol * 10, "moments");
	SigmaMatrix sm;
	TPSMoments<2> s4;
	M r4 = zero(4, 4);
	for(int i = 0; i < 6; ++i)
		for(int j = 0; j <= i; ++j)
		{
			sm(i, j) = s(i, j);
			if(i < 4)
				s4(i, j) = s(i, j);
		}
	for(int i = 0; i < 6; ++i)
		s4[i] = s[i];
	a.Apply(sm);
	for(int i = 0; i < 6; ++i)
		for(int j = 0; j < 6; ++j)
			c.near(sm(i, j), e(i, j), 0, tol * 10, "covariance");
	// 4D moments: the centroid is six dimensional, the covariance that of the transverse block
	TPSMoments<2> s5 = s4;
	a.Apply(s5);
	for(int i = 0; i < 6; ++i)
		c.near(s5[i], e[i], 0, tol, "centroid");
	for(int i = 0; i < 4; ++i)
		for(int j = 0; j <= i; ++j)
		{
			double z = 0;
			for(int k = 0; k < 4; ++k)
				for(int l = 0; l < 4; ++l)
					z += r[i][k] * s4(k, l) * r[j][l];
			c.near(s5(i, j), z, 0, tol * 10, "transverse covariance");
		}
	// print and read back
	std::stringstream o;
	int what = g.i(0, 1);
	if(what)
	{
		a.MatrixForm(o);
		cmp(c, read(o, 6, 6), r, 1e-14, "printed matrix");
	}
	else
	{
		t.Print(o);
		std::string w;
		o >> w;
		c.eq(w, "R:", "heading");
		cmp(c, read(o, 6, 6), r, 1e-14, "printed linear part");
		o >> w;
		c.eq(w, "T:", "heading");
		for(int n = 1; n <= 6; ++n)
		{
			M m = zero(6, 6);
			for(auto& z : tt)
				if(z.i == n)
				{
					m[z.j - 1][z.k - 1] += z.v / 2;
					m[z.k - 1][z.j - 1] += z.v / 2;
				}
			cmp(c, read(o, 6, 6), m, 1e-14, "printed second order part " + std::to_string(n));
		}
	}
	c.check((bool) o, "all numbers are printed");
	std::string rest;
	c.check(!(o >> rest), "nothing else is printed");
}

LAW(drifts, 15000, 200000, "the simple drifts, one plane maps and maps at another momentum act as their matrices on particles and on moments")
{
	PSmoments s = random_moments(g);
	double L = g.pick({0., g.sym(3), g.logu(1e-6, 10)});
	c.desc << "L=" << L << " ";
	c.nontrivial(L != 0);
	M r = zero(6, 6);
	for(int i = 0; i < 6; ++i)
		r[i][i] = 1;
	r[0][1] = r[2][3] = L;
	PSmoments e = image(s, r), a = s;
	ApplySimpleDrift d(L);
	d(a);
	double tol = 1e-11 * (1 + L * L) * 50;
	cmp(c, a, e, tol, "drift");
	TPSMoments<2> s4;
	for(int i = 0; i < 6; ++i)
		s4[i] = s[i];
	for(int i = 0; i < 4; ++i)
		for(int j = 0; j <= i; ++j)
			s4(i, j) = s(i, j);
	TPSMoments<2> b = s4;
	d(b);
	for(int i = 0; i < 6; ++i)
		c.near(b[i], e[i], 0, tol, "drift: centroid");
	for(int i = 0; i < 4; ++i)
		for(int j = 0; j <= i; ++j)
			c.near(b(i, j), e(i, j), 0, tol, "drift: transverse covariance");
	PSvector p = psv(g), q = p, h = p;
	d(q);
	ApplyDriftWithPathLength{L}(h);
	for(int i = 0; i < 6; ++i)
	{
		double x = p[i] + (i == 0 ? L * p[1] : i == 2 ? L * p[3] : 0);
		c.near(q[i], x, 0, tol, "drift of a particle");
		c.near(h[i], x - (i == 4 ? L * (p[1] * p[1] + p[3] * p[3]) / 2 : 0), 0, tol, "drift of a particle with path length");
	}
	// one plane maps
	double m[2][4];
	for(auto& x : m)
		for(auto& y : x)
			y = g.sym(2);
	R2Map X(m[0][0], m[0][1], m[0][2], m[0][3]), Y(m[1][0], m[1][1], m[1][2], m[1][3]);
	M rr = zero(6, 6);
	for(int i = 0; i < 2; ++i)
		for(int j = 0; j < 2; ++j)
		{
			rr[i][j] = m[0][2 * i + j];
			rr[2 + i][2 + j] = m[1][2 * i + j];
		}
	rr[4][4] = rr[5][5] = 1;
	PSmoments f = image(s, rr);
	TPSMoments<2> k = s4;
	ApplyR2Map(X, k, 0);
	ApplyR2Map(Y, k, 1);
	ApplyR2Map(X, k, Y);
	for(int i = 0; i < 6; ++i)
		c.near(k[i], f[i], 0, 1e-11, "one plane maps: centroid");
	for(int i = 0; i < 4; ++i)
		for(int j = 0; j <= i; ++j)
			c.near(k(i, j), f(i, j), 0, 1e-10, "one plane maps: covariance");
	PSvector w = p;
	ApplyR2Map(X, w, 0);
	ApplyR2Map(Y, w, 1);
	V v(6);
	for(int i = 0; i < 6; ++i)
		v[i] = p[i];
	v = mul(rr, v);
	for(int i = 0; i < 6; ++i)
		c.near(w[i], v[i], 0, 1e-11, "one plane maps of a particle");
	bool near = g.b();
	R2Map I(1 + (near ? g.sym(4e-7) : g.pick({1e-3, -0.1, 1.0})), near ? 0 : g.sym(1), 0, 1 + g.sym(4e-7));
	c.check(I.IsIdentity() == near, "identity");
	RMap id;
	int ndf = g.i(1, 3);
	MakeIdentity(id, ndf);
	for(int i = 1; i <= 6; ++i)
		for(int j = 1; j <= 6; ++j)
			c.eq(((const RMap&) id)(i, j), double(i == j && i <= 2 * ndf), "identity map");
	// any container, at its own momentum or that of the map
	M t = gen(g, 6, 6);
	t[5].assign(6, 0);
	t[5][5] = 1;
	RMap T(to(t));
	double p0 = g.real(0.5, 2), p1 = g.real(0.5, 2);
	std::vector<PSvector> u;
	for(int n = g.i(0, 5); n > 0; --n)
		u.push_back(psv(g));
	auto u1 = u, u2 = u;
	ApplyMap(T, u1);
	ApplyMap(T, u2, p0, p1);
	for(size_t n = 0; n < u.size(); ++n)
	{
		V in(6), in2(6);
		for(int i = 0; i < 6; ++i)
			in[i] = in2[i] = u[n][i];
		in2[5] = p0 / p1 * (1 + in[5]) - 1;
		V o1 = mul(t, in), o2 = mul(t, in2);
		for(int i = 0; i < 6; ++i)
		{
			c.near(u1[n][i], o1[i], 0, 1e-11 * (1 + norm(t)), "map of a container");
			c.near(u2[n][i], i == 5 ? in[5] : o2[i], 0, 1e-11 * (1 + norm(t)), "map of a container at another momentum");
		}
	}
}

LAW(formats, 15000, 200000, "formatted numbers keep precision, width and alignment, and matrices are printed in aligned columns that read back")
{
	int prec = g.i(1, 16), width = g.pick({0, 1, 5, 12, 25}), style = g.i(0, 2), adj = g.i(0, 1);
	bool ovf = g.b();
	OPFormat f;
	f.precision(prec).width(width);
	if(style == 1)
		f.scientific();
	else if(style == 2)
		f.fixed();
	if(adj)
		f.left();
	else
		f.right();
	f.overflow(ovf);
	auto expect = [&](std::string raw, bool text)
		{
			int n = raw.size();
			if(n > width && !ovf)
				return text ? raw.substr(0, width - 2) + ".." : std::string(width, '*');
			if(n < width)
				return adj ? raw + std::string(width - n, ' ') : std::string(width - n, ' ') + raw;
			return raw;
		};
	c.desc << "precision " << prec << " width " << width << " style " << style << " adjust " << adj << " overflow " << ovf << " ";
	c.nontrivial();
	double v = g.chance(1, 8) ? 0 : g.sym(1) * std::pow(10.0, g.i(-12, 12));
	char buf[100];
	std::snprintf(buf, sizeof buf, style == 0 ? "%.*g" : style == 1 ? "%.*e" : "%.*f", prec, v);
	c.desc << v << " ";
	c.eq(f(v), expect(buf, false), "number");
	int n = g.i(-2000000, 2000000);
	c.eq(f(n), expect(std::to_string(n), false), "integer");
	std::string s(g.i(0, 30), 'x');
	for(auto& x : s)
		x = 'a' + g.raw(25);
	if(width >= 2 || ovf)
		c.eq(f(s), expect(s, true), "text");
	size_t rows = g.i(1, 6), cols = g.i(1, 6);
	M m = zero(rows, cols);
	for(auto& x : m)
		for(auto& y : x)
			y = g.chance(1, 5) ? 0 : g.sym(1) * std::pow(10.0, g.i(-3, 3));
	OPFormat h(prec);
	if(style == 1)
		h.scientific();
	else if(style == 2)
		h.fixed();
	std::stringstream o;
	if(style == 0 && prec == 16)
		MatrixForm(to(m), o);
	else
		MatrixForm(to(m), o, h);
	std::string line;
	size_t len = 0;
	for(size_t i = 0; i < rows; ++i)
	{
		c.check((bool) std::getline(o, line), "a line for each row");
		c.check(i == 0 || line.size() == len, "aligned columns");
		len = line.size();
		c.eq(len % cols, (size_t) 0, "columns of one width");
		std::istringstream in(line);
		for(size_t j = 0; j < cols; ++j)
		{
			std::string w;
			c.check((bool) (in >> w), "a number for each column");
			std::snprintf(buf, sizeof buf, style == 0 ? "%.*g" : style == 1 ? "%.*e" : "%.*f", prec, m[i][j]);
			c.eq(w, std::string(buf), "element");
		}
		c.check(!(in >> line), "no more numbers");
	}
	c.check(!std::getline(o, line), "no more lines");
}
