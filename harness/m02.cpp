// M02: dense linear algebra against naive long double evaluation and residual monitors.
#include "vh.h"
#include "TMatrixLib.h"
#include "TLAS.h"
#include "TLASimp.h"
#include "LinearAlgebra.h"
#include "MatrixPrinter.h"
#include "MerlinException.h"
using namespace vh;
using namespace TLAS;
typedef long double L;
typedef std::vector<std::vector<L> > DM;

static double val(Case& c) { switch(c.rng.range(0, 5)) { case 0: return 0; case 1: return c.rng.range(-3, 3); case 2: return c.rng.sgn() * c.rng.logu(1e-3, 1e3); default: return c.rng.sym(2); } }
static RealMatrix rnd(Case& c, int n, int m, DM* d = nullptr, bool smooth = false)
{
	RealMatrix a(n, m);
	if(d) d->assign(n, std::vector<L>(m));
	for(int i = 0; i < n; i++) for(int j = 0; j < m; j++) { double v = smooth ? c.rng.sym(2) : val(c); a(i, j) = v; if(d) (*d)[i][j] = v; }
	return a;
}
static RealVector rndv(Case& c, int n, bool smooth = false) { RealVector v(n); for(int i = 0; i < n; i++) v(i) = smooth ? c.rng.sym(2) : val(c); return v; }
static void same(Case& c, const RealMatrix& a, const DM& d, const char* key, double tol = 1e-12)
{
	if(!c.check(a.nrows() == d.size() && (d.empty() || a.ncols() == d[0].size()), key, "shape %zux%zu", (size_t) a.nrows(), (size_t) a.ncols())) return;
	L sc = 1; for(auto& r : d) for(L x : r) sc = std::max(sc, fabsl(x));
	for(size_t i = 0; i < d.size(); i++) for(size_t j = 0; j < d[i].size(); j++) c.near(a(i, j), d[i][j], tol * sc, 0, key, "(%zu,%zu)", i, j);
}
template<class E, class F> static void refuses(Case& c, F f, const char* key)
{
	bool thrown = false;
	try { f(); } catch(E&) { thrown = true; } catch(...) { c.fail(key, "wrong exception"); return; }
	c.ev("refusals"); c.check(thrown, key, "not refused");
}
FAMILY(vectors, 15000, 300000)
{
	int n = c.rng.range(1, 10);
	RealVector u = rndv(c, n), v = rndv(c, n), u0(u), v0(v);
	double s = c.rng.sgn() * c.rng.logu(0.1, 10);
	RealVector r[] = {u + v, u - v, s * u, u * s, s + u, u + s, s - u, u - s, u / s};
	L dot = 0;
	for(int i = 0; i < n; i++)
	{
		L e[] = {(L) u0(i) + v0(i), (L) u0(i) - v0(i), (L) s * u0(i), (L) s * u0(i), (L) s + u0(i), (L) s + u0(i), (L) s - u0(i), (L) u0(i) - s, (L) u0(i) / s};
		const char* k[] = {"v+v", "v-v", "s*v", "v*s", "s+v", "v+s", "s-v", "v-s", "v/s"};
		for(int q = 0; q < 9; q++) c.near(r[q](i), e[q], 1e-14, 1e-14, k[q]);
		dot += (L) u0(i) * v0(i);
	}
	c.near(u * v, dot, 1e-9, 1e-12, "dot");
	RealVector w(u); w += v; w -= u; for(int i = 0; i < n; i++) c.near(w(i), v0(i), 1e-11, 1e-12, "assign-ops");
	w.copy(u); w *= s; w /= s; for(int i = 0; i < n; i++) c.near(w(i), u0(i), 1e-13, 1e-13, "assign-ops");
	w += s; w -= s;  for(int i = 0; i < n; i++) c.near(w(i), u0(i), 1e-12, 1e-12, "assign-ops");
	w.copy(u); w *= v; for(int i = 0; i < n; i++) c.near(w(i), (L) u0(i) * v0(i), 0, 1e-14, "elementwise");
	c.check(u == u0 && v == v0, "operand-changed");
	c.check((u == v) == !(u != v), "equality-consistent");
	w.copy(u); w(c.rng.range(0, n - 1)) += 1 + fabs(w(0)); c.check(w != u, "inequality");
	// sub-ranges
	int a = c.rng.range(0, n - 1), b = c.rng.range(a, n - 1);
	Range rg(a, b);
	RealVector x(u); const RealVector cx(u);
	RealVector part = x(rg), cpart = cx(rg);
	c.check((int) part.size() == b - a + 1 && (int) cpart.size() == b - a + 1, "range-size");
	for(int i = a; i <= b; i++) { c.check(part(i - a) == u0(i) && cpart(i - a) == u0(i), "range-view"); }
	x(rg) *= s; x[rg] += 1.0;
	for(int i = 0; i < n; i++) c.near(x(i), (i >= a && i <= b) ? (L) u0(i) * s + 1 : (L) u0(i), 1e-13, 1e-13, "range-write");
	x(rg) = 0.0; for(int i = 0; i < n; i++) c.check(x(i) == ((i >= a && i <= b) ? 0.0 : u0(i)), "range-assign");
	x(rg) = part; for(int i = 0; i < n; i++) c.check(x(i) == u0(i), "range-assign-vector");
	L sf = 0, sq = 0; size_t im = 0; for(int i = a; i <= b; i++) { sf += fabs(u0(i)); sq += (L) u0(i) * u0(i); if(fabs(u0(i)) > fabs(u0(a + im))) im = i - a; }
	c.near(x(rg).sumfabs(), sf, 1e-12, 1e-12, "sumfabs"); c.near(x(rg).sumsquared(), sq, 1e-12, 1e-12, "sumsquared"); c.check(x(rg).locmaxabs() == im, "locmaxabs");
	c.near(x(rg) * u(rg), sq, 1e-12, 1e-12, "subvector-dot");
	int out = n + c.rng.range(0, 3);
	refuses<RangeError>(c, [&] { (void) x(out); }, "index-out-of-range");
	refuses<RangeError>(c, [&] { (void) cx[out]; }, "index-out-of-range");
	refuses<RangeError>(c, [&] { (void) x(Range(a, out)); }, "range-out-of-range");
	refuses<RangeError>(c, [&] { auto sv = x(rg); (void) sv(b - a + 1); }, "subvector-out-of-range");
	RealVector big(n + 1); big = 1.0;
	refuses<DimensionError>(c, [&] { (void) (u + big); }, "length-mismatch");
	refuses<DimensionError>(c, [&] { (void) (big - u); }, "length-mismatch");
	refuses<DimensionError>(c, [&] { (void) (u * big); }, "dot-length-mismatch");
	refuses<DimensionError>(c, [&] { (void) (big * u); }, "dot-length-mismatch");
	refuses<DimensionError>(c, [&] { x = big; }, "assign-mismatch");
	refuses<DimensionError>(c, [&] { x(rg) = big; }, "assign-mismatch");
	x.copy(big); c.check((int) x.size() == n + 1, "copy-resizes"); x.redim(3); c.check(x.size() == 3, "redim");
	c.note(s); c.note(uint64_t(n)); c.nontrivial(); c.sample(fmt("vectors of length %d, range [%d,%d], scalar %.3g", n, a, b, s));
}
FAMILY(matrices, 12000, 250000)
{
	int n = c.rng.range(1, 8), m = c.rng.range(1, 8), k = c.rng.range(1, 8);
	DM da, db, dc;
	RealMatrix A = rnd(c, n, m, &da), B = rnd(c, n, m, &db), C = rnd(c, m, k, &dc);
	const RealMatrix A0(A);
	double s = c.rng.sgn() * c.rng.logu(0.1, 10);
	DM r(n, std::vector<L>(m));
	auto each = [&](std::function<L(int, int)> f) { for(int i = 0; i < n; i++) for(int j = 0; j < m; j++) r[i][j] = f(i, j); return r; };
	same(c, A + B, each([&](int i, int j) { return da[i][j] + db[i][j]; }), "m+m");
	same(c, A - B, each([&](int i, int j) { return da[i][j] - db[i][j]; }), "m-m");
	same(c, s * A, each([&](int i, int j) { return s * da[i][j]; }), "s*m");
	same(c, A * s, each([&](int i, int j) { return s * da[i][j]; }), "m*s");
	RealMatrix D(A); D += B; D -= A; same(c, D, db, "assign-ops", 1e-11); D.copy(A); D *= s; D /= s; same(c, D, da, "assign-ops");
	// product
	DM p(n, std::vector<L>(k, 0)); for(int i = 0; i < n; i++) for(int j = 0; j < k; j++) for(int q = 0; q < m; q++) p[i][j] += da[i][q] * dc[q][j];
	try { same(c, A * C, p, "product", 1e-11); } catch(DimensionError&) { c.fail("product-refused", fmt("%dx%d * %dx%d", n, m, m, k)); }
	if(k != n) { RealMatrix E = rnd(c, k == m ? k + 1 : k, 3); if((int) E.nrows() != m) refuses<DimensionError>(c, [&] { (void) (A * E); }, "product-mismatch"); }
	RealVector v = rndv(c, m), y = A * v;
	if(c.check((int) y.size() == n, "matvec-shape")) for(int i = 0; i < n; i++) { L e = 0; for(int j = 0; j < m; j++) e += da[i][j] * v(j); c.near(y(i), e, 1e-9, 1e-11, "matvec"); }
	RealVector wrong(m + 1); wrong = 1.0; refuses<DimensionError>(c, [&] { (void) (A * wrong); }, "matvec-mismatch");
	if(n != m) refuses<DimensionError>(c, [&] { RealMatrix T(m, n); (void) (A + T); }, "sum-mismatch");
	// transpose
	RealMatrix T = Transpose(A); DM dt(m, std::vector<L>(n)); for(int i = 0; i < n; i++) for(int j = 0; j < m; j++) dt[j][i] = da[i][j];
	same(c, T, dt, "transpose"); same(c, Transpose(T), da, "transpose-twice");
	// views
	int i0 = c.rng.range(0, n - 1), i1 = c.rng.range(i0, n - 1), j0 = c.rng.range(0, m - 1), j1 = c.rng.range(j0, m - 1);
	RealMatrix V(A); const RealMatrix cV(A);
	DM ds; for(int i = i0; i <= i1; i++) ds.push_back(std::vector<L>(da[i].begin() + j0, da[i].begin() + j1 + 1));
	same(c, RealMatrix(V(Range(i0, i1), Range(j0, j1))), ds, "submatrix"); same(c, RealMatrix(cV(Range(i0, i1), Range(j0, j1))), ds, "submatrix");
	RealMatrix blk = rnd(c, i1 - i0 + 1, j1 - j0 + 1);
	V(Range(i0, i1), Range(j0, j1)) = blk;
	for(int i = 0; i < n; i++) for(int j = 0; j < m; j++) { bool in = i >= i0 && i <= i1 && j >= j0 && j <= j1; c.check(V(i, j) == (in ? blk(i - i0, j - j0) : A0(i, j)), "submatrix-assign"); }
	V(Range(i0, i1), Range(j0, j1)) *= s; V(Range(i0, i1), Range(j0, j1)) += 2.0;
	for(int i = 0; i < n; i++) for(int j = 0; j < m; j++) { bool in = i >= i0 && i <= i1 && j >= j0 && j <= j1; c.near(V(i, j), in ? blk(i - i0, j - j0) * s + 2 : A0(i, j), 1e-12, 1e-13, "submatrix-write"); }
	V = A0;
	RealVector row = V.row(i0), col = V.column(j0), crow = cV.row(i0), ccol = cV.column(j0), br = V[i0];
	c.check((int) row.size() == m && (int) col.size() == n, "row-column-size");
	for(int j = 0; j < m; j++) c.check(row(j) == A0(i0, j) && crow(j) == A0(i0, j) && br(j) == A0(i0, j), "row");
	for(int i = 0; i < n; i++) c.check(col(i) == A0(i, j0) && ccol(i) == A0(i, j0), "column");
	RealVector pr = V(i0, Range(j0, j1)), pc = V(Range(i0, i1), j0), cpr = cV(i0, Range(j0, j1)), cpc = cV(Range(i0, i1), j0);
	for(int j = j0; j <= j1; j++) c.check(pr(j - j0) == A0(i0, j) && cpr(j - j0) == A0(i0, j), "partial-row");
	for(int i = i0; i <= i1; i++) c.check(pc(i - i0) == A0(i, j0) && cpc(i - i0) == A0(i, j0), "partial-column");
	V.row(i0) *= s; V.column(j0) += 1.0;
	for(int i = 0; i < n; i++) for(int j = 0; j < m; j++) c.near(V(i, j), A0(i, j) * (i == i0 ? s : 1) + (j == j0 ? 1 : 0), 1e-12, 1e-13, "row-column-write");
	refuses<RangeError>(c, [&] { (void) V(n, 0); }, "index"); refuses<RangeError>(c, [&] { (void) V(0, m); }, "index"); refuses<RangeError>(c, [&] { (void) V.row(n); }, "index");
	refuses<RangeError>(c, [&] { (void) V.column(m); }, "index"); refuses<RangeError>(c, [&] { (void) V(Range(0, n), Range(0, m - 1)); }, "index"); refuses<RangeError>(c, [&] { (void) cV(Range(0, n - 1), Range(0, m)); }, "index");
	same(c, A, da, "operand-changed"); same(c, B, db, "operand-changed"); same(c, C, dc, "operand-changed");
	RealMatrix I{IdentityMatrix(n)}; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) c.check(I(i, j) == (i == j), "identity");
	if(n == m) { RealMatrix AI(A * I); same(c, AI, da, "times-identity"); }
	// text form has one line per row
	std::ostringstream os; os << std::setprecision(17) << A; std::istringstream is(os.str()); std::string line; int nl = 0;
	while(std::getline(is, line)) { std::istringstream ls(line); double x; int q = 0; while(ls >> x) { if(nl < n && q < m) c.check(x == A0(nl, q), "printed-element"); q++; } c.check(q == m, "printed-columns"); nl++; }
	c.check(nl == n, "printed-rows", "%d of %d", nl, n);
	std::ostringstream ms; MatrixForm(A, ms, OPFormat().precision(9).scientific()); std::istringstream mi(ms.str()); int cnt = 0; double x; while(mi >> x) { if(cnt < n * m) c.near(x, A0(cnt / m, cnt % m), 1e-300, 1e-8, "matrix-form"); cnt++; } c.check(cnt == n * m, "matrix-form-count", "%d", cnt);
	A.redim(k, n); c.check((int) A.nrows() == k && (int) A.ncols() == n, "redim");
	c.note(s); c.note(uint64_t(n * 100 + m * 10 + k)); c.nontrivial(); c.sample(fmt("matrices %dx%d, %dx%d; view [%d..%d]x[%d..%d]", n, m, m, k, i0, i1, j0, j1));
}
// matrices U diag V with prescribed conditioning
static DM gram(Case& c, int n)
{
	DM q(n, std::vector<L>(n));
	for(auto& r : q) for(auto& x : r) x = c.rng.normal();
	for(int i = 0; i < n; i++)
	{
		for(int pass = 0; pass < 2; pass++)
			for(int j = 0; j < i; j++) { L d = 0; for(int k = 0; k < n; k++) d += q[i][k] * q[j][k]; for(int k = 0; k < n; k++) q[i][k] -= d * q[j][k]; }
		L s = 0; for(L x : q[i]) s += x * x; s = sqrtl(s); for(L& x : q[i]) x /= s;
	}
	return q;
}
static RealMatrix cond(Case& c, int n, int m, double kappa, DM& d, std::vector<L>* sv = nullptr, int rank = -1)
{
	DM u = gram(c, n), v = gram(c, m); int r = std::min(n, m);
	std::vector<L> s(r); for(int i = 0; i < r; i++) s[i] = i == 0 ? 1 : (i == 1 ? 1 / kappa : c.rng.logu(1 / kappa, 1));
	if(rank >= 0) for(int i = rank; i < r; i++) s[i] = 0;
	double scale = c.rng.logu(0.1, 10); for(L& x : s) x *= scale;
	d.assign(n, std::vector<L>(m, 0)); RealMatrix A(n, m);
	for(int i = 0; i < n; i++) for(int j = 0; j < m; j++) { for(int k = 0; k < r; k++) d[i][j] += u[k][i] * s[k] * v[k][j]; A(i, j) = d[i][j]; d[i][j] = A(i, j); }
	if(sv) *sv = s;
	return A;
}
static L detof(DM a)
{
	L d = 1; int n = a.size();
	for(int j = 0; j < n; j++)
	{
		int p = j; for(int i = j; i < n; i++) if(fabsl(a[i][j]) > fabsl(a[p][j])) p = i;
		if(a[p][j] == 0) return 0;
		if(p != j) { std::swap(a[p], a[j]); d = -d; } d *= a[j][j];
		for(int i = j + 1; i < n; i++) { L f = a[i][j] / a[j][j]; for(int k = j; k < n; k++) a[i][k] -= f * a[j][k]; }
	}
	return d;
}
FAMILY(inverse_lu, 8000, 150000)
{
	int n = c.rng.range(1, 9); DM d; double kappa = c.rng.logu(1, 1e6);
	RealMatrix A = cond(c, n, n, kappa, d);
	if(c.rng.chance(0.3)) // permutation / sparse shapes need row exchanges
	{
		std::vector<int> p(n); for(int i = 0; i < n; i++) p[i] = i; c.rng.shuffle(p);
		for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { A(i, j) = p[i] == j ? c.rng.sgn() * c.rng.logu(0.1, 10) : (c.rng.chance(0.2) && j > p[i] ? c.rng.sym(1) : 0); d[i][j] = A(i, j); }
		kappa = 1e5;
	}
	double tol = 1e-14 * kappa * n * 20; c.note(A(0, 0)); c.note(uint64_t(n));
	RealMatrix W(A); double piv = Invert(W); c.check(piv > 0, "min-pivot");
	L amax = 0, wmax = 0; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { amax = std::max(amax, fabsl(d[i][j])); wmax = std::max(wmax, (L) fabs(W(i, j))); }
	auto ident = [&](const RealMatrix& X, const char* key) {
		for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { L e = 0, f = 0; for(int k = 0; k < n; k++) { e += d[i][k] * X(k, j); f += X(i, k) * d[k][j]; } c.near(e, i == j, tol * (1 + amax * wmax * 1e-3), 0, key); c.near(f, i == j, tol * (1 + amax * wmax * 1e-3), 0, key); } };
	ident(W, "inverse");
	const RealMatrix cA(A);
	ident(TLAS::Invert(cA), "inverse-lu");
	same(c, cA, d, "operand-changed");
	LUMatrix<double> lu(A); RealVector b = rndv(c, n, true); const RealVector b0(b); RealVector x = lu(b0);
	for(int i = 0; i < n; i++) { L e = 0; for(int j = 0; j < n; j++) e += d[i][j] * x(j); c.near(e, b0(i), tol * (1 + amax * wmax), 0, "lu-solve"); }
	lu(b); for(int i = 0; i < n; i++) c.near(b(i), x(i), 1e-13, 1e-12, "lu-solve-in-place");
	RealVector z(n); z = 0.0; lu(z); for(int i = 0; i < n; i++) c.check(z(i) == 0, "lu-zero-rhs");
	z = 0.0; z(n - 1) = 1; lu(z); for(int i = 0; i < n; i++) c.near(z(i), W(i, n - 1), tol * wmax, 1e-9, "lu-unit-rhs");
	RealMatrix cm(n, 3); cm.column(1) = b0; { auto sv = cm.column(1); lu(sv); } for(int i = 0; i < n; i++) { c.near(cm(i, 1), x(i), 1e-13, 1e-12, "lu-solve-column"); c.check(cm(i, 0) == 0 && cm(i, 2) == 0, "lu-solve-column-stray"); }
	L dd = detof(d); c.near(lu.det(), dd, 1e-16 * kappa, 1e-10, "determinant", "n=%d", n); c.near(Det(cA), dd, 1e-16 * kappa, 1e-10, "determinant");
	if(n > 1)
	{
		RealMatrix S(A); S.row(0) = 0.0; refuses<SingularMatrix>(c, [&] { RealMatrix q(S); Invert(q); }, "singular-row"); refuses<SingularMatrix>(c, [&] { LUMatrix<double> q(S); }, "singular-row-lu");
		RealMatrix R(n, n + 1); refuses<NonSquareMatrix>(c, [&] { RealMatrix q(R); Invert(q); }, "non-square"); refuses<DimensionError>(c, [&] { LUMatrix<double> q(R); }, "non-square-lu");
	}
	c.nontrivial(); c.sample(fmt("n=%d kappa=%.1e", n, kappa));
}
FAMILY(svd, 6000, 120000)
{
	int n = c.rng.range(1, 9), m = c.rng.range(1, 9); DM d; double kappa = c.rng.logu(1, 1e3); std::vector<L> s;
	int rmax = std::min(n, m), rank = c.rng.chance(0.25) ? c.rng.range(1, rmax) : rmax;
	RealMatrix A = cond(c, n, m, kappa, d, &s, rank); const RealMatrix A0(A);
	RealVector b = rndv(c, n, true), wt(n); bool wtd = c.rng.chance(0.4); for(int i = 0; i < n; i++) wt(i) = wtd ? c.rng.logu(0.3, 3) : 1;
	c.note(A(0, 0)); c.note(uint64_t(n * 16 + m)); c.note(uint64_t(rank));
	std::unique_ptr<SVDMatrix<double> > S;
	try { S.reset(wtd ? new SVDMatrix<double>(A, wt, 1e-7) : new SVDMatrix<double>(A, 1e-7)); }
	catch(ConvergenceFailure&) { c.fail("svd-no-convergence", fmt("%dx%d rank %d", n, m, rank)); return; }
	catch(DimensionError&) { c.fail("svd-refused", fmt("%dx%d", n, m)); return; }
	same(c, A, d, "operand-changed");
	// decomposition reproduces the (weighted) matrix
	RealMatrix U(S->U()), V(S->V()); RealVector W(S->W());
	if(!c.check((int) W.size() == m && (int) V.nrows() == m && (int) V.ncols() == m && (int) U.ncols() == m, "svd-shape")) return;
	L sc = 0; for(int i = 0; i < n; i++) for(int j = 0; j < m; j++) sc = std::max(sc, fabsl(d[i][j] * wt(i)));
	for(int i = 0; i < n; i++) for(int j = 0; j < m; j++) { L e = 0; for(int k = 0; k < m; k++) e += (L) U(i, k) * W(k) * V(j, k); c.near(e, d[i][j] * wt(i), 3e-7 * sc, 0, "svd-product"); }
	for(int i = 0; i < m; i++) { c.check(W(i) >= 0, "singular-value-sign"); for(int j = 0; j < m; j++) { L e = 0; for(int k = 0; k < m; k++) e += (L) V(k, i) * V(k, j); c.near(e, i == j, 1e-11, 0, "svd-v-orthogonal"); } }
	int nz = 0; for(int i = 0; i < m; i++) if(W(i) > 0) { nz++; c.check(S->wflags()[i], "svd-flag"); for(int j = 0; j < m; j++) if(W(j) > 0) { L e = 0; for(int k = 0; k < n; k++) e += (L) U(k, i) * U(k, j); c.near(e, i == j, 1e-9, 0, "svd-u-orthogonal"); } } else c.check(!S->wflags()[i], "svd-flag");
	c.check(nz == rank, "svd-rank", "%d of %d (%dx%d)", nz, rank, n, m);
	if(!wtd) { std::vector<L> t(s.begin(), s.end()), q; for(int i = 0; i < m; i++) q.push_back(W(i)); t.resize(m, 0); std::sort(t.begin(), t.end()); std::sort(q.begin(), q.end()); for(int i = 0; i < m; i++) c.near(q[i], t[i], 1e-9 * s[0], 0, "singular-values"); }
	// weighted least squares: normal equations hold; minimum norm: x has no component in the null space
	RealVector x = (*S)(b); L xn = 0; for(int i = 0; i < m; i++) xn = std::max(xn, (L) fabs(x(i)));
	for(int j = 0; j < m; j++) { L e = 0; for(int i = 0; i < n; i++) { L r = -b(i); for(int k = 0; k < m; k++) r += d[i][k] * x(k); e += d[i][j] * wt(i) * wt(i) * r; } c.near(e, 0, 1e-10 * (1 + xn) * sc * 10 * (1 + sc), 0, "least-squares"); }
	for(int k = 0; k < m; k++) if(W(k) == 0) { L e = 0; for(int j = 0; j < m; j++) e += V(j, k) * x(j); c.near(e, 0, 1e-9 * (1 + xn), 0, "minimum-norm"); c.ev("null-space"); }
	if(n < m) c.ev("underdetermined"); else if(n > m) c.ev("overdetermined");
	RealMatrix Z(n, m, 0.0); refuses<SingularValuesAllZero>(c, [&] { SVDMatrix<double> q(Z); }, "svd-all-zero");
	c.nontrivial(); c.sample(fmt("%dx%d rank %d weights %d", n, m, rank, wtd));
}
FAMILY(symmetric_eigen, 5000, 100000)
{
	int n = c.rng.range(1, 9); DM q = gram(c, n), d(n, std::vector<L>(n, 0)); std::vector<L> ev(n);
	for(int i = 0; i < n; i++) ev[i] = c.rng.chance(0.15) && i ? ev[i - 1] : (c.rng.chance(0.1) ? 0 : c.rng.sgn() * c.rng.logu(1e-3, 1e2));
	bool diagonal = c.rng.chance(0.1); if(diagonal) for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) q[i][j] = i == j;
	RealMatrix A(n, n); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { for(int k = 0; k < n; k++) d[i][j] += q[k][i] * ev[k] * q[k][j]; }
	for(int i = 0; i < n; i++) for(int j = 0; j <= i; j++) A(i, j) = A(j, i) = d[i][j];
	for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) d[i][j] = A(i, j);
	RealVector e; EigenSystemSymmetricMatrix(A, e);
	L sc = 1e-3; for(L x : ev) sc = std::max(sc, fabsl(x));
	c.check((int) e.size() == n, "eigen-size");
	for(int k = 0; k < n; k++)
	{
		for(int i = 0; i < n; i++) { L r = -e(k) * A(i, k); for(int j = 0; j < n; j++) r += d[i][j] * A(j, k); c.near(r, 0, 1e-9 * sc, 0, "eigenvector"); }
		for(int l = 0; l < n; l++) { L o = 0; for(int j = 0; j < n; j++) o += (L) A(j, k) * A(j, l); c.near(o, k == l, 1e-11, 0, "eigenvectors-orthonormal"); }
	}
	std::vector<L> a(ev), b; for(int i = 0; i < n; i++) b.push_back(e(i)); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); for(int i = 0; i < n; i++) c.near(b[i], a[i], 1e-10 * sc, 0, "eigenvalues");
	c.note(A(0, 0)); c.note((double) ev[0]); c.nontrivial(); c.sample(fmt("n=%d largest %.3Lg", n, sc));
}
// random 6x6 symplectic maps: product of focusing, drifts and weak coupling
typedef L M6[6][6];
static void mul(const M6 a, const M6 b, M6 r) { for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) { L s = 0; for(int k = 0; k < 6; k++) s += a[i][k] * b[k][j]; r[i][j] = s; } }
static void symp(Case& c, M6 m, double coupling, double* mu)
{
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) m[i][j] = 0;
	for(int p = 0; p < 3; p++)
	{
		double b = c.rng.logu(0.2, 20), a = c.rng.sym(2), ph = mu[p]; if(c.rng.chance(0.15)) { b = 1; a = 0; } int i = 2 * p; double g = (1 + a * a) / b;
		m[i][i] = cosl(ph) + a * sinl(ph); m[i][i + 1] = b * sinl(ph); m[i + 1][i] = -g * sinl(ph); m[i + 1][i + 1] = cosl(ph) - a * sinl(ph);
	}
	// thin couplings exp(S H) with nilpotent H: p_i += h_ij x_j (symmetric)
	M6 k, t; for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) k[i][j] = i == j;
	for(int p = 0; p < 3; p++) for(int q = 0; q < p; q++) { L h = coupling * c.rng.sym(1); k[2 * p + 1][2 * q] += h; k[2 * q + 1][2 * p] += h; }
	mul(k, m, t); memcpy(m, t, sizeof(M6));
}
static L sympErr(const RealMatrix& a)
{
	L w = 0; auto S = [](int i, int j) -> L { return i / 2 != j / 2 ? 0 : (i == j ? 0 : (i < j ? 1 : -1)); };
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) { L e = 0; for(int k = 0; k < 6; k += 2) e += a(k, i) * (L) a(k + 1, j) - a(k + 1, i) * (L) a(k, j); w = std::max(w, fabsl(e - S(i, j))); }
	return w;
}
FAMILY(symplectify, 3000, 60000)
{
	double mu[3]; for(double& x : mu) x = c.rng.uni(0.3, 2.6); M6 m; symp(c, m, 0.02, mu);
	RealMatrix A(6, 6), E(6, 6); for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) E(i, j) = m[i][j];
	double eps = c.rng.logu(1e-12, 1e-5); A = E; for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) A(i, j) += eps * c.rng.sym(1);
	Symplectify(A); L sc = 0; for(int i = 0; i < 36; i++) sc = std::max(sc, (L) fabs(E(i / 6, i % 6)));
	c.near(sympErr(A), 0, 1e-11 * (1 + sc * sc), 0, "symplectic"); for(int i = 0; i < 36; i++) c.near(A(i / 6, i % 6), E(i / 6, i % 6), 300 * (eps + 1e-15) * (1 + sc * sc), 0, "stays-near");
	RealMatrix B(E); Symplectify(B); for(int i = 0; i < 36; i++) c.near(B(i / 6, i % 6), E(i / 6, i % 6), 1e-12 * (1 + sc * sc), 0, "symplectic-unchanged");
	c.note(mu[0]); c.note(eps); c.nontrivial(); c.sample(fmt("mu=%.3f,%.3f,%.3f eps=%.1e", mu[0], mu[1], mu[2], eps));
}
FAMILY(eigensystem, 3000, 60000)
{
	double mu[3]; mu[0] = c.rng.uni(0.25, 0.9); mu[1] = c.rng.uni(1.2, 1.8); mu[2] = c.rng.uni(2.1, 2.8); for(double& x : mu) x *= c.rng.sgn();
	double cp = c.rng.pick({0.0, 1e-4, 3e-4, 1e-3}); M6 m; symp(c, m, cp, mu); RealMatrix A(6, 6); for(int i = 0; i < 36; i++) A(i / 6, i % 6) = m[i / 6][i % 6];
	RealMatrix A0(A); ComplexVector ev; ComplexMatrix vec;
	try { if(!EigenSystem(A, ev, vec)) c.fail("eigensystem-stable-called-unstable", ""); }
	catch(SingularMatrix&) { c.fail("eigensystem-singular", fmt("coupling %g", cp)); return; }
	for(int i = 0; i < 36; i++) c.check(A(i / 6, i % 6) == A0(i / 6, i % 6), "operand-changed");
	for(int p = 0; p < 3; p++)
	{
		c.near(std::abs(ev(p)), 1, 1e-6, 0, "eigenvalue-on-circle"); L vs = 0; for(int j = 0; j < 6; j++) vs = std::max(vs, (L) std::abs(Complex(vec(p, j))));
		for(int i = 0; i < 6; i++) { std::complex<L> r = 0; for(int j = 0; j < 6; j++) r += m[i][j] * std::complex<L>(Complex(vec(p, j))); r -= std::complex<L>(ev(p)) * std::complex<L>(Complex(vec(p, i))); c.near(std::abs(r), 0, 1e-7 * vs * 30, 0, "eigenvector6", "plane %d coupling %g", p, cp); }
		std::complex<L> n = 0; for(int k = 0; k < 6; k += 2) n += std::conj(std::complex<L>(Complex(vec(p, k)))) * std::complex<L>(Complex(vec(p, k + 1))) - std::conj(std::complex<L>(Complex(vec(p, k + 1)))) * std::complex<L>(Complex(vec(p, k)));
		c.near(n.real(), 0, 1e-7, 0, "normalised"); c.near(n.imag(), 1, 1e-7, 0, "normalised");
	}
	// the three eigenvalues belong to the three planes
	if(cp <= 3e-4) for(int p = 0; p < 3; p++) c.near(ev(p).real(), cos(mu[p]), 0.3, 0, "plane-assignment");
	c.note(mu[0]); c.note(cp); c.nontrivial(); c.sample(fmt("mu=%.3f,%.3f,%.3f coupling %.0e", mu[0], mu[1], mu[2], cp));
}
