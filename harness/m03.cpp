// M03: sparse/dense linear maps, second-order maps and moment propagation against dense long double matrices.
#include "vh.h"
#include "RMap.h"
#include "RTMap.h"
#include "MatrixMaps.h"
#include "TransportRMap.h"
#include "TransportMatrix.h"
#include "BasicTransportMaps.h"
#include "PSTypes.h"
#include "MatrixPrinter.h"
#include "PhysicalConstants.h"
using namespace vh;
typedef long double L;
struct M6
{
	L m[6][6];
	M6(bool id = false) { for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) m[i][j] = id && i == j; }
	L* operator[](int i) { return m[i]; }
	const L* operator[](int i) const { return m[i]; }
};
static M6 mul(const M6& a, const M6& b) { M6 r; for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) for(int k = 0; k < 6; k++) r[i][j] += a[i][k] * b[k][j]; return r; }
static M6 expm(M6 a) // exp by scaling and squaring
{
	L n = 0; for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) n = std::max(n, fabsl(a[i][j]));
	int s = 0; while(n > 0.05L) { n /= 2; s++; }
	M6 r(true), t(true); for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) a[i][j] = ldexpl(a[i][j], -s);
	for(int k = 1; k < 18; k++) { t = mul(t, a); for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) { t[i][j] /= k; r[i][j] += t[i][j]; } }
	while(s--) r = mul(r, r);
	return r;
}
static double val(Case& c) { switch(c.rng.range(0, 4)) { case 0: return c.rng.sgn() * c.rng.logu(1e-4, 1e2); case 1: return c.rng.range(-3, 3); default: return c.rng.sym(2); } }
static PSvector pv(Case& c) { PSvector p(0); for(int i = 0; i < 6; i++) p[i] = val(c); p.id() = c.rng.range(-5, 100000); return p; }
static RMap rndmap(Case& c, M6& d, int ndf = 3)
{
	RMap R; d = M6();
	int how = c.rng.range(0, 3), n = 2 * ndf;
	std::vector<std::pair<int, int> > cells;
	double dens = c.rng.pick({0.1, 0.5, 1.0});
	for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) if(c.rng.chance(dens)) cells.push_back({i, j});
	c.rng.shuffle(cells);
	if(how == 3) { RealMatrix A(n, n, 0.0); for(auto& q : cells) { A(q.first, q.second) = val(c); d[q.first][q.second] = A(q.first, q.second); } R = RMap(A); c.ev("from-matrix"); }
	else for(auto& q : cells)
	{
		double v = val(c); d[q.first][q.second] = v;
		if(how == 0) R.AddTerm(q.first + 1, q.second + 1, v); else if(how == 1) R.AddTerm(q.first + 1, q.second + 1) = v;
		else { R(q.first + 1, q.second + 1) = 7; R(q.first + 1, q.second + 1) = v; }
	}
	return R;
}
template<int N> static void rndmom(Case& c, TPSMoments<N>& S, int n = 2 * N)
{
	for(int i = 0; i < 6; i++) S[i] = val(c);
	for(int i = 0; i < n; i++) for(int j = 0; j <= i; j++) { double v = val(c); if(c.rng.chance(0.5)) S(i, j) = v; else S(j, i) = v; c.check(S(i, j) == S(j, i) && S(i, j) == v, "symmetric-storage"); }
}
static L scale(const M6& d) { L s = 1; for(int i = 0; i < 6; i++) { L r = 0; for(int j = 0; j < 6; j++) r += fabsl(d[i][j]); s = std::max(s, r); } return s; }
template<class S> static void cmpmom(Case& c, const S& got, const S& in, const M6& d, int n, const char* key)
{
	L sc = scale(d), mx = 1; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) mx = std::max(mx, fabsl((L) in.sig(i, j)));
	for(int i = 0; i < n; i++) for(int j = 0; j <= i; j++)
		{ L e = 0; for(int k = 0; k < n; k++) for(int l = 0; l < n; l++) e += d[i][k] * d[j][l] * in.sig(k, l); c.near(got.sig(i, j), e, 1e-13 * sc * sc * mx, 1e-11, key, "second moment (%d,%d)", i, j); }
}
static void cmpvec(Case& c, const PSvector& got, const PSvector& in, const M6& d, int n, const char* key)
{
	L sc = scale(d) * 200;
	for(int i = 0; i < n; i++) { L e = 0; for(int k = 0; k < 6; k++) e += d[i][k] * in[k]; c.near(got[i], e, 1e-14 * sc, 1e-12, key, "coordinate %d", i); }
}
FAMILY(sparse, 15000, 300000)
{
	M6 d; RMap R = rndmap(c, d);
	RMap C(R), A; A = R; { RMap dead(rndmap(c, *new M6)); R = dead; R = C; } // R rebuilt from a copy
	const RMap& K = R; R = K; // self assignment
	RealMatrix m(6, 6), m2 = R; R.ToMatrix(m); RealMatrix m3(6, 6, 0.25); C.ToMatrix(m3, false); RealMatrix m4 = A;
	std::ostringstream os; R.MatrixForm(os); std::istringstream is(os.str()); int cnt = 0; double x;
	while(is >> x) { if(cnt < 36) c.near(x, d[cnt / 6][cnt % 6], 1e-2 * (fabsl(d[cnt / 6][cnt % 6]) + 0.01), 0, "printed"); cnt++; }
	c.check(cnt == 36, "printed-count", "%d", cnt);
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++)
		{ c.check(K(i + 1, j + 1) == (double) d[i][j], "element"); c.check(m(i, j) == (double) d[i][j] && m2(i, j) == (double) d[i][j] && m4(i, j) == (double) d[i][j], "to-matrix"); if(d[i][j] != 0) c.check(m3(i, j) == (double) d[i][j], "to-matrix-no-init"); }
	PSmoments S; rndmom(c, S); PSmoments S0(S);
	R.Apply(S); cmpmom(c, S, S0, d, 6, "moments"); cmpvec(c, S, S0, d, 6, "moments-centroid");
	SigmaMatrix s6; for(int i = 0; i < 6; i++) for(int j = 0; j <= i; j++) s6(i, j) = S0(i, j);
	SigmaMatrix s60(s6); C.Apply(s6); cmpmom(c, s6, s60, d, 6, "sigma6");
	TPSMoments<2> Q; rndmom(c, Q); TPSMoments<2> Q0(Q); A.Apply(Q); cmpmom(c, Q, Q0, d, 4, "moments4"); cmpvec(c, Q, Q0, d, 6, "moments4-centroid");
	PSmomentsArray arr(c.rng.range(0, 4)); for(auto& a : arr) rndmom(c, a); PSmomentsArray a0(arr);
	ApplyMap(R, arr); for(size_t i = 0; i < arr.size(); i++) { cmpmom(c, arr[i], a0[i], d, 6, "array"); cmpvec(c, arr[i], a0[i], d, 6, "array"); }
	// composition: apply R then R2 = apply R2*R
	M6 d2; RMap R2 = rndmap(c, d2); M6 p = mul(d2, d); PSmoments T(S0); R.Apply(T); R2.Apply(T);
	L sc = scale(d) * scale(d2), mx = 200; for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) mx = std::max(mx, fabsl((L) S0.sig(i, j)));
	for(int i = 0; i < 6; i++) for(int j = 0; j <= i; j++) { L e = 0; for(int k = 0; k < 6; k++) for(int l = 0; l < 6; l++) e += p[i][k] * p[j][l] * S0.sig(k, l); c.near(T(i, j), e, 1e-12 * sc * sc * mx, 1e-10, "composition"); }
	if(!c.rng.range(0, 3)) { RMap I; int n = c.rng.range(1, 3); MakeIdentity(I, n); for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) c.check(((const RMap&) I)(i + 1, j + 1) == (i == j && i < 2 * n), "identity"); }
	// std / var / correlations
	for(int i = 0; i < 6; i++) { S0(i, i) = fabs(S0(i, i)) + 0.1; }
	for(int i = 0; i < 6; i++) { c.check(S0.var(i) == S0(i, i) && S0.mean(i) == S0[i], "var-mean"); c.near(S0.std(i), sqrtl(S0(i, i)), 0, 1e-14, "std"); for(int j = 0; j < 6; j++) c.near(S0.r_ij(i, j), S0(i, j) / sqrtl((L) S0(i, i) * S0(j, j)), 0, 1e-13, "correlation"); }
	PSmoments same(S0); c.check(static_cast<SigmaMatrix&>(same) == static_cast<SigmaMatrix&>(S0), "equal"); int q = c.rng.range(0, 5), r = c.rng.range(0, 5); same(q, r) += 1; c.check(static_cast<SigmaMatrix&>(same) != static_cast<SigmaMatrix&>(S0), "not-equal"); same.Zero(); c.check(same(q, r) == 0, "zero");
	c.note((double) (d[0][0] + d[3][2])); c.note(S0[0]); c.nontrivial(); c.sample(fmt("6x6 map, r11=%.3g, |R|=%.3g", (double) d[0][0], (double) scale(d)));
}
FAMILY(second_order, 15000, 300000)
{
	M6 d; RMap lin = rndmap(c, d); RealMatrix mat = lin;
	std::vector<std::array<int, 3> > t; std::vector<double> tv;
	RTMap* T = c.rng.chance(0.5) ? new RTMap(mat) : new RTMap;
	bool first = c.rng.chance(0.5);
	auto nl = [&] { for(int n = c.rng.range(0, 40); n > 0; n--) { std::array<int, 3> a = {c.rng.range(1, 6), c.rng.range(1, 6), c.rng.range(1, 6)}; t.push_back(a); tv.push_back(val(c)); (*T)(a[0], a[1], a[2]) = tv.back(); } };
	if(first) nl();
	for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) if(d[i][j] != 0) (*T)(i + 1, j + 1) = (double) d[i][j];
	if(!first) nl();
	RTMap cp(*T), as; as = *T; delete T;
	PSvectorArray v(c.rng.range(1, 4)); for(auto& p : v) p = pv(c);
	PSvectorArray v0(v), w(v);
	ApplyMap(cp, v); for(auto& p : w) { PSvector& r = as.Apply(p); c.check(&r == &p, "returns-argument"); }
	for(size_t q = 0; q < v.size(); q++)
	{
		c.check(v[q] == w[q], "copy-agrees"); c.check(v[q].id() == v0[q].id(), "identity-of-particle");
		for(int i = 0; i < 6; i++)
		{
			L e = 0, s = 1; for(int j = 0; j < 6; j++) { e += d[i][j] * v0[q][j]; s += fabsl(d[i][j] * v0[q][j]); }
			for(size_t k = 0; k < t.size(); k++) if(t[k][0] == i + 1) { L x = (L) tv[k] * v0[q][t[k][1] - 1] * v0[q][t[k][2] - 1]; e += x; s += fabsl(x); c.ev("quadratic-terms"); }
			c.near(v[q][i], e, 1e-14 * s, 1e-14, "second-order", "coordinate %d", i);
		}
	}
	// map applied at another momentum: dp rescaled for the map only
	PSvectorArray y(v0); double p0 = c.rng.logu(0.1, 10), p1 = c.rng.logu(0.1, 10); ApplyMap(cp, y, p0, p1);
	for(size_t q = 0; q < y.size(); q++) { PSvector z(v0[q]); z.dp() = p0 / p1 * (1 + z.dp()) - 1; as.Apply(z); for(int i = 0; i < 5; i++) c.near(y[q][i], z[i], 1e-10, 1e-10, "momentum-rescaled"); c.check(y[q].dp() == v0[q].dp(), "momentum-kept"); }
	if(!c.rng.range(0, 9)) { std::ostringstream os; cp.Print(os); c.check(os.str().size() > 400, "printed"); }
	c.note(v0[0].x()); c.note(uint64_t(t.size())); c.nontrivial();
}
static M6 dense(const RealMatrix& R) { M6 d(true); for(size_t i = 0; i < R.nrows(); i++) for(size_t j = 0; j < R.ncols(); j++) d[i][j] = R(i, j); return d; }
FAMILY(matrix_maps, 15000, 300000)
{
	int ndf = c.rng.range(1, 3), n = 2 * ndf;
	RealMatrix A(n, n), B(n, n); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { A(i, j) = val(c); B(i, j) = c.rng.sym(2); }
	bool dep = c.rng.chance(0.6); double Pref = dep ? c.rng.logu(0.1, 100) : 0, p0 = dep ? Pref * c.rng.pick({1.0, 0.5, c.rng.uni(0.9, 1.1)}) : c.rng.uni(0.1, 10);
	RMtrx M(A, Pref); c.check(M.GetNDF() == ndf && M.GetRefMomentum() == Pref && M.EnergyIndependent() == !dep, "accessors"); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) c.check(M(i + 1, j + 1) == A(i, j), "accessors");
	M6 d = dense(A);
	auto one = [&](const PSvector& in, const PSvector& got, const M6& D, bool atp0, const char* key)
	{
		PSvector s(in); L resc = atp0 && dep ? (L) p0 * (1 + (L) in.dp()) / Pref - 1 : (L) in.dp();
		L sc = scale(D) * 200 * std::max<L>(1, fabsl(resc));
		for(int i = 0; i < 6; i++)
		{
			L e = 0; for(int j = 0; j < 6; j++) e += D[i][j] * (j == 5 ? resc : (L) s[j]);
			if(i == 5 && atp0 && dep) e = in.dp();
			c.near(got[i], e, 1e-13 * sc, 1e-12, key, "coordinate %d", i);
		}
		c.check(in.id() == got.id(), "identity-of-particle");
	};
	PSvectorArray v(c.rng.range(1, 4)); for(auto& p : v) p = pv(c); PSvectorArray v0(v);
	M.Apply(v); for(size_t q = 0; q < v.size(); q++) one(v0[q], v[q], d, false, "vector");
	v = v0; M.Apply(v, p0); for(size_t q = 0; q < v.size(); q++) one(v0[q], v[q], d, true, "vector-at-momentum");
	PSvector x(v0[0]); M.Apply(x); one(v0[0], x, d, false, "vector"); x = v0[0]; M.Apply(x, p0); one(v0[0], x, d, true, "vector-at-momentum");
	// moments: compare with momentum rescaling as a linear change of variables
	PSmoments S; rndmom(c, S); S.id() = 0; PSmoments S0(S);
	auto mom = [&](const PSmoments& in, const PSmoments& got, const M6& D, bool atp0, const char* key)
	{
		L k = atp0 && dep ? (L) p0 / Pref : 1; M6 s(true), si(true); s[5][5] = k; si[5][5] = 1 / k;
		M6 t = mul(si, mul(D, s)); cmpmom(c, got, in, t, 6, key);
		L sc = scale(D) * 200 * std::max<L>(k, 1) * std::max<L>(1, 1 / k);
		for(int i = 0; i < 6; i++) { L e = 0; for(int j = 0; j < 6; j++) e += D[i][j] * (j == 5 ? k * (1 + (L) in[5]) - 1 : (L) in[j]); if(i == 5) e = (1 + e) / k - 1; c.near(got[i], e, 1e-13 * sc, 1e-12, key, "centroid %d", i); }
	};
	M.Apply(S); mom(S0, S, d, false, "moments"); S = S0; M.Apply(S, p0); mom(S0, S, d, true, "moments-at-momentum");
	PSmomentsArray sa(2, S0); M.Apply(sa); mom(S0, sa[1], d, false, "moments"); sa.assign(3, S0); M.Apply(sa, p0); mom(S0, sa[2], d, true, "moments-at-momentum");
	// product
	RMtrx Q(A), W(B); Q *= W; M6 pq = mul(dense(B), d); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) c.near(Q.R(i, j), pq[i][j], 1e-12 * scale(d) * 10, 1e-12, "product");
	// chromatic map
	RdpMtrx Z(A, B, Pref); v = v0; Z.Apply(v);
	for(size_t q = 0; q < v.size(); q++) { M6 e(d); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) e[i][j] += (L) B(i, j) * v0[q].dp(); one(v0[q], v[q], e, false, "chromatic"); }
	v = v0; Z.Apply(v, p0);
	for(size_t q = 0; q < v.size(); q++) { M6 e(d); L r = dep ? (L) p0 * (1 + (L) v0[q].dp()) / Pref - 1 : (L) v0[q].dp(); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) e[i][j] += (L) B(i, j) * r; one(v0[q], v[q], e, true, "chromatic-at-momentum"); }
	S = S0; Z.Apply(S); { M6 e(d); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) e[i][j] += (L) B(i, j) * S0[5]; mom(S0, S, e, false, "chromatic-moments"); }
	sa.assign(2, S0); Z.Apply(sa, p0); { M6 e(d); L r = dep ? (L) p0 * (1 + (L) S0[5]) / Pref - 1 : (L) S0[5]; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) e[i][j] += (L) B(i, j) * r; mom(S0, sa[1], e, true, "chromatic-moments-at-momentum"); }
	if(dep && p0 != Pref) c.ev("off-momentum"); if(ndf < 3) c.ev("partial");
	c.note(A(0, 0)); c.note(uint64_t(ndf)); c.note(Pref); c.nontrivial();
}
FAMILY(plane_maps, 15000, 300000)
{
	R2Map X(val(c), val(c), val(c), val(c)), Y(val(c), val(c), val(c), val(c));
	M6 d(true); d[0][0] = X.r11; d[0][1] = X.r12; d[1][0] = X.r21; d[1][1] = X.r22; d[2][2] = Y.r11; d[2][3] = Y.r12; d[3][2] = Y.r21; d[3][3] = Y.r22;
	c.check(X[1][1] == X.r11 && X[1][2] == X.r12 && X[2][1] == X.r21 && X[2][2] == X.r22, "subscript");
	PSvector p = pv(c), p0(p); ApplyR2Map(X, p, 0); ApplyR2Map(Y, p, 1); cmpvec(c, p, p0, d, 6, "planes");
	TPSMoments<2> S; rndmom(c, S); TPSMoments<2> S0(S); ApplyR2Map(X, S, 0); ApplyR2Map(Y, S, 1); ApplyR2Map(X, S, Y); cmpmom(c, S, S0, d, 4, "plane-moments"); cmpvec(c, S, S0, d, 6, "plane-moments-centroid");
	double z = val(c); M6 D(true); D[0][1] = D[2][3] = z;
	p = p0; ApplySimpleDrift(z).Apply(p); cmpvec(c, p, p0, D, 6, "drift");
	S = S0; ApplySimpleDrift{z}(S); cmpmom(c, S, S0, D, 4, "drift-moments"); cmpvec(c, S, S0, D, 6, "drift-moments-centroid");
	PSmoments T; rndmom(c, T); PSmoments T0(T); ApplySimpleDrift{z}(T); cmpmom(c, T, T0, D, 6, "drift-moments6"); cmpvec(c, T, T0, D, 6, "drift-moments-centroid");
	p = p0; ApplyDriftWithPathLength{z}(p); c.near(p.ct(), (L) p0.ct() - z * ((L) p0.xp() * p0.xp() + (L) p0.yp() * p0.yp()) / 2, 1e-10, 1e-12, "path-length"); p.ct() = p0.ct(); cmpvec(c, p, p0, D, 6, "drift");
	// vectors
	PSvector a = pv(c), b = pv(c), a0(a); L k = val(c) + 3.3;
	PSvector s = a + b, m = a - b; PSvector u(a); u += b; u -= a; PSvector w(a); w *= (double) k; PSvector y(w); y /= (double) k;
	for(int i = 0; i < 6; i++) { c.check(s[i] == a[i] + b[i] && m[i] == a[i] - b[i], "vector-sum"); c.near(u[i], b[i], 1e-13, 1e-13, "vector-sum"); c.near(w[i], k * a[i], 0, 1e-14, "vector-scale"); c.near(y[i], a[i], 0, 1e-14, "vector-scale"); }
	c.check(a == a0 && !(a != a0), "vector-equal"); a[c.rng.range(0, 5)] += 1; c.check(a != a0 && !(a == a0), "vector-equal"); a.zero(); for(int i = 0; i < 6; i++) c.check(a[i] == 0, "vector-zero");
	c.check(a0.x() == a0[0] && a0.xp() == a0[1] && a0.y() == a0[2] && a0.yp() == a0[3] && a0.ct() == a0[4] && a0.dp() == a0[5], "vector-names");
	std::stringstream st; st << std::setprecision(17) << a0; PSvector r(0); st >> r; for(int i = 0; i < 6; i++) c.near(r[i], a0[i], 0, 1e-8, "vector-io"); c.check(r.id() == a0.id(), "vector-io-id");
	c.note(X.r11); c.note(Y.r22); c.nontrivial();
}
static void cmpmat(Case& c, const RMap& R, const M6& d, int n, const char* key, double tol = 1e-11)
{
	RealMatrix m = R; L s = scale(d);
	for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) c.near(m(i, j), d[i][j], tol * s, 0, key, "(%d,%d)", i + 1, j + 1);
}
static void cmpmat(Case& c, const RealMatrix& m, const M6& d, int n, const char* key, double tol = 1e-11)
{
	L s = scale(d); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) c.near(m(i, j), d[i][j], tol * s, 0, key, "(%d,%d)", i + 1, j + 1);
}
static void symp(Case& c, const RMap& R, const char* key, L det = 1)
{
	RealMatrix m = R; L s = scale(dense(m));
	for(int i = 0; i < 4; i++) for(int j = 0; j < i; j++) { L e = 0; for(int p = 0; p < 2; p++) e += (L) m(2 * p, i) * m(2 * p + 1, j) - (L) m(2 * p + 1, i) * m(2 * p, j); c.near(e, (i == j + 1 && i % 2) ? -det : 0, 1e-12 * s * s, 0, key, "(%d,%d)", i, j); }
}
FAMILY(elements, 6000, 150000)
{
	double l = c.rng.pick({0.0, c.rng.logu(1e-3, 10), 1.0}), k = c.rng.pick({0.0, c.rng.sgn() * c.rng.logu(1e-4, 4.0)}), h = c.rng.pick({0.0, c.rng.sgn() * c.rng.logu(1e-4, 0.5)});
	if(c.rng.chance(0.05) && h != 0) k = -h * h;
	while(fabs(k) * l * l > 100) k /= 4;
	M6 g; g[0][1] = g[2][3] = l;
	{ RMap R; TransportRMap::Drift(l, R); cmpmat(c, R, expm(g), 6, "drift"); R2Map r; TransportRMap::Drift(l, r); c.check(r.r11 == 1 && r.r12 == l && r.r21 == 0 && r.r22 == 1, "drift-2x2"); RealMatrix m(6, 6); TransportMatrix::Drift(l, m); cmpmat(c, m, expm(g), 6, "drift-dense"); }
	g[1][0] = -k * l; g[3][2] = k * l;
	{
		M6 e = expm(g); RMap R; TransportRMap::Quadrupole(l, k, R); cmpmat(c, R, e, 6, "quadrupole"); symp(c, R, "quadrupole-symplectic");
		R2Map r; TransportRMap::Quadrupole(l, k, r); c.near(r.r11, e[0][0], 1e-11 * scale(e), 0, "quadrupole-2x2"); c.near(r.r12, e[0][1], 1e-11 * scale(e), 0, "quadrupole-2x2"); c.near(r.r21, e[1][0], 1e-11 * scale(e), 0, "quadrupole-2x2"); c.near(r.r22, e[1][1], 1e-11 * scale(e), 0, "quadrupole-2x2");
		RealMatrix m(6, 6), m4(4, 4); TransportMatrix::Quadrupole(l, k, m); cmpmat(c, m, e, 6, "quadrupole-dense"); TransportMatrix::QuadrupoleR(l, k, m4); cmpmat(c, m4, e, 4, "quadrupole-dense");
		if(k != 0 && l != 0)
		{
			// chromatic part = derivative of the matrix with respect to dp at K/(1+dp)
			RealMatrix t(4, 4); TransportMatrix::QuadrupoleT(l, k, t); L q = 1e-5L; M6 a = g, b = g; a[1][0] /= 1 + q; a[3][2] /= 1 + q; b[1][0] /= 1 - q; b[3][2] /= 1 - q; a = expm(a); b = expm(b);
			for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) c.near(t(i, j), (a[i][j] - b[i][j]) / (2 * q), 1e-6 * scale(e) * (1 + fabs(k) * l * l), 1e-6, "quadrupole-chromatic", "(%d,%d)", i, j);
			RTMap* T = QuadrupoleTM(l, k); cmpmat(c, *T, e, 6, "quadrupole-second-order-linear-part"); delete T;
		}
	}
	// sector bend: x'' = -(h^2+k)x + h dp, y'' = k y, ct' = -h x
	g = M6(); g[0][1] = g[2][3] = l; g[1][0] = -(k + (L) h * h) * l; g[3][2] = k * l; g[1][5] = h * l; g[4][0] = -h * l;
	{
		M6 e = expm(g); RMap R; TransportRMap::SectorBend(l, h, k, R);
		L kx = fabsl(k + (L) h * h) * l * l; double tol = kx < 1e-3 && kx > 0 ? 1e-9 : 1e-11; if(kx > 0 && kx < 1e-5) tol = 1e-6; if(kx > 0 && kx < 1e-9) tol = 1e-3;
		cmpmat(c, R, e, 6, "sector-bend", tol); symp(c, R, "sector-bend-symplectic"); RealMatrix m(6, 6); TransportMatrix::SectorBend(l, h, k, m); cmpmat(c, m, e, 6, "sector-bend-dense", tol);
		if(l > 0 && fabs(h) > 1e-3 && k == 0 && l * fabs(h) > 1e-2) { double gam = c.rng.logu(10, 1e4); RTMap* T = SectorBendTM(l, h, gam); cmpmat(c, *T, e, 6, "bend-second-order-linear-part", 1e-9); delete T; }
		if(l > 0 && h != 0 && kx > 1e-3 && l * fabs(h) > 1e-2 && fabs(k) > 1e-3) { RTMap* T = GenSectorBendTM(l, h, k, c.rng.sym(1)); cmpmat(c, *T, e, 6, "general-bend-linear-part", 1e-9); delete T; }
		if(h == 0) c.ev("straight");
	}
	// solenoid with hard edges
	{
		double ks = c.rng.pick({0.0, c.rng.sym(2)}); while(fabs(ks) * l > 20) ks /= 4;
		g = M6(); g[0][1] = g[2][3] = l; g[1][3] = ks * l; g[3][1] = -ks * l; M6 in(true), out(true); in[1][2] = ks / 2; in[3][0] = -ks / 2; out[1][2] = -ks / 2; out[3][0] = ks / 2;
		M6 e = mul(out, mul(expm(g), in)); RMap R; TransportRMap::Solenoid(l, ks, 0, true, true, R); cmpmat(c, R, e, 6, "solenoid"); symp(c, R, "solenoid-symplectic");
		RealMatrix m(4, 4), m6(6, 6); TransportMatrix::Solenoid(l, ks, 0, true, true, m); cmpmat(c, m, e, 4, "solenoid-dense"); TransportMatrix::Solenoid(l, ks, 0, true, true, m6); cmpmat(c, m6, e, 6, "solenoid-dense");
	}
	{
		double phi = c.rng.sym(4); M6 e(true); for(int i = 0; i < 4; i++) e[i][i] = cosl(phi); e[0][2] = e[1][3] = -sinl(phi); e[2][0] = e[3][1] = sinl(phi);
		RMap R, Q; TransportRMap::Srot(phi, R); TransportRMap::Srot(cos(phi), sin(phi), Q); cmpmat(c, R, e, 6, "rotation"); cmpmat(c, Q, e, 6, "rotation"); RealMatrix m(6, 6), m4(4, 4); TransportMatrix::Srot(phi, m); cmpmat(c, m, e, 6, "rotation-dense"); TransportMatrix::SrotR4(phi, m4); cmpmat(c, m4, e, 4, "rotation-dense");
		double th = c.rng.sym(0.7), fint = c.rng.pick({0.0, 0.5, 0.3}), hg = c.rng.pick({0.0, 0.02}); L s = sinl(th), psi = 2.0L * fint * hg * h * (1 + s * s) / cosl(th);
		e = M6(true); e[1][0] = h * tanl(th); e[3][2] = -h * tanl(th - psi); RMap P; TransportRMap::PoleFaceRot(h, th, fint, hg, P); cmpmat(c, P, e, 6, "pole-face"); TransportMatrix::PoleFaceRot(h, th, fint, hg, m); cmpmat(c, m, e, 6, "pole-face-dense");
		for(int ent = 0; ent < 2; ent++) { RTMap* T = PoleFaceTM(h, k, th, 0, fint, hg, ent); cmpmat(c, *T, e, 6, "pole-face-second-order-linear-part"); delete T; }
	}
	{ RTMap* T = DriftTM(l), *S = SextupoleTM(l, k); M6 e(true); e[0][1] = e[2][3] = l; cmpmat(c, *T, e, 6, "drift-second-order-linear-part"); cmpmat(c, *S, e, 6, "sextupole-linear-part"); delete T; delete S; }
	// RF: same answer from both representations, right damping
	{
		double E0 = c.rng.logu(0.1, 10), gr = c.rng.sgn() * c.rng.logu(1e-4, 2e-2), f = c.rng.logu(1e8, 3e9), phi = c.rng.sym(1.2), ll = c.rng.uni(0.1, 2); bool a = c.rng.chance(0.5), b = c.rng.chance(0.5); if(fabs(gr * ll) > 0.05 * E0) gr *= 0.05 * E0 / fabs(gr * ll);
		RMap R; R2Map r; TransportRMap::TWRFCavity(ll, gr, f, phi, E0, a, b, R); TransportRMap::TWRFCavity(ll, gr, f, phi, E0, a, b, r);
		L dE = (L) gr * ll * cosl(phi), E1 = E0 + dE, lg = log1pl(dE / E0);
		M6 body(true), en(true), ex(true), e; for(int p = 0; p < 4; p += 2) { body[p][p + 1] = E0 * lg / (gr * cosl(phi)); body[p + 1][p + 1] = E0 / E1; if(a) en[p + 1][p] = -gr * cosl(phi) / (2 * E0); if(b) ex[p + 1][p] = gr * cosl(phi) / (2 * E1); }
		e = mul(ex, mul(body, en)); L x = dE / E0; cmpmat(c, R, e, 6, "rf-structure", 1e-11 + 0.6 * fabsl(x * x) * (a && b ? fabsl(gr) / E0 : 0) + fabsl(x * x * x)); // end-field product is truncated at second order in dE/E0
		RealMatrix m = R; c.check(m(0, 0) == r.r11 && m(0, 1) == r.r12 && m(1, 0) == r.r21 && m(1, 1) == r.r22, "rf-two-forms"); c.check(m(2, 2) == r.r11 && m(2, 3) == r.r12 && m(3, 2) == r.r21 && m(3, 3) == r.r22, "rf-two-forms"); symp(c, R, "rf-damping", E0 / E1 * 1.0L);
		int nc = c.rng.range(1, 9); double lam = PhysicalConstants::SpeedOfLight / f; double g2 = c.rng.sgn() * E0 * c.rng.logu(1e-3, 0.1) / (nc * lam / 2); RMap S; R2Map s; TransportRMap::SWRFCavity(nc, g2, f, phi, E0, S); TransportRMap::SWRFCavity(nc, g2, f, phi, E0, s);
		RealMatrix q = S; c.check(q(0, 0) == s.r11 && q(0, 1) == s.r12 && q(1, 0) == s.r21 && q(1, 1) == s.r22 && q(2, 2) == s.r11, "rf-two-forms"); L E2 = E0 + (L) g2 * nc * lam / 2 * cosl(phi); symp(c, S, "standing-wave-damping", E0 / E2);
	}
	c.note(l); c.note(k); c.note(h); c.nontrivial(); c.sample(fmt("l=%.3g K1=%.3g h=%.3g", l, k, h));
}
