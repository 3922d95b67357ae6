// O02: lattice functions, phases, tunes and equilibrium distributions, judged by their defining relations on the
// harness's own maps of the same ring (B_k = lattice function matrix of mode k):
//   M_s B_k M_s^T = B_k,  B_k(s') = R B_k(s) R^T,  tr(B_k S B_k S) = -2,  B_k S B_l = 0,  rank 2, uncoupled: Courant-Snyder.
#include "ring.h"
#include "ClosedOrbit.h"
#include "TransferMatrix.h"
#include "Dispersion.h"
#include "LatticeFunctions.h"
#include "PhaseAdvance.h"
#include "BetatronTunes.h"
#include "EquilibriumDistribution.h"
#include <unistd.h>
using namespace vh; using namespace ring;
static void elsewhere() { static bool d = [] { return chdir(vh::scratch().c_str()) == 0; }(); (void) d; }
static double wrap(double x) { return x - floor(x + 0.5); }
static double clen(Ring& R, int i) { return R.f[i]->IsComponent() ? R.f[i]->GetComponent().GetLength() : 0; }
struct CS { double bx, ax, by, ay, mx, my; };
// Courant-Snyder functions from an uncoupled one-turn matrix; false where the plane is not separable or stable
static bool cs(const M6& m, CS& t) { auto one = [&](int o, double& b, double& a, double& mu) { double c = (m[o][o] + m[o + 1][o + 1]) / 2; if(fabs(c) >= 1) return false; double s = copysign(sqrt(1 - c * c), m[o][o + 1]); b = m[o][o + 1] / s; a = (m[o][o] - m[o + 1][o + 1]) / (2 * s); mu = atan2(s, c) / (2 * M_PI); if(mu < 0) mu += 1; return true; }; return one(0, t.bx, t.ax, t.mx) && one(2, t.by, t.ay, t.my); }
static double coupling(const M6& m) { double d = 0; for(int i = 0; i < 2; i++) for(int j = 2; j < 4; j++) d = std::max(d, std::max(fabs(m[i][j]), fabs(m[j][i]))); return d; }
static M6 get(LatticeFunctionTable& t, int k, int n, int dim) { M6 b; for(auto& r : b) r.fill(0); for(int i = 1; i <= dim; i++) for(int j = i; j <= dim; j++) b[i - 1][j - 1] = b[j - 1][i - 1] = t.Value(i, j, k, n); return b; }
// largest misfit in units of the natural size of each entry
static double misfit(const M6& a, const M6& b, const V6& sz, int dim) { double d = 0; for(int i = 0; i < dim; i++) for(int j = 0; j < dim; j++) { double e = fabs(a[i][j] - b[i][j]) / (sz[i] * sz[j]); if(!(e <= d)) d = e; } return d; }
FAMILY(functions, 60, 600)
{
	elsewhere(); Quiet q; auto& r = c.rng; Ring R; Want w; w.rf = r.chance(0.4); w.errors = r.chance(0.6); w.coupled = r.chance(0.4); w.nonlinear = r.chance(0.5); w.gradient = r.chance(0.3); if(!stableRing(c, R, w)) return; auto before = state(R); int dim = w.rf ? 6 : 4, K = dim / 2; size_t n = R.f.size();
	LatticeFunctionTable t(R.m.get(), R.P0); t.RemoveAllFunctions(); if(r.chance(0.3)) t.SetDelta(r.logu(1e-9, 1e-7)); bool symp = r.chance(0.2); if(symp && w.rf) { t.MakeTMSymplectic(true); c.ev("symplectified"); } bool force = !w.rf && r.chance(0.3); if(force) t.SetForceLongitudinalStability(true);
	for(int k = 1; k <= K; k++) for(int i = 1; i <= dim; i++) for(int j = i; j <= dim; j++) t.AddFunction(i, j, k); for(int i = 1; i <= 6; i++) t.AddFunction(i, 0, 0); for(int k = 1; k <= K; k++) t.AddFunction(0, 0, k); if(force) { for(int i = 1; i <= 4; i++) t.AddFunction(i, 6, 3); t.AddFunction(6, 6, 3); }
	PSvector p(0); bool given = r.chance(0.4); if(given || w.rf) { if(!orbit(R, p, 0, w.rf ? 6 : 4, Opt())) return; t.Calculate(&p); c.ev("orbit_given"); } else { t.Calculate(); if(!orbit(R, p, 0, 4, Opt())) return; }
	int rows, cols; t.Size(rows, cols); c.check(rows == (int) n + 1 && t.NumberOfRows() == rows, "rows", "%d rows for %zu elements", rows, n); if(rows != (int) n + 1) return;
	std::vector<M6> el(n); M6 m = oneTurn(R, p, 0, Opt()), S = sform(); std::vector<PSvector> o(n + 1, p); double s = 0, tol = 2e-4;
	std::vector<M6> first(4); V6 sz; std::vector<V6> size(K + 1); for(int k = 1; k <= K; k++) { for(int i = 0; i < 6; i++) size[k][i] = i < dim ? sqrt(fabs(t.Value(i + 1, i + 1, k, 0))) : 1; } sz.fill(0);
	std::vector<M6> B(4), C(4); CS tw; bool flat = !w.coupled && coupling(m) < 1e-6 && cs(m, tw) && !w.rf; double mu[2] = {0, 0}; M6 acc = unit();
	for(size_t i = 0; i <= n; i++)
	{
		c.near(t.Value(0, 0, 0, i), s, 1e-12, 1e-13, "s", "s at row %zu", i); for(int a = 0; a < 6; a++) if(!c.check(fabs(t.Value(a + 1, 0, 0, i) - o[i][a]) < 1e-9, "orbit", "coordinate %d at row %zu: table %g, tracked %g", a, i, t.Value(a + 1, 0, 0, i), o[i][a])) return;
		M6 T = acc; // from the start to here
		for(int k = 1; k <= K; k++)
		{
			M6 b = get(t, k, i, dim); V6 z; for(int a = 0; a < 6; a++) { z[a] = 0; for(int e = 0; e < dim; e++) z[a] = std::max(z[a], 0.0); z[a] = a < dim ? sqrt(std::max(b[a][a], 0.0)) : 1; c.check(a >= dim || b[a][a] >= 0, "negative", "(%d,%d,%d) is %g", a + 1, a + 1, k, b[a][a]); }
			// a coordinate that this mode does not move (exactly or nearly) is compared on the scale of the largest mode
			for(int a = 0; a < dim; a++) { double big = 0; for(int l = 1; l <= K; l++) big = std::max(big, sqrt(std::max(t.Value(a + 1, a + 1, l, i), 0.0))); z[a] = std::max(z[a], 0.03 * big); }
			B[k] = b; if(i == 0) first[k] = b; M6 f = mul(T, mul(first[k], tr(T))); double e = misfit(b, f, z, dim); c.check(e < tol * 100, "transport", "mode %d at row %zu of %zu: lattice functions differ from those at the start carried by the map by %g", k, i, n, e);
			if(i == 0 || r.chance(0.03)) { M6 q = i == 0 ? m : oneTurn(R, o[i], i == n ? 0 : i, Opt()), g = mul(q, mul(b, tr(q))); double d = misfit(g, b, z, dim); c.check(d < tol * 100, "invariant", "mode %d at row %zu: M B M^T misses B by %g", k, i, d); c.ev("invariants"); M6 x = mul(mul(b, S), mul(b, S)); double y = 0; for(int a = 0; a < dim; a++) y += x[a][a]; c.near(y, -2, 5e-4, 0, "normalisation", "tr(BSBS) of mode %d at row %zu", k, i); for(int l = 1; l < k; l++) { M6 u = mul(B[l], mul(S, b)); double v = 0; for(int a = 0; a < dim; a++) for(int e2 = 0; e2 < dim; e2++) v = std::max(v, fabs(u[a][e2]) / (sqrt(std::max(B[l][a][a], 1e-30)) * sqrt(std::max(b[e2][e2], 1e-30)))); double big = 0; for(int a = 0; a < dim; a++) big = std::max(big, v); c.check(v < 3e-2, "modes-not-orthogonal", "modes %d and %d at row %zu: B S B' is %g of its natural size", l, k, i, v); } }
		}
		if(flat)
		{
			// Courant-Snyder functions carried by the maps of the elements
			c.near(t.Value(1, 1, 1, i), tw.bx, 1e-4, 5e-4, "beta", "beta x at row %zu", i); c.near(-t.Value(1, 2, 1, i), tw.ax, 1e-3, 1e-3, "alpha", "alpha x at row %zu", i); c.near(t.Value(3, 3, 2, i), tw.by, 1e-4, 5e-4, "beta", "beta y at row %zu", i); c.near(-t.Value(3, 4, 2, i), tw.ay, 1e-3, 1e-3, "alpha", "alpha y at row %zu", i);
			for(int k = 0; k < 2; k++) { double v = t.Value(0, 0, k + 1, i); c.check(v > -1e-6 && v < 1 + 1e-9, "phase-range", "phase %g", v); c.near(wrap(v - mu[k]), 0, 1e-4, 0, "phase", "phase %d at row %zu: table %g, from the maps %g (mod 1)", k + 1, i, v, mu[k]); } c.ev("courant_snyder");
		}
		if(i < n) { el[i] = section(R, o[i], i, i, Opt()); o[i + 1] = part(R, {o[i]}, i, i, Opt())[0]; s += clen(R, i); acc = mul(el[i], acc); if(flat) { auto& e = el[i]; auto step = [&](int a, double& b, double& al, double& ph) { double g = (1 + al * al) / b, m11 = e[a][a], m12 = e[a][a + 1], m21 = e[a + 1][a], m22 = e[a + 1][a + 1], b2 = m11 * m11 * b - 2 * m11 * m12 * al + m12 * m12 * g, a2 = -m11 * m21 * b + (m11 * m22 + m12 * m21) * al - m12 * m22 * g; ph += atan2(m12, m11 * b - m12 * al) / (2 * M_PI); b = b2; al = a2; }; step(0, tw.bx, tw.ax, mu[0]); step(2, tw.by, tw.ay, mu[1]); } }
	}
	if(force) { V6 d, bb; M6 a = m; bb.fill(0); d.fill(0); for(int i = 0; i < 4; i++) { bb[i] = -m[i][5]; a[i][i] -= 1; } if(solve(a, bb, d, 4)) { M6 T = unit(); for(size_t i = 0; i <= n; i++) { V6 e; for(int x = 0; x < 6; x++) { e[x] = T[x][5]; for(int y = 0; y < 4; y++) e[x] += T[x][y] * d[y]; } for(int x = 0; x < 4; x++) c.near(t.Value(x + 1, 6, 3, i) / t.Value(6, 6, 3, i), e[x], 2e-4, 5e-4, "dispersion", "dispersion %d at row %zu", x, i); if(i < n) T = mul(el[i], T); } c.ev("dispersions"); } }
	// averages and look-ups of the table
	{ int n1 = r.range(0, n / 2), n2 = r.range(n1 + 2, n); double ss = 0, sv = 0, s2 = 0; for(int i = n1; i < n2; i++) { double ds = t.Value(0, 0, 0, i + 1) - t.Value(0, 0, 0, i), a = t.Value(1, 1, 1, i), b = t.Value(1, 1, 1, i + 1); ss += ds; sv += ds * (a + b) / 2; s2 += ds * (a * a + b * b) / 2; } if(ss > 0) { c.near(t.Mean(1, 1, 1, n1, n2), sv / ss, 0, 1e-12, "mean", "mean between rows"); c.near(t.RMS(1, 1, 1, n1, n2), sqrt(s2 / ss), 0, 1e-12, "rms", "rms between rows"); } double x = r.uni(0, s); int k = t.GetSPosIndex(x); c.check(k >= 0 && t.Value(0, 0, 0, k) >= x && (k == 0 || t.Value(0, 0, 0, k - 1) < x), "s-index", "row %d for s = %g", k, x); c.check(t.GetSPosIndex(s + 1) == -1, "s-index", "row beyond the end"); c.ev("averages"); }
	if(r.chance(0.3)) { std::ostringstream os; t.PrintTable(os); std::istringstream is(os.str()); std::string l; int ln = 0; while(std::getline(is, l)) { std::istringstream ls(l); double v; ls >> v; c.near(v, t.Value(0, 0, 0, ln), 1e-9, 1e-9, "print", "line %d", ln); ln++; } c.check(ln == rows, "print", "%d lines for %d rows", ln, rows); c.ev("printed"); }
	c.check(state(R) == before, "ring-changed", "the calculation changed the ring"); if(w.coupled) c.ev("coupled"); if(w.rf) c.ev("longitudinal"); c.note(t.Value(1, 1, 1, 0)); c.note(t.Value(3, 3, 2, n)); c.nontrivial(); c.sample(fmt("%zu elements, rf %d errors %d coupled %d gradient %d: (1,1,1) %.5g (3,3,2) %.5g", n, (int) w.rf, (int) w.errors, (int) w.coupled, (int) w.gradient, t.Value(1, 1, 1, 0), t.Value(3, 3, 2, 0)));
}
// what a table refuses, the orbit-only table, derivatives with energy
FAMILY(tables, 40, 400)
{
	elsewhere(); Quiet q; auto& r = c.rng; Ring R; Want w; w.errors = r.chance(0.8); w.nonlinear = r.chance(0.6); if(!stableRing(c, R, w)) return; size_t n = R.f.size(); auto refuses = [&](const char* what, std::function<void()> f) { bool t = false; try { f(); } catch(MerlinException&) { t = true; } c.check(t, "not-refused", "%s is not refused", what); c.ev("refused"); };
	LatticeFunctionTable t(R.m.get(), R.P0); refuses("a longitudinal function without longitudinal motion", [&] { t.Calculate(); });
	LatticeFunctionTable u(R.m.get(), R.P0); u.RemoveAllFunctions(); u.AddFunction(1, 1, 1); int k = r.range(1, 2); if(r.chance(0.5)) u.AddFunction(r.range(5, 6), r.range(1, 6), k); else u.AddFunction(r.range(1, 6), r.range(5, 6), k); refuses("a longitudinal coordinate of a transverse mode without longitudinal motion", [&] { u.Calculate(); });
	LatticeFunctionTable v(R.m.get(), R.P0); v.UseOrbitFunctions(); v.Calculate(); int rows, cols; v.Size(rows, cols); c.check(rows == (int) n + 1 && cols == 5, "orbit-table", "%d rows and %d columns for %zu elements", rows, cols, n); PSvector p(0); if(orbit(R, p, 0, 4, Opt())) { LatticeFunctionTable x(R.m.get(), R.P0); x.RemoveAllFunctions(); for(int i = 1; i <= 4; i++) x.AddFunction(i, 0, 0); x.AddFunction(1, 1, 1); x.Calculate(); PSvector o(p); double s = 0; for(size_t i = 0; i <= n && (int) i < rows; i++) { c.near(v.Value(0, 0, 0, i), s, 1e-12, 1e-13, "orbit-table-s", "row %zu", i); for(int a = 0; a < 4; a++) { c.near(v.Value(a + 1, 0, 0, i), o[a], 1e-9, 0, "orbit-table-orbit", "coordinate %d at row %zu", a, i); c.near(x.Value(a + 1, 0, 0, i), v.Value(a + 1, 0, 0, i), 1e-9, 0, "tables-disagree", "coordinate %d at row %zu: full table and orbit table", a, i); } if(i < n) { o = part(R, {o}, i, i, Opt())[0]; s += clen(R, i); } } c.ev("orbit_table"); }
	refuses("a column that was not asked for", [&] { v.Value(1, 1, 1, 0); }); refuses("the mean of a column that was not asked for", [&] { v.Mean(2, 2, 1); }); refuses("the rms of a column that was not asked for", [&] { v.RMS(2, 2, 1); });
	// derivative with momentum, from functions at the two momenta
	if(R.nonlinear || true) { LatticeFunctionTable d(R.m.get(), R.P0); d.RemoveAllFunctions(); d.AddFunction(1, 0, 0); d.AddFunction(2, 0, 0); d.AddFunction(1, 1, 1); d.AddFunction(3, 3, 2); double Lb = 0; for(auto f : R.f) if(f->IsComponent() && f->GetComponent().GetType() == "SectorBend") Lb += f->GetComponent().GetLength(); double dp = 1e-4, scale = dp * R.alphaC / Lb; d.ScaleBendPathLength(scale); d.CalculateEnergyDerivative(); PSvector a(0), b(0); a.dp() = -dp; b.dp() = dp; if(!orbit(R, a, 0, 4, Opt()) || !orbit(R, b, 0, 4, Opt())) return; M6 ma = oneTurn(R, a, 0, Opt()), mb = oneTurn(R, b, 0, Opt()); CS ta, tb; c.check(d.NumberOfRows() == (int) n + 1, "derivative-rows", "%d rows", d.NumberOfRows()); for(int i = 0; i < 2; i++) c.near(d.Value(i + 1, 0, 0, 0), (b[i] - a[i]) / (2 * dp), 1e-3, 1e-2, "derivative", "derivative of orbit coordinate %d with momentum", i); if(coupling(ma) < 1e-6 && cs(ma, ta) && cs(mb, tb)) { c.near(d.Value(1, 1, 1, 0), (tb.bx - ta.bx) / (2 * dp), 0.3, 3e-2, "derivative", "derivative of beta x"); c.near(d.Value(3, 3, 2, 0), (tb.by - ta.by) / (2 * dp), 0.3, 3e-2, "derivative", "derivative of beta y"); c.ev("chromatic"); } c.ev("derivatives"); }
	c.note(n); c.note(p.x()); c.nontrivial();
}
// phase advances with their integer parts, transfer maps, tunes from the spectrum
FAMILY(phases, 40, 400)
{
	elsewhere(); Quiet q; auto& r = c.rng; Ring R; Want w; w.errors = r.chance(0.5); w.rf = r.chance(0.4); w.nonlinear = false; w.gradient = r.chance(0.3); w.qs0 = 0.001; w.qs1 = 0.004; if(!stableRing(c, R, w)) return; size_t n = R.f.size(); LatticeFunctionTable t(R.m.get(), R.P0); t.RemoveAllFunctions(); t.AddFunction(1, 1, 1); t.AddFunction(3, 3, 2); t.AddFunction(0, 0, 1); t.AddFunction(0, 0, 2); PSvector p(0); if(!orbit(R, p, 0, w.rf ? 6 : 4, Opt())) return; if(w.rf) t.Calculate(&p); else t.Calculate(); PhaseAdvance pa(R.m.get(), &t, R.P0);
	M6 m = oneTurn(R, p, 0, Opt()); CS tw; bool flat = coupling(m) < 1e-6 && cs(m, tw); if(!flat) return; std::vector<std::array<double, 2> > mu(n + 1, {0, 0}); { PSvector o(p); for(size_t i = 0; i < n; i++) { M6 e = section(R, o, i, i, Opt()); o = part(R, {o}, i, i, Opt())[0]; auto step = [&](int a, double& b, double& al, double& ph) { double g = (1 + al * al) / b, m11 = e[a][a], m12 = e[a][a + 1], m21 = e[a + 1][a], m22 = e[a + 1][a + 1], b2 = m11 * m11 * b - 2 * m11 * m12 * al + m12 * m12 * g, a2 = -m11 * m21 * b + (m11 * m22 + m12 * m21) * al - m12 * m22 * g; ph += atan2(m12, m11 * b - m12 * al) / (2 * M_PI); b = b2; al = a2; }; mu[i + 1] = mu[i]; step(0, tw.bx, tw.ax, mu[i + 1][0]); step(2, tw.by, tw.ay, mu[i + 1][1]); } }
	double tol = w.rf ? 2e-2 : 5e-4; for(int k = 0; k < 8; k++) { int a = r.range(0, n), b = k == 0 ? n : r.range(a, n); if(k == 0) a = 0; c.near(pa.GetPhaseAdvanceX(b, a), mu[b][0] - mu[a][0], tol, 0, "phase-advance", "horizontal phase advance between rows %d and %d", a, b); c.near(pa.GetPhaseAdvanceY(b, a), mu[b][1] - mu[a][1], tol, 0, "phase-advance", "vertical phase advance between rows %d and %d", a, b); c.near(pa.PhaseAdvanceBetween(a, b, true), pa.GetPhaseAdvanceX(b, a), 1e-12, 0, "phase-advance-forms", "two ways to ask"); c.ev("advances"); if(mu[b][0] - mu[a][0] > 1) c.ev("beyond_one"); }
	{ int a = r.range(0, n - 1), b = r.range(a, n - 1); auto nm = [&](int i) { return R.f[i]->GetComponent().GetName(); }; int fa = 0, fb = 0; while(nm(fa) != nm(a)) fa++; while(nm(fb) != nm(b)) fb++; c.near(pa.PhaseAdvanceBetween(nm(a), nm(b), false), mu[fb][1] - mu[fa][1], tol, 0, "phase-by-name", "vertical phase between %s and %s", nm(a).c_str(), nm(b).c_str()); c.near(pa.PhaseAdvanceBetween(nm(b), true), mu[fb][0], tol, 0, "phase-by-name", "horizontal phase to %s", nm(b).c_str()); c.near(pa.PhaseAdvanceBetween(b, true), mu[b][0], tol, 0, "phase-advance", "phase from the start"); c.ev("by_name");
	  if(w.rf) { RealMatrix M = pa.TransferMapBetween(a, b); PSvector o(0); if(orbit(R, o, a, 6, Opt())) { M6 e = section(R, o, a, b, Opt()); double d = 0, z = 1; for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) { d = std::max(d, fabs(M(i, j) - e[i][j])); z = std::max(z, fabs(e[i][j])); } c.check(d < 3e-6 * z, "transfer-map", "transfer map between elements %d and %d misses the derivative of the tracked map by %g (size %g)", a, b, d, z); c.ev("maps"); } } }
	c.note(mu[n][0]); c.note(mu[n][1]); c.nontrivial(); c.sample(fmt("%zu elements, rf %d: tunes %.5g %.5g", n, (int) w.rf, mu[n][0], mu[n][1]));
}
FAMILY(spectrum, 30, 300)
{
	elsewhere(); Quiet q; auto& r = c.rng; Ring R; Want w; w.errors = false; w.coupled = r.chance(0.2); w.nonlinear = r.chance(0.3); if(!stableRing(c, R, w)) return; M6 m = oneTurn(R, PSvector(0), 0, Opt()); CS tw; if(!cs(m, tw) || coupling(m) > 1e-6) return; int N = 1 << r.range(7, 10); auto far = [&](double x) { return std::min(x, 1 - x) > 6.0 / N; }; if(!far(tw.mx) || !far(tw.my)) return; PSvector p(0); double a = r.logu(1e-7, 1e-5); p.x() = a * r.uni(0.5, 1); p.xp() = a * r.sym(0.1); p.y() = a * r.uni(0.5, 1); p.yp() = a * r.sym(0.1); BetatronTunes bt(R.m.get(), R.P0); bool diff = r.chance(0.3); bt.FindTunes(p, N, diff);
	double tol = 0.5 / N; c.near(bt.Qx, tw.mx, tol * 0.2, 0, "tune", "horizontal tune from %d turns", N); c.near(bt.Qy, tw.my, tol * 0.2, 0, "tune", "vertical tune from %d turns", N); if(diff) { c.near(bt.dQx, 0, tol * 0.4, 0, "diffusion", "change of the horizontal tune"); c.near(bt.dQy, 0, tol * 0.4, 0, "diffusion", "change of the vertical tune"); c.ev("diffusion"); } c.ev("spectra"); if(tw.mx > 0.5) c.ev("above_half"); c.note(bt.Qx); c.note(bt.Qy); c.nontrivial();
	// pure lines at any frequency
	for(int k = 0; k < 5; k++) { int n = 1 << r.range(5, 10); double Q = k == 0 ? (n - 1.0) / n + r.uni(-0.3, 0.3) / n : r.uni(3.0 / n, 1 - 3.0 / n), ph = r.uni(0, 6.28), A = r.logu(1e-6, 1e3); std::vector<double> d; for(int i = 0; i < n; i++) { double f = sin(M_PI * (i + 1) / n); f *= f * A; d.push_back(f * cos(2 * M_PI * Q * i + ph)); d.push_back(-f * sin(2 * M_PI * Q * i + ph)); } double got = bt.FindTune(d); c.near(wrap(got - Q), 0, 0.02 / n, 0, "line", "a line at %.6g in %d points gives %.6g", Q, n, got); c.ev("lines"); }
}
// equilibrium of electrons with radiation, against the synchrotron integrals of the uncoupled ring
FAMILY(equilibrium, 120, 1000)
{
	elsewhere(); Quiet q; auto& r = c.rng; Ring R; Want w; w.errors = false; w.nonlinear = r.chance(0.5); w.rf = true; w.gradient = r.chance(0.4); w.P0 = r.logu(0.3, 2); w.qs0 = 0.002; w.qs1 = 0.008; if(!stableRing(c, R, w)) return; double U = energyLoss(R), V = R.cav->GetAmplitude() * R.cav->GetLength(); if(U > 0.3 * V || U / R.P0 > 1e-3) { c.ev("too_little_voltage"); return; } auto before = state(R); EquilibriumDistribution e(R.m.get(), R.P0); e.CalculateDampingConstants();
	double u = U / R.P0; double sum = 0; for(int k = 0; k < 3; k++) sum += e.DampingConstant(k); c.near(sum, 2 * u, 2e-8, 0.03, "damping-sum", "sum of the damping constants per turn"); c.near(e.DampingConstant(1), u / 2, 2e-8, 0.03, "damping-vertical", "vertical damping constant"); for(int k = 0; k < 3; k++) c.near(e.DampingTime(k), R.C / 299792458.0 / e.DampingConstant(k), 0, 1e-9, "damping-time", "damping time %d", k); c.ev("damping");
	PSvector p(0); Opt o; o.rad = true; o.radStep = 0.1; if(!orbit(R, p, 0, 6, o)) return; c.near(e.SynchronousTime(), p.ct() / 299792458.0, 1e-17, 1e-5, "synchronous-time", "time shift of the orbit"); M6 m = oneTurn(R, p, 0, o); CS t; if(cs(m, t)) { c.near(wrap(e.Tune(1) - t.my), 0, 1e-3, 0, "tune-vertical", "vertical tune: %g and %g", e.Tune(1), t.my); c.near(wrap(e.Tune(0) - t.mx), 0, 2e-2, 0, "tune-horizontal", "horizontal tune: %g and %g", e.Tune(0), t.mx); } double qs = acos((m[4][4] + m[5][5]) / 2) / (2 * M_PI), ts = e.Tune(2); c.check(std::min(fabs(ts - qs), fabs(1 - ts - qs)) < 0.02, "tune-synchrotron", "synchrotron tune %g, from the map about %g", ts, qs);
	e.CalculateEmittance(); // horizontal emittance from I5/I2
	M6 m0 = oneTurn(R, PSvector(0), 0, Opt()); R.cav->SetAmplitude(0); M6 mc = oneTurn(R, PSvector(0), 0, Opt()); if(!cs(mc, t)) return; V6 d, b; M6 a = mc; b.fill(0); for(int i = 0; i < 4; i++) { b[i] = -mc[i][5]; a[i][i] -= 1; } if(!solve(a, b, d, 4)) return; double I2 = 0, I5 = 0; double D = d[0], Dp = d[1], be = t.bx, al = t.ax;
	for(size_t i = 0; i < R.f.size(); i++) { if(auto sb = R.f[i]->IsComponent() ? dynamic_cast<SectorBend*>(&R.f[i]->GetComponent()) : nullptr) { double L = sb->GetLength(), h = R.h0, K = h * h + R.g1; int N = 400; double te = R.rect ? h * tan(h * L / 2) : 0; double D0 = D, P = Dp + te * D, b0 = be, a0 = al - te * be, g0 = (1 + a0 * a0) / b0; for(int s = 0; s < N; s++) { double x = (s + 0.5) * L / N, C, S, E; if(K > 1e-12) { double k = sqrt(K); C = cos(k * x); S = sin(k * x) / k; E = h * (1 - C) / K; } else if(K < -1e-12) { double k = sqrt(-K); C = cosh(k * x); S = sinh(k * x) / k; E = h * (1 - C) / K; } else { C = 1; S = x; E = h * x * x / 2; } double Cp = -K * S, Sp = C, dd = C * D0 + S * P + E, dq = Cp * D0 + Sp * P + h * S, bb = C * C * b0 - 2 * C * S * a0 + S * S * g0, aa = -C * Cp * b0 + (C * Sp + S * Cp) * a0 - S * Sp * g0, H = ((1 + aa * aa) * dd * dd) / bb + 2 * aa * dd * dq + bb * dq * dq; I2 += h * h * L / N; I5 += fabs(h * h * h) * H * L / N; } } M6 x = section(R, PSvector(0), i, i, Opt()); double D2 = x[0][0] * D + x[0][1] * Dp + x[0][5], P2 = x[1][0] * D + x[1][1] * Dp + x[1][5], g = (1 + al * al) / be, b2 = x[0][0] * x[0][0] * be - 2 * x[0][0] * x[0][1] * al + x[0][1] * x[0][1] * g, a2 = -x[0][0] * x[1][0] * be + (x[0][0] * x[1][1] + x[0][1] * x[1][0]) * al - x[0][1] * x[1][1] * g; D = D2; Dp = P2; be = b2; al = a2; }
	double Cq = 3.8319e-13, gam = R.P0 / 0.51099895e-3, Jx = e.DampingConstant(0) / (u / 2), ex = Cq * gam * gam * I5 / (Jx * I2); c.near(e.Emittance(0), ex, 0, 0.05, "emittance", "horizontal emittance (Jx %g, gradient %g)", Jx, R.g1); c.check(fabs(e.Emittance(1)) < 1e-6 * ex, "emittance-vertical", "vertical emittance %g in a flat ring", e.Emittance(1)); c.ev("emittance"); if(R.g1 != 0) c.ev("gradient_bends"); (void) m0;
	c.note(ex); c.note(U); c.nontrivial(); c.sample(fmt("P0 %.4g GeV, U %.3g GeV of %.3g GV, Jx %.4g, emittance %.4g (integrals %.4g)", R.P0, U, V, Jx, e.Emittance(0), ex));
}
