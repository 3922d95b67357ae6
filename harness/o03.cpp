// O03: transfer matrices are the derivative of the tracked map (compared with five-point differences of the
// harness's own rays), symplectic where the elements are, and dispersion is the derivative of the orbit.
#include "ring.h"
#include "ClosedOrbit.h"
#include "TransferMatrix.h"
#include "Dispersion.h"
using namespace vh; using namespace ring;
static M6 conv(const RealMatrix& m) { M6 a; for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) a[i][j] = m(i, j); return a; }
static double size(const M6& m) { double d = 0; for(auto& r : m) for(double x : r) d = std::max(d, fabs(x)); return d; }
static void same(Case& c, const M6& a, const M6& b, double delta, const char* key, const char* what) { double s = 1 + size(b), tol = 3e-15 * s / delta + 300 * delta * s + 1e-8 * s; for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) if(!(fabs(a[i][j] - b[i][j]) <= tol)) { c.check(false, key, "%s: R%d%d is %.9g, the derivative of the map is %.9g (tolerance %g)", what, i + 1, j + 1, a[i][j], b[i][j], tol); return; } c.check(true, key); }
FAMILY(matrices, 60, 600)
{
	Quiet q; auto& r = c.rng; Ring R; Want w; w.rf = r.chance(0.5); w.errors = r.chance(0.8); w.coupled = r.chance(0.3); w.nonlinear = r.chance(0.6); bool rad = w.rf && r.chance(0.3); if(rad) w.P0 = r.uni(1, 4); if(!stableRing(c, R, w)) return; Opt o; auto before = state(R); double delta = r.chance(0.5) ? 1e-9 : r.logu(1e-10, 1e-7);
	TransferMatrix tm(R.m.get(), R.P0); if(delta != 1e-9) tm.SetDelta(delta); if(rad) { tm.Radiation(true); o.rad = true; if(r.chance(0.5)) { o.radSteps = r.range(1, 4); tm.SetRadNumSteps(o.radSteps); } else if(r.chance(0.5)) { o.radStep = r.uni(0.1, 1); tm.SetRadStepSize(o.radStep); } c.ev("radiation"); } if(r.chance(0.3)) { o.scale = r.sym(1e-7); tm.ScaleBendPathLength(o.scale); c.ev("path_length"); }
	int n = r.chance(0.4) ? 0 : r.range(0, R.f.size() - 1); tm.SetObservationPoint(n); if(n) c.ev("observation_point"); RealMatrix M(6);
	{ PSvector p(0); for(int i = 0; i < 4; i++) p[i] = r.sym(1e-4); p.ct() = r.sym(1e-4); p.dp() = r.sym(1e-3); PSvector p0(p); tm.FindTM(M, p); c.check(p.x() == p0.x() && p.dp() == p0.dp(), "orbit-changed", "the orbit given was changed"); same(c, conv(M), oneTurn(R, p0, n, o), delta, "one-turn", "one turn about a given orbit"); }
	{ int a = r.range(0, R.f.size() - 1), b = r.range(a, R.f.size() - 1); PSvector p(0); for(int i = 0; i < 4; i++) p[i] = r.sym(1e-4); p.dp() = r.sym(1e-3); tm.FindTM(M, p, a, b); same(c, conv(M), section(R, p, a, b, o), delta, "section", "part of the ring"); c.ev("sections"); }
	if(w.rf) { PSvector p(0), co(0); tm.FindClosedOrbitTM(M, co); if(orbit(R, p, n, 6, o)) { double d = 0; for(int i = 0; i < 6; i++) d = std::max(d, fabs(p[i] - co[i])); c.check(d < 1e-8, "closed-orbit", "orbit returned with the matrix is off by %g", d); same(c, conv(M), oneTurn(R, p, n, o), delta, "about-closed-orbit", "one turn about the closed orbit"); RealMatrix N(6); tm.FindTM(N); same(c, conv(N), oneTurn(R, p, n, o), delta, "about-closed-orbit", "one turn about the closed orbit, orbit not asked for"); c.ev("closed_orbit"); } }
	if(!w.errors && !rad && o.scale == 0) { PSvector p(0); tm.FindTM(M, p); M6 m = conv(M), S = sform(), t = mul(tr(m), mul(S, m)); double s = 1 + size(m); c.check(dist(t, S) < (3e-15 / delta + 300 * delta + 1e-7) * s * s * 6, "symplectic", "the one-turn matrix misses being symplectic by %g (size %g)", dist(t, S), s); c.ev("symplectic"); }
	c.check(state(R) == before, "ring-changed", "the calculation changed the ring"); c.note(M(0, 0)); c.note(M(0, 1)); c.nontrivial(); c.sample(fmt("%zu elements, rf %d errors %d coupled %d radiation %d from element %d", R.f.size(), (int) w.rf, (int) w.errors, (int) w.coupled, (int) rad, n));
}
FAMILY(dispersion, 40, 400)
{
	Quiet q; auto& r = c.rng; Ring R; Want w; w.errors = r.chance(0.8); w.coupled = r.chance(0.4); w.nonlinear = r.chance(0.6); w.rf = r.chance(0.2); if(!stableRing(c, R, w)) return; auto before = state(R); double delta = r.chance(0.5) ? 1e-9 : r.logu(1e-8, 1e-5); Dispersion D(R.m.get(), R.P0); if(delta != 1e-9) c.check(D.SetDelta(delta) == 1e-9, "delta", "previous step not returned");
	auto disp = [&](int n, V6& d, PSvector& p) { p = PSvector(0); if(!orbit(R, p, n, 4, Opt())) return false; M6 m = oneTurn(R, p, n, Opt()), a = m; V6 b; b.fill(0); d.fill(0); for(int i = 0; i < 4; i++) { b[i] = -m[i][5]; a[i][i] -= 1; } bool ok = solve(a, b, d, 4); d[4] = 0; d[5] = 1; return ok; };
	for(int k = 0; k < 3; k++) { int n = k ? r.range(0, R.f.size() - 1) : 0; V6 d; PSvector p(0); D.FindDispersion(n); if(!disp(n, d, p)) continue; double got[] = {D.Dx, D.Dxp, D.Dy, D.Dyp}, tol = 1e-13 / delta + 100 * delta + 1e-6; for(int i = 0; i < 4; i++) c.near(got[i], d[i], tol * 5, 1e-5, "dispersion", "%s at element %d", i == 0 ? "Dx" : i == 1 ? "Dx'" : i == 2 ? "Dy" : "Dy'", n); c.ev("dispersions"); if(n) c.ev("inside"); if(fabs(d[2]) > 1e-4) c.ev("vertical"); c.note(d[0]); }
	V6 d; PSvector p(0); std::ostringstream os; if(!disp(0, d, p)) return; D.FindRMSDispersion(&os); std::vector<std::array<double, 3> > T; { std::istringstream is(os.str()); double a, b, e; while(is >> a >> b >> e) T.push_back({a, b, e}); }
	// dispersion after every element, from the matrices of the elements
	double s = 0, sx = 0, sy = 0; V6 D0 = d; c.check(T.size() == R.f.size(), "dispersion-table", "%zu rows for %zu elements", T.size(), R.f.size()); for(size_t i = 0; i < R.f.size(); i++) { M6 m = section(R, p, i, i, Opt()); V6 e; for(int a = 0; a < 6; a++) { e[a] = 0; for(int b = 0; b < 6; b++) e[a] += m[a][b] * D0[b]; } p = part(R, {p}, i, i, Opt())[0]; double dl = R.f[i]->IsComponent() ? R.f[i]->GetComponent().GetLength() : 0; s += dl; sx += dl * (e[0] * e[0] + D0[0] * D0[0]) / 2; sy += dl * (e[2] * e[2] + D0[2] * D0[2]) / 2; D0 = e; if(i < T.size()) { c.near(T[i][0], s, 1e-9, 1e-4, "dispersion-place", "position of row %zu", i); c.near(T[i][1], e[0], 5e-13 / delta + 1e-3, 1e-3, "dispersion-along", "Dx after element %zu", i); c.near(T[i][2], e[2], 5e-13 / delta + 1e-3, 1e-3, "dispersion-along", "Dy after element %zu", i); } }
	c.near(D.DxRMS, sqrt(sx / s), 2e-13 / delta + 1e-4, 1e-4, "dispersion-rms", "rms Dx"); c.near(D.DyRMS, sqrt(sy / s), 2e-13 / delta + 1e-4, 1e-3, "dispersion-rms", "rms Dy"); c.ev("rms");
	c.check(state(R) == before, "ring-changed", "the calculation changed the ring"); c.nontrivial();
}
