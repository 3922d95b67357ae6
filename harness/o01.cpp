// O01: closed orbits. The orbit found is tracked once around by the harness and must return to itself; it is
// compared with an independent Newton search; the ring is compared before and after.
#include "ring.h"
#include "ClosedOrbit.h"
using namespace vh; using namespace ring;
struct Kicker : ParticleBunchProcess { double a, b; bool on = false; Kicker(double x, double y) : ParticleBunchProcess("TEST KICK", 5), a(x), b(y) {} void SetCurrentComponent(AcceleratorComponent& e) override { active = on = e.GetName() == "CELL2"; } void DoProcess(double) override { if(!on) return; for(auto& p : *currentBunch) { p.xp() += a; p.yp() += b; } on = active = false; } double GetMaxAllowedStepSize() const override { return 1e9; } };
static double off(const PSvector& a, const PSvector& b, int n) { double d = 0; for(int i = 0; i < n; i++) d = std::max(d, fabs(a[i] - b[i])); return d; }
static void one(Case& c, Ring& R, ClosedOrbit& co, int cpt, const Opt& o, int n, PSvector start, const char* what)
{
	PSvector p(start), q(start); auto before = state(R); co.FindClosedOrbit(p, n); c.check(state(R) == before, "ring-changed", "%s: the search changed the ring", what);
	bool fin = true; for(int i = 0; i < 6; i++) fin = fin && std::isfinite(p[i]); if(!c.check(fin, "not-finite", "%s: orbit not finite", what)) return; for(int i = cpt; i < 6; i++) c.check(p[i] == start[i], "fixed-coordinates", "%s: coordinate %d changed by a transverse search", what, i);
	PSvector t = turn(R, {p}, n, o)[0]; double d = off(t, p, cpt), tol = cpt == 4 ? 2e-12 : 2e-11; bool conv = co.w <= 1e-26; if(conv) c.ev("converged"); else c.ev("stopped_by_rounding");
	c.check(d < tol || (!conv && d < 1e-9 && cpt == 6), "not-closed", "%s (element %d, %d coordinates): after one turn the orbit is off by %g (figure of merit %g after %d iterations)", what, n, cpt, d, co.w, co.iter);
	if(orbit(R, q, n, cpt, o)) { double e = off(p, q, cpt); c.check(e < (cpt == 4 ? 1e-10 : 1e-8), "other-orbit", "%s (element %d): differs by %g from an independent search", what, n, e); c.ev("compared"); }
	if(!R.nonlinear && cpt == 4 && !o.extra) c.check(co.iter <= 8, "slow", "%s: %d iterations on a linear ring", what, co.iter);
	c.ev("orbits"); c.note(p.x()); c.note(p.dp()); c.note(p.ct());
}
FAMILY(transverse, 60, 600)
{
	Quiet q; auto& r = c.rng; Ring R; Want w; w.errors = r.chance(0.9); w.coupled = r.chance(0.3); w.nonlinear = r.chance(0.6); if(!stableRing(c, R, w)) return; Opt o;
	ClosedOrbit co(R.m.get(), R.P0); co.TransverseOnly(true); if(r.chance(0.3)) co.SetDelta(r.logu(1e-10, 1e-7)); if(r.chance(0.2)) { double a = r.sym(3e-5), b = r.sym(3e-5); o.extra = [=] { return new Kicker(a, b); }; co.AddProcess(new Kicker(a, b)); c.ev("extra_process"); }
	for(int k = 0; k < 4; k++) { PSvector s(0); if(k) for(int i = 0; i < 4; i++) s[i] = r.sym(1e-4); if(r.chance(0.5)) { s.dp() = r.sym(2e-3); c.ev("off_momentum"); } if(r.chance(0.3)) s.ct() = r.sym(1e-3); int n = r.chance(0.5) ? 0 : r.range(0, R.f.size() - 1); if(n) c.ev("from_inside"); one(c, R, co, 4, o, n, s, "transverse orbit"); }
	// without errors and on momentum the design orbit is the closed orbit
	if(!R.errors && !o.extra) { PSvector p(0); co.FindClosedOrbit(p); for(int i = 0; i < 4; i++) c.check(fabs(p[i]) < 1e-13, "design-orbit", "coordinate %d of the orbit is %g in a perfect ring", i, p[i]); c.ev("perfect"); }
	c.nontrivial(); c.sample(fmt("%zu elements, C %.4g m, errors %d coupled %d nonlinear %d, %d iterations, w %g", R.f.size(), R.C, (int) R.errors, (int) R.coupled, (int) R.nonlinear, co.iter, co.w));
}
FAMILY(longitudinal, 50, 500)
{
	Quiet q; auto& r = c.rng; Ring R; Want w; w.rf = true; w.errors = r.chance(0.6); w.coupled = r.chance(0.3); w.nonlinear = r.chance(0.6); bool rad = c.idx % 3 == 2, dt = c.idx % 3 == 1; if(rad) w.P0 = r.logu(0.6, 4); if(!stableRing(c, R, w)) return; if(rad && energyLoss(R) > 0.6 * R.cav->GetAmplitude() * R.cav->GetLength()) { c.ev("too_little_voltage"); return; } Opt o; ClosedOrbit co(R.m.get(), R.P0);
	if(rad) { o.rad = true; co.Radiation(true); if(r.chance(0.5)) { o.radSteps = r.range(1, 4); co.SetRadNumSteps(o.radSteps); } else if(r.chance(0.5)) { o.radStep = r.uni(0.1, 1); co.SetRadStepSize(o.radStep); } c.ev("radiation"); } if(dt) { o.scale = r.sym(1e-6); co.ScaleBendPathLength(o.scale); c.ev("path_length"); }
	PSvector p(0); one(c, R, co, 6, o, 0, p, "6D orbit"); double U = 0; if(rad) { PSvector z(0); co.FindClosedOrbit(z); c.check(z.ct() != 0, "no-loss", "the orbit with radiation has no synchronous shift"); double u = energyLoss(R), k = 2 * M_PI * 5e8 / 299792458.0, V = R.cav->GetAmplitude() * R.cav->GetLength(); U = u; if(!R.errors) { int ic = 0; while(!R.f[ic]->IsComponent() || R.f[ic]->GetComponent().GetName() != "RF") ic++; PSvector zc = part(R, {z}, 0, ic - 1, o)[0]; c.near(V * cos(M_PI / 2 - k * zc.ct()), u, 0, 2e-3 + 4 * u / R.P0, "radiated-energy", "energy per turn given back by the cavity on the orbit"); c.ev("energy_balance"); } }
	int n = r.range(0, R.f.size() - 1); PSvector s(0); one(c, R, co, 6, o, n, s, "6D orbit inside"); c.nontrivial(); c.sample(fmt("%zu elements, alphaC %.3g, radiation %d (U %.3g GeV) path %g: %d iterations, w %g", R.f.size(), R.alphaC, (int) rad, U, o.scale, co.iter, co.w));
}
FAMILY(rms_orbit, 30, 300)
{
	Quiet q; auto& r = c.rng; Ring R; Want w; if(!stableRing(c, R, w)) return; ClosedOrbit co(R.m.get(), R.P0); PSvector p(0); for(int i = 0; i < 4; i++) p[i] = r.sym(1e-4); p.dp() = r.sym(1e-3); PSvector at(p), prev(p), s(0); auto before = state(R);
	double len = 0; for(size_t i = 0; i < R.f.size(); i++) { PSvector now = part(R, {prev}, i, i, Opt())[0]; double dl = R.f[i]->IsComponent() ? R.f[i]->GetComponent().GetLength() : 0; for(int k = 0; k < 6; k++) s[k] += dl * pow((now[k] + prev[k]) / 2, 2); len += dl; prev = now; }
	co.FindRMSOrbit(at); for(int k = 0; k < 6; k++) c.near(at[k], sqrt(s[k] / len), 1e-15, 1e-9, "rms-orbit", "coordinate %d", k); c.check(state(R) == before, "ring-changed", "the ring was changed"); c.ev("rms"); c.note(at.x()); c.note(at.y()); c.nontrivial();
}
