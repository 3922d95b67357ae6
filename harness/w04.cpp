// W04: hollow electron lens: hole, radial kick, profiles, directions, operation modes, steps.
#include "coll.h"
#include "HollowElectronLens.h"
#include "HollowELensProcess.h"
#include "ProtonBunch.h"
using namespace coll;
typedef long double LD;
struct Lens { double L, I, be, Br, Le, rmin, rmax, x0, y0, P0; bool opp, simple, lhc; int mode; double tune, dt, tv, tps, mult; int skip; };
static Lens lens(Case& c)
{
	auto& r = c.rng; Lens l; l.L = r.pick({0.0, 3.0, r.logu(0.01, 10)}); l.I = r.pick({5.0, 1.2, 0.0, r.logu(0.01, 30)}); l.be = r.pick({0.195, r.uni(0.05, 0.99)}); l.P0 = r.pick({7000.0, r.logu(0.3, 7000)}); l.Br = l.P0 / 0.299792458; l.Le = r.pick({3.0, r.logu(0.1, 5)});
	l.rmin = r.pick({r.logu(1e-4, 5e-3), r.logu(1e-4, 5e-3), 0.0}); l.rmax = l.rmin + r.logu(1e-5, 5e-3); bool off = r.chance(0.5); l.x0 = off ? r.sym(3e-3) : 0; l.y0 = off && r.chance(0.8) ? r.sym(3e-3) : 0; l.opp = r.chance(0.6); l.simple = r.chance(0.5); l.lhc = r.chance(0.5); l.mode = r.range(0, 3);
	double k = r.range(1, 40); l.tune = r.uni(0.1, 0.5); int s = r.range(0, 3); l.dt = s == 0 ? 0 : r.logu(1e-4, 0.05); l.tv = s == 1 ? 0 : (s == 0 ? 1e-3 : 2 * l.dt / k); if(s == 3) l.tv = 2 * l.dt / (k + r.uni(0.1, 0.9)); l.tps = r.pick({1.0, 2.0, (double) r.range(1, 30)}); l.mult = r.pick({1.0, 2.0, 0.5, r.uni(0.1, 3)}); l.skip = r.pick({0, 1, 2, r.range(1, 9)}); return l;
}
static HollowElectronLens* make(const Lens& l, const std::string& n)
{
	Quiet q; auto h = new HollowElectronLens(n, l.L, l.mode == 1 ? 0 : l.mode, l.I, l.be, l.Br, l.Le); h->SetRadii(l.rmin, l.rmax); h->XOffset = l.x0; h->YOffset = l.y0; if(!l.simple) h->SetRadialProfile(); if(l.lhc) h->SetLHCRadialProfile(); if(!l.opp) h->SetElectronDirection(false);
	if(l.mode == 1) h->SetAC(l.tune, l.dt, l.tv, l.tps, l.mult); if(l.mode == 3) h->SetTurnskip(l.skip); return h;
}
// share of the electron current inside the radius R
static LD inside(const Lens& l, LD R)
{
	if(R <= l.rmin) return 0; if(l.simple) return R >= l.rmax ? 1 : (R - l.rmin) * (R + l.rmin) / (((LD) l.rmax - l.rmin) * ((LD) l.rmax + l.rmin));
	static const double T[] = {222.5, 252.5, 287, 364.5, 426.5}, H[] = {222.5, 265, 315, 435, 505}, Y[] = {0, 917, 397, 228, 0}; LD x[5], tot = 0, in = 0; for(int i = 0; i < 5; i++) x[i] = (l.lhc ? H[i] : T[i]) / 222.5L * l.rmin; if(R >= x[4]) return 1;
	for(int i = 0; i < 4; i++)
	{
		auto j = [&](LD r) { return (Y[i] + (Y[i + 1] - Y[i]) * (r - x[i]) / (x[i + 1] - x[i])) * r; }; auto S = [&](LD a, LD b) { return (b - a) / 6 * (j(a) + 4 * j((a + b) / 2) + j(b)); };
		tot += S(x[i], x[i + 1]); if(R > x[i]) in += S(x[i], std::min(R, x[i + 1]));
	}
	return in / tot;
}
// Does the lens take the protons to move at the speed of light? (a listed finding; the family "velocity" reports it)
static bool unity()
{
	static int u = -1; if(u < 0) { Quiet q; HollowElectronLens h("P", 0, 0, 1, 0.5, 1, 1); h.SetRadii(1e-3, 2e-3); ProtonBunch b(0.5, 1); b.AddParticle(PSvector(0)); HollowELensProcess p(1); p.InitialiseProcess(b); p.SetCurrentComponent(h); u = std::fabs(p.CalcKickSimple(2e-3) / (-2 * 1.5 / (2e-3 * 1e7 * 0.5)) - 1) < 1e-9; } return u;
}
static LD beta(double P0) { LD m = 0.938272013L; return P0 / sqrtl((LD) P0 * P0 + m * m); }
static LD force(const Lens& l, LD R) // deflection of a proton away from the axis of the lens
{
	if(R <= l.rmin || R == 0) return 0; LD b = l.be * (unity() ? 1 : beta(l.P0)); LD t = 2 * (LD) l.Le * l.I / (R * 1e7L * l.Br * b); return (l.opp ? -(1 + b) : 1 - b) * t * inside(l, R);
}
static double factor(const Lens& l, int turn)
{
	if(l.mode == 0) return 1; if(l.mode == 3) return turn % (l.skip ? l.skip : 2) == 0; LD q = l.tune;
	if(l.tv != 0 && l.dt != 0) { LD steps = floorl(2 * (LD) l.dt / l.tv * (1 + 1e-9L)) + 1; q = (LD) l.tune - l.dt + fmodl(floorl(turn / (LD) l.tps), steps) * l.tv; }
	return 0.5L * (1 + cosl(2 * M_PIl * (LD) l.mult * turn * q));
}
static PV beam(Case& c, const Lens& l, int n)
{
	PV v; auto& r = c.rng; for(int i = 0; i < n; i++)
	{
		PSvector p(0); double R = r.pick({l.rmin * r.u(), l.rmin + (l.rmax - l.rmin) * r.u(), l.rmin * r.uni(0.9, 2.5), l.rmax * r.uni(0.9, 3), l.rmin * (1 + r.sym(1e-9)), l.rmax * (1 + r.sym(1e-9)), r.logu(1e-6, 0.05), 0.0}), a = r.pick({r.sym(M_PI), 0.0, M_PI / 2, M_PI, -M_PI / 2});
		p.xp() = r.pick({0.0, r.sym(1e-3)}); p.yp() = r.pick({0.0, r.sym(1e-3)}); p.x() = l.x0 + R * cos(a) - l.L * p.xp(); p.y() = l.y0 + R * sin(a) - l.L * p.yp(); p.dp() = r.pick({0.0, r.sym(1e-3), r.sym(0.2)}); p.ct() = r.sym(0.1); p.id() = 500 + 3 * i; v.push_back(p);
	}
	return v;
}
struct Watch { PV before; AcceleratorComponent* e = nullptr; std::map<AcceleratorComponent*, std::vector<LD>> k; };
FAMILY(passages, 1200, 20000)
{
	auto& r = c.rng; int nl = r.pick({1, 1, 2, 3}), nt = r.pick({1, 3, r.range(2, 25)}); std::vector<Lens> ls; Lens first = lens(c); std::map<AcceleratorComponent*, Lens> of; AcceleratorModelConstructor mc; std::vector<AcceleratorComponent*> order;
	double P0 = first.P0; for(int i = 0; i < nl; i++)
	{
		Lens l = i ? lens(c) : first; l.P0 = P0; l.Br = P0 / 0.299792458 * (i ? r.uni(0.9, 1.1) : 1); auto h = make(l, "H" + std::to_string(i)); of[h] = l; order.push_back(h);
		if(r.chance(0.7)) mc.AppendComponent(*new Drift("D", r.uni(0.1, 2))); mc.AppendComponent(*h); if(r.chance(0.5)) mc.AppendComponent(*new Quadrupole("Q", 0.3, r.sym(0.5) * P0)); if(r.chance(0.3)) mc.AppendComponent(*new Marker("M"));
	}
	std::unique_ptr<AcceleratorModel> m(mc.GetModel()); auto b = std::make_unique<ProtonBunch>(P0, 3.5); for(auto& p : beam(c, first, r.range(1, 25))) b->AddParticle(p);
	double Q = b->GetTotalCharge(), tm = b->GetReferenceTime(); ParticleTracker t(m->GetBeamline(), b.get()); auto proc = new HollowELensProcess(3); int steps = r.chance(0.35) ? r.range(2, 6) : 1;
	PV before; AcceleratorComponent* e = nullptr; double s = 0; std::map<AcceleratorComponent*, int> turn; std::map<AcceleratorComponent*, std::pair<int, int>> dif; uint32_t seed = r.range(1, 1 << 30); RandomNG::init(seed); State st; Recorder rec;
	struct Obs : ParticleBunchProcess { std::function<void(AcceleratorComponent*, double, PV&)> f; double h; Obs(int p, double h_, std::function<void(AcceleratorComponent*, double, PV&)> g) : ParticleBunchProcess("obs", p), f(g), h(h_) {} void SetCurrentComponent(AcceleratorComponent& a) override { currentComponent = &a; active = true; f(&a, -1, currentBunch->GetParticles()); } void DoProcess(double ds) override { f(currentComponent, ds, currentBunch->GetParticles()); } double GetMaxAllowedStepSize() const override { return h ? std::max(currentComponent->GetLength() / h, 1e-9) : 1e9; } };
	t.AddProcess(new Obs(2, steps > 1 ? steps : 0, [&](AcceleratorComponent* a, double ds, PV& p) { e = a; if(ds < 0) s = 0; else s += ds; before = p; })); t.AddProcess(proc);
	t.AddProcess(new Obs(4, 0, [&](AcceleratorComponent* a, double ds, PV& p) {
		if(ds < 0) return; c.check(p.size() == before.size(), "size", "%zu particles behind the lens, %zu in front", p.size(), before.size()); if(p.size() != before.size()) return; c.ev("steps");
		auto i = of.find(a); bool at = i != of.end() && s >= a->GetLength() * (1 - 1e-12);
		if(!at) { for(size_t k = 0; k < p.size(); k++) c.check(same(p[k], before[k]), i == of.end() ? "other-element" : "several-steps", "particle %zu changed in %s at %g m of %g m", k, a->GetName().c_str(), s, a->GetLength()); c.ev("elsewhere"); return; }
		Lens& l = i->second; int n = ++turn[a]; double f = l.mode == 2 ? -1 : factor(l, n); if(steps > 1 && a->GetLength() > 0) c.ev("several-steps");
		if(l.mode == 2) { bool any = false; for(size_t k = 0; k < p.size(); k++) if(!same(p[k], before[k])) any = true; f = any; auto& d = dif[a]; (any ? d.first : d.second)++; c.ev(any ? "diffusive-on" : "diffusive-off"); }
		if(l.mode == 1) c.ev("ac"); if(l.mode == 3) c.ev(f ? "skip-on" : "skip-off"); if(l.mode == 0) c.ev("dc");
		for(size_t k = 0; k < p.size(); k++)
		{
			const PSvector& q = before[k]; LD dx = (LD) q.x() - l.x0, dy = (LD) q.y() - l.y0, R = hypotl(dx, dy), T = f == 0 ? 0 : force(l, R) * f; LD top = 2 * (LD) l.Le * l.I / (std::max(R, 1e-12L) * 1e7L * l.Br * l.be) * 4; double tol = 4e-16 * (1 + std::fabs(q.xp()) + std::fabs(q.yp())) + (double) (top * (1e-11L + (l.simple ? 1e-14L * R / (l.rmax - l.rmin) : 0)) + top * 1e-17L / std::max(R, 1e-12L)) + 1e-13 * n * l.mult * std::fabs((double) top);
			c.check(p[k].x() == q.x() && p[k].y() == q.y() && p[k].ct() == q.ct() && p[k].dp() == q.dp() && p[k].id() == q.id(), "other-coordinates", "coordinates other than the angles, or the order of the particles, changed");
			if(R < l.rmin * (1 - 1e-12L)) { c.check(same(p[k], q), "hole", "particle at %.15g m inside the hole of %.15g m was kicked by (%g,%g)", (double) R, l.rmin, p[k].xp() - q.xp(), p[k].yp() - q.yp()); c.ev("hole"); continue; }
			LD u = R == 0 ? 0 : dx / R, v = R == 0 ? 0 : dy / R; c.near((double) ((LD) p[k].xp() - q.xp()), (double) (T * u), tol, 1e-10, "kick", "horizontal kick at (%g,%g) from the centre, turn %d, mode %d", (double) dx, (double) dy, n, l.mode); c.near((double) ((LD) p[k].yp() - q.yp()), (double) (T * v), tol, 1e-10, "kick", "vertical kick at (%g,%g) from the centre, turn %d, mode %d", (double) dx, (double) dy, n, l.mode);
			if(T != 0) c.ev(l.simple ? "simple" : l.lhc ? "lhc" : "measured"); if(T != 0) c.ev(l.opp ? "focusing" : "defocusing"); if(T != 0 && (l.x0 != 0 || l.y0 != 0)) c.ev("displaced"); if(R > l.rmax && T != 0) c.ev("outside");
		} }));
	for(int i = 0; i < nt; i++) { Quiet q; t.Track(b.get()); c.ev("turns"); }
	for(auto a : order) c.check(turn[a] == nt, "turns", "%s was passed %d times in %d turns", a->GetName().c_str(), turn[a], nt);
	c.near(b->GetReferenceMomentum(), P0, 0, 0, "bunch", "reference momentum"); c.near(b->GetTotalCharge(), Q, 0, 0, "bunch", "total charge"); c.near(b->GetReferenceTime(), tm, 1e9, 0, "bunch", "time");
	c.note(fmt("%.12g %.12g %d", first.rmin, first.rmax, first.mode)); c.nontrivial();
}
FAMILY(diffusive, 60, 600) // switched on in half of the turns, independently from turn to turn
{
	Lens l = lens(c); l.mode = 2; l.x0 = l.y0 = 0; l.I = 5; l.simple = true; l.L = 0; AcceleratorModelConstructor mc; mc.AppendComponent(*make(l, "H")); std::unique_ptr<AcceleratorModel> m(mc.GetModel()); RandomNG::init((uint32_t) c.rng.range(1, 1 << 30));
	const int n = 2000; ProtonBunch b(l.P0, 1); PSvector p(0); p.x() = l.rmax * 1.5; b.AddParticle(p); ParticleTracker t(m->GetBeamline(), &b); t.AddProcess(new HollowELensProcess(1)); int on = 0, same = 0; bool last = false; for(int i = 0; i < n; i++) { double q = b.begin()->xp(); t.Track(&b); bool k = b.begin()->xp() != q; on += k; if(i && k == last) same++; last = k; }
	c.near(on, n / 2., 7 * sqrt(n / 4.), 0, "rate", "turns with the lens on of %d", n); c.near(same, (n - 1) / 2., 7 * sqrt(n / 4.), 0, "independence", "turns like the turn before"); c.ev("series"); c.note(fmt("%d %g", on, l.rmin)); c.nontrivial();
}
FAMILY(profiles, 400, 5000) // functions and table of the kick, mode changes, copies
{
	auto& r = c.rng; Lens l = lens(c); Quiet quiet; l.mode = r.range(0, 3); std::unique_ptr<HollowElectronLens> h(make(l, "H")); ProtonBunch b(l.P0, 1); b.AddParticle(PSvector(0)); HollowELensProcess p(1); p.InitialiseProcess(b); p.SetCurrentComponent(*h); c.check(p.IsActive(), "active", "not active in a lens");
	double prev = 0; for(int i = 0; i < 50; i++)
	{
		double R = (i + r.u() * 0.9) * 3.2 * (l.rmax + l.rmin) / 50; PSvector q(0); double a = r.sym(M_PI); q.x() = l.x0 + R * cos(a); q.y() = l.y0 + R * sin(a); double k = l.simple ? p.CalcKickSimple(R) : p.CalcKickRadial(R), kq = l.simple ? p.CalcKickSimple(q) : p.CalcKickRadial(q), want = (double) force(l, R), top = 4 * l.Le * l.I / (std::max(R, 1e-9) * 1e7 * l.Br * l.be);
		double tol = 1e-11 * top * (1 + (l.simple ? 1e-2 * R / (l.rmax - l.rmin) : 0)); c.near(k, want, tol, 1e-10, "radial", "kick at %g m", R); c.near(kq, k, tol * 10 + 1e-15 / std::max(R, 1e-9) * top, 1e-9, "offset", "kick of a particle at %g m from the centre", R); double f = std::fabs(k * R); c.check(f >= prev - 1e-9 * (f + prev), "monotonic", "enclosed current decreases from %g to %g at %g m", prev, f, R); prev = f; c.ev("radii");
		c.check(l.opp ? k <= 0 : k >= 0, "sign", "kick %g with electrons %s the protons", k, l.opp ? "against" : "along");
	}
	h->Sigma_x = r.logu(1e-5, 1e-3); double lo = r.pick({0.0, r.uni(0, 3)}), hi = lo + r.uni(1, 12); std::ostringstream o; o.precision(12); p.OutputProfile(&o, l.P0, lo, hi); std::istringstream is(o.str()); std::string head; std::getline(is, head); double x, kr, ks, ar, as; int n = 0;
	Lens lr = l, lsx = l; lr.simple = false; lsx.simple = true; while(is >> x >> kr >> ks >> ar >> as) { c.near(x, lo + n * (hi - lo) / 1000, 1e-9 * hi, 0, "table", "radius of row %d", n); double R = x * h->Sigma_x, top = 4 * l.Le * l.I / (std::max(R, 1e-9) * 1e7 * l.Br * l.be); c.near(kr, (double) force(lr, R), 1e-8 * top * (1 + R / std::max(l.rmin, 1e-12)), 1e-8, "table", "measured profile at %g m", R); double w = 1e-9 * top * R / (l.rmax - l.rmin); c.near(ks, (double) force(lsx, R), 1e-8 * top + w, 1e-8, "table", "perfect profile at %g m", R); c.near(ar, std::fabs(kr), 0, 1e-9, "table", "size"); c.near(as, std::fabs(ks), 0, 1e-9, "table", "size"); n++; }
	c.near(n, 999, 0, 0, "table", "rows"); c.ev("tables");
	// a copy behaves as the original; an element that is no lens leaves the process idle; changed settings apply at once
	std::unique_ptr<ModelElement> cp(h->Copy()); auto& hc = dynamic_cast<HollowElectronLens&>(*cp); p.SetCurrentComponent(hc); double R = l.rmin + (l.rmax - l.rmin) * 0.7, k0 = l.simple ? p.CalcKickSimple(R) : p.CalcKickRadial(R); p.SetCurrentComponent(*h); c.near(l.simple ? p.CalcKickSimple(R) : p.CalcKickRadial(R), k0, 0, 0, "copy", "kick of a copy");
	if(l.simple) h->SetRadialProfile(); else h->SetPerfectProfile(); l.simple = !l.simple; if(r.chance(0.5)) { h->SetElectronDirection(!l.opp); l.opp = !l.opp; } l.rmin *= 0.5; h->SetRmin(l.rmin); l.Le *= 1.5; h->SetEffectiveLength(l.Le); h->Current *= 2; l.I *= 2; c.near(l.simple ? p.CalcKickSimple(R) : p.CalcKickRadial(R), (double) force(l, R), 0, 1e-9, "settings", "kick after changed settings"); c.ev("settings");
	Drift d("D", 1); p.SetCurrentComponent(d); c.check(!p.IsActive(), "active", "active in a drift"); c.note(fmt("%.12g", R)); c.nontrivial();
	// an invalid mode is reported; the lens is then in a defined state
	{ std::ostringstream w; auto old = std::cout.rdbuf(w.rdbuf()); HollowElectronLens z("Z", 0, r.pick({4, -1, 99}), 5, 0.2, 2e4, 3); std::cout.rdbuf(old); c.check(w.str().find("invalid") != std::string::npos, "invalid-mode", "no message"); z.SetRadii(1e-3, 2e-3); b.begin()->x() = 3e-3; p.SetCurrentComponent(z); b.begin()->xp() = 0; p.DoProcess(0); double k = b.begin()->xp(); p.SetCurrentComponent(z); p.DoProcess(0); c.near(b.begin()->xp(), 2 * k, 0, 1e-12, "invalid-mode", "two passages against one"); c.ev("invalid-mode"); }
	// AC mode without its settings: message, no kick
	{ std::ostringstream w; auto old = std::cout.rdbuf(w.rdbuf()); HollowElectronLens z("Z", 0, 1, 5, 0.2, 2e4, 3); z.SetRadii(1e-3, 2e-3); b.begin()->x() = 3e-3; b.begin()->xp() = 0; p.SetCurrentComponent(z); p.DoProcess(0); std::cout.rdbuf(old); c.check(w.str().find("not set") != std::string::npos && b.begin()->xp() == 0, "ac-unset", "kick %g, message '%s'", b.begin()->xp(), w.str().c_str()); c.ev("ac-unset"); }
}
FAMILY(velocity, 40, 400) // the kick depends on the velocity of the protons
{
	auto& r = c.rng; double P0 = r.logu(0.05, 100), be = r.uni(0.1, 0.9); bool opp = r.chance(0.5); LD bp = beta(P0); Quiet q; HollowElectronLens h("P", 0, 0, 1, be, 1, 1); h.SetRadii(1e-3, 2e-3); if(!opp) h.SetElectronDirection(false); ProtonBunch b(P0, 1); b.AddParticle(PSvector(0)); HollowELensProcess p(1); p.InitialiseProcess(b); p.SetCurrentComponent(h); double k = p.CalcKickSimple(3e-3); LD f = 2 / (3e-3L * 1e7L * be), want = f * (opp ? -(1 + be * bp) : 1 - be * bp) / bp, one = f * (opp ? -(1 + be) : 1 - be);
	bool known = fabsl(k / one - 1) < 1e-9L; c.near(k, (double) want, 0, 1e-9, known ? "proton-beta-of-1" : "proton-beta", "kick of a proton of %g GeV/c", P0); c.ev("momenta"); c.note(P0); c.nontrivial();
}
