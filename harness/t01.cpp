// T01: trace specification of processes: order, tiling, step limits, membership.
#include "machine.h"
#include "ProcessStepManager.h"
#include "BunchProcess.h"
#include "ParticleBunch.h"
#include "ParticleTracker.h"
#include "ComponentStepper.h"
#include "PhysicalConstants.h"
using namespace vh; using namespace mach; using namespace ParticleTracking;
struct Rec;
struct Ev { int kind; Rec* p; const AcceleratorComponent* ac; double ds; bool act; int bounds; }; // 0 init 1 set 2 step
struct Log { std::vector<Ev> e; std::vector<Rec*> dead; };
struct Rec : BunchProcess
{
	Log& log; int tag, mode; double lim, on; bool wants = true; Bunch* b = nullptr; double at = 0, asked = 0; std::set<std::string> off; std::unique_ptr<ComponentDivider> div; int bounds = 0;
	Rec(Log& l, int t, int prio, int m, double x) : BunchProcess("P" + std::to_string(t), prio), log(l), tag(t), mode(m), lim(x), on(1) {}
	~Rec() override { log.dead.push_back(this); }
	void InitialiseProcess(Bunch& x) override { b = &x; active = wants; log.e.push_back({0, this, nullptr, 0, active, 0}); }
	void SetCurrentComponent(AcceleratorComponent& c) override { BunchProcess::SetCurrentComponent(c); at = 0; bounds = 0; active = wants && !off.count(c.GetName()); if(div) div->SetComponent(c); log.e.push_back({1, this, &c, 0, active, 0}); }
	double limit() const { return limit(currentComponent->GetLength(), at); }
	double limit(double L, double at) const { double r = L - at; switch(mode) { case 0: return 1e30; case 1: return lim; case 2: return L / 3; case 3: return at < L * 0.4 ? L * 0.4 - at : r; case 4: return div ? div->DistanceToStepBoundary() : r; default: return std::max(r * 0.5, L * 0.01); } }
	double GetMaxAllowedStepSize() const override { return const_cast<Rec*>(this)->asked = limit(); }
	void DoProcess(double ds) override { at += ds; if(div && div->Increment(ds)) bounds++; log.e.push_back({2, this, currentComponent, ds, active, bounds}); }
};
struct Table
{
	std::vector<Rec*> v; // insertion order
	std::vector<Rec*> ordered() const { std::vector<Rec*> o; for(auto p : v) if(p->GetPriority() >= 0) o.push_back(p); std::stable_sort(o.begin(), o.end(), [](Rec* a, Rec* b) { return a->GetPriority() < b->GetPriority(); }); return o; }
};
// judge the events of one passage through one component
static void element(Case& c, const std::vector<Ev>& e, size_t& i, const AcceleratorComponent& ac, const Table& t, const char* who)
{
	std::vector<Rec*> ord = t.ordered(); double L = ac.GetLength(); std::multiset<Rec*> setseen; std::set<Rec*> actset; std::map<Rec*, int> bounds; size_t n = t.v.size();
	for(size_t k = 0; k < n; k++, i++) { if(!c.check(i < e.size() && e[i].kind == 1 && e[i].ac == &ac, "set-component", "%s: event %zu of %zu", who, i, e.size())) return; setseen.insert(e[i].p); if(e[i].act) actset.insert(e[i].p); }
	for(auto p : t.v) c.check(setseen.count(p) == 1, "set-component-once");
	std::vector<Rec*> act; for(auto p : t.v) if(actset.count(p)) act.push_back(p); std::vector<Rec*> oact; for(auto p : ord) if(actset.count(p)) oact.push_back(p);
	if(act.empty()) { c.ev("no-active"); return; }
	long double s = 0; double tol = 4e-16 * (L + 1); int rounds = 0; std::map<Rec*, double> at; for(auto p : act) at[p] = 0;
	while(rounds == 0 || (i < e.size() && e[i].kind == 2))
	{
		if(!c.check(i + act.size() <= e.size(), "round-incomplete", "%s %s L=%g s=%Lg", who, ac.GetQualifiedName().c_str(), L, s)) { i = e.size(); return; }
		double ds = e[i].ds; tol = 3e-16 * (L + 1) * (rounds + 3); std::vector<Rec*> got, gotord; std::set<Rec*> once;
		for(size_t k = 0; k < act.size(); k++, i++) { if(!c.check(e[i].kind == 2 && e[i].ac == &ac, "step-event", "kind %d", e[i].kind)) return; c.check(e[i].ds == ds, "unequal-steps", "%.17g %.17g", e[i].ds, ds); c.check(actset.count(e[i].p), "inactive-acts"); bounds[e[i].p] = e[i].bounds; once.insert(e[i].p); if(e[i].p->GetPriority() >= 0) gotord.push_back(e[i].p); }
		c.check(once.size() == act.size(), "acts-once-per-step"); c.check(gotord == oact, "priority-order", "round %d of %s", rounds, ac.GetName().c_str());
		c.check(ds >= 0, "negative-step", "%s L=%.17g s=%.17Lg ds=%g", who, L, s, ds); c.check(s + ds <= L + tol, "step-beyond-end", "L=%.17g s=%.17Lg ds=%.17g", L, s, ds);
		auto before = at; for(auto p : act) { if(p->mode != 4) { double lim = p->limit(L, at[p]); c.check(ds <= lim + tol, "step-limit", "%s L=%g s=%Lg ds=%.17g limit %.17g (mode %d)", who, L, s, ds, lim, p->mode); } at[p] += ds; }
		// the step is as large as allowed: up to the smallest limit
		double m = (double) (L - s); for(auto p : act) { if(p->mode == 4) { m = -1; break; } m = std::min(m, p->limit(L, before[p])); } if(m >= 0) c.check(ds >= m - tol, "step-too-short", "ds %g, allowed %g", ds, m);
		s += ds; rounds++; c.ev("rounds");
	}
	c.near((double) s, L, tol, 0, "tiles-element"); for(auto p : act) if(p->div && p->mode == 4 && L > 0) { int want = p->tag % 7 + 1; c.check(bounds[p] == want, "divider-boundaries", "%d, expected %d (L=%.17g)", bounds[p], want, L); c.ev("divided"); }
	if(rounds > 1) c.ev("multi-step"); if(L == 0) c.ev("zero-length"); c.ev("elements");
}
static double length(Case& c) { return c.rng.pick({0.0, 1.0, c.rng.uni(0, 3), c.rng.uni(0, 100), 1e-9, 0.1, 3.7, 1e-3, 27000.0}); }
static Rec* mk(Case& c, Log& l, int tag) { Rec* r = new Rec(l, tag, c.rng.chance(0.1) ? -1 : c.rng.range(0, 3), c.rng.range(0, 5), c.rng.pick({0.1, 0.3, 7.0, 1e3, c.rng.uni(0.05, 2)})); if(r->mode == 1 && r->lim < 1 && c.rng.chance(0.5)) r->lim = 0.25; if(r->mode == 4) r->div.reset(new ComponentDivider(tag % 7 + 1)); r->wants = c.rng.chance(0.85); if(c.rng.chance(0.3)) r->off.insert(c.rng.pick({"D0", "D1", "D2"})); return r; }
static double maxlen(const Table& t, double L) { for(auto p : t.v) if(p->mode == 1 && p->lim > 0) L = std::min(L, p->lim * 500); return L; }

FAMILY(manager, 20000, 200000)
{
	Log log; ParticleBunch b(1.0); Table t; int tags = 0; std::vector<std::unique_ptr<AcceleratorComponent> > comps; { ProcessStepManager m; std::ostringstream os; bool logging = false; size_t lines = 0; double total = 0; bool inited = false; std::vector<Rec*> removed;
	int n = c.rng.range(5, 25);
	for(int k = 0; k < n; k++)
	{
		int op = k < 3 ? 0 : c.rng.range(0, 9);
		if(op <= 1) { Rec* r = mk(c, log, tags++); m.AddProcess(r); t.v.push_back(r); if(inited && c.rng.chance(0.8)) r->InitialiseProcess(b); c.ev("added"); }
		else if(op == 2 && !t.v.empty()) { size_t j = c.rng.range(0, t.v.size() - 1); Rec* r = t.v[j]; c.check(m.RemoveProcess(r), "remove-present-reported-absent", "priority %d", r->GetPriority()); t.v.erase(t.v.begin() + j); removed.push_back(r); c.ev("removed"); }
		else if(op == 3) { std::unique_ptr<Rec> own; Rec* r; if(!removed.empty() && c.rng.chance(0.5)) r = c.rng.pick(removed); else { own.reset(mk(c, log, 999)); r = own.get(); } c.check(!m.RemoveProcess(r), "remove-absent-reported-present"); c.ev("remove-absent"); }
		else if(op == 4) { log.e.clear(); m.Initialise(b); inited = true; total = 0; c.check(log.e.size() == t.v.size(), "initialise"); for(auto& x : log.e) c.check(x.kind == 0 && x.p->b == &b, "initialise-bunch"); std::vector<Rec*> io; for(auto& x : log.e) if(x.p->GetPriority() >= 0) io.push_back(x.p); c.check(io == t.ordered(), "initialise-order"); }
		else if(op == 5 && c.rng.chance(0.3)) { log.dead.clear(); m.ClearProcesses(); c.check(log.dead.size() == t.v.size() && std::set<Rec*>(log.dead.begin(), log.dead.end()) == std::set<Rec*>(t.v.begin(), t.v.end()), "clear"); t.v.clear(); log.dead.clear(); c.ev("cleared"); }
		else if(op == 6) { logging = !logging; m.SetLogStream(logging ? &os : nullptr); }
		else
		{
			double L = maxlen(t, length(c)); comps.emplace_back(new Drift("D" + std::to_string(c.rng.range(0, 3)), L)); AcceleratorComponent& d = *comps.back(); log.e.clear(); m.Track(d); total += L; size_t i = 0; element(c, log.e, i, d, t, "manager"); c.check(i == log.e.size(), "extra-events", "%zu of %zu", i, log.e.size());
			if(logging) for(auto& x : log.e) lines += x.kind == 2; c.near(m.GetIntegratedLength(), total, 1e-12 * (total + 1), 0, "integrated-length"); c.note(L);
		}
	}
	size_t got = 0; for(char ch : os.str()) got += ch == '\n'; c.check(got == lines, "log-lines", "%zu, expected %zu", got, lines); if(lines) c.ev("logged", lines);
	for(auto r : removed) { bool dead = std::count(log.dead.begin(), log.dead.end(), r); c.check(!dead, "removed-deleted"); if(!dead) delete r; } log.dead.clear(); }
	c.check(log.dead.size() == t.v.size(), "owned-processes-deleted-once", "%zu of %zu", log.dead.size(), t.v.size()); c.nontrivial(); c.sample(fmt("%d operations, %d processes created", (int) comps.size(), tags));
}
FAMILY(tracker, 8000, 80000)
{
	Log log; AcceleratorModelConstructor mc; int n = c.rng.range(1, 12); std::vector<AcceleratorComponent*> seq;
	for(int i = 0; i < n; i++) { int ty = c.rng.pick({0, 1, 2, 4, 8, 10, 0, 18}); auto a = make(c, ty, "D" + std::to_string(c.rng.range(0, 4)), c.rng.pick({1.0, 0.3, c.rng.uni(0.1, 5)}), 1, 0.1); if(ty == MARKER) mc.AppendComponent(*(Marker*) a); else if(ty == QUAD) mc.AppendComponent(*(Quadrupole*) a); else if(ty == SEXT) mc.AppendComponent(*(Sextupole*) a); else if(ty == XCOR) mc.AppendComponent(*(XCor*) a); else if(ty == SBEND) mc.AppendComponent(*(SectorBend*) a); else if(ty == COLL) mc.AppendComponent(*(Collimator*) a); else mc.AppendComponent(*(Drift*) a); seq.push_back(a); c.note(a->GetLength()); }
	std::unique_ptr<AcceleratorModel> m(mc.GetModel()); ParticleBunch b0(1.0); for(int i = 0; i < 3; i++) { PSvector p(0); p.x() = c.rng.sym(1e-3); p.yp() = c.rng.sym(1e-4); b0.AddParticle(p); }
	bool ring = c.rng.chance(0.5); size_t i0 = c.rng.range(0, n - 1), i1 = ring ? (i0 + n - 1) % n : c.rng.range(i0, n - 1); std::unique_ptr<ParticleTracker> tr(ring ? new ParticleTracker(m->GetRing(i0), &b0) : new ParticleTracker(m->GetBeamline(i0, i1), &b0));
	std::vector<AcceleratorComponent*> path; if(ring) for(int i = 0; i < n; i++) path.push_back(seq[(i0 + i) % n]); else for(size_t i = i0; i <= i1; i++) path.push_back(seq[i]);
	Table t; int k = c.rng.range(1, 4); for(int i = 0; i < k; i++) { Rec* r = mk(c, log, i); if(r->mode == 1 && r->lim < 0.05) r->lim = 0.05; r->wants = true; tr->AddProcess(r); t.v.push_back(r); }
	double len = 0; for(auto a : path) len += a->GetLength(); int runs = c.rng.range(1, 4); double t0 = b0.GetReferenceTime();
	for(int q = 0; q < runs; q++)
	{
		log.e.clear(); bool fresh = q == 0 || c.rng.chance(0.3); Bunch& b = fresh ? tr->Run() : tr->Continue(); if(fresh) t0 = b0.GetReferenceTime(); size_t i = 0;
		if(fresh) { for(size_t j = 0; j < t.v.size(); j++, i++) if(!c.check(i < log.e.size() && log.e[i].kind == 0 && log.e[i].p->b == &b, "run-initialises")) return; }
		for(auto a : path) { element(c, log.e, i, *a, t, ring ? "ring" : "line"); } c.check(i == log.e.size(), "extra-events"); t0 += len; c.near(b.GetReferenceTime(), t0, 1e-12 * (t0 + 1), 0, "path-length"); c.ev(fresh ? "runs" : "continues");
		if(t.v.size() > 1 && c.rng.chance(0.2)) { Rec* r = t.v.back(); c.check(tr->RemoveProcess(r), "tracker-remove"); t.v.pop_back(); delete r; }
	}
	c.note(uint64_t(ring)); c.nontrivial(); c.sample(fmt("%s of %zu elements, %zu processes, %d runs", ring ? "ring" : "line", path.size(), t.v.size(), runs));
}
