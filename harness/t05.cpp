// T05: tracking a lattice is the composition of its parts; Run/Continue/Track/stepping/output semantics.
#include "lattice.h"
struct Out : SimulationOutput
{
	std::vector<const ComponentFrame*> v; std::vector<PSvector> first; int ini = 0, fin = 0; std::vector<int> order;
	void Record(const ComponentFrame* f, const Bunch* b) override { v.push_back(f); first.push_back(static_cast<const ParticleBunch*>(b)->FirstParticle()); order.push_back(1); }
	void RecordInitialBunch(const Bunch*) override { ini++; order.push_back(0); } void RecordFinalBunch(const Bunch*) override { fin++; order.push_back(2); }
};
struct Thrower : BunchProcess { int k, n = 0; Thrower(int x) : BunchProcess("THROW", 5), k(x) {} void InitialiseProcess(Bunch&) override { active = true; n = 0; } void DoProcess(double) override { if(n++ == k) throw MerlinException("planned"); } double GetMaxAllowedStepSize() const override { return 1e30; } };

FAMILY(lines, 10000, 100000)
{
	double P0 = c.rng.logu(0.5, 100); int n = c.rng.range(1, 15); L l = lattice(c, P0, n); size_t N = l.f.size(); size_t i0 = c.rng.range(0, N - 1), i1 = c.rng.range(i0, N - 1); bool flat = c.rng.chance(0.2); int is = c.rng.range(0, 2); for(auto f : l.f) if(is == 1 && f->IsComponent() && (f->GetComponent().GetType() == "TransverseRFStructure")) is = 0;
	auto b0 = bunch(c, P0, l); ParticleBunch ref(*b0), untouched(*b0); manual(ref, l.f, i0, i1, flat, is);
	AM::Beamline bl = l.m->GetBeamline(i0, i1); auto setup = [&](ParticleTracker& t) { t.SetIntegratorSet(&iset(is)); t.AssumeFlatLattice(flat); };
	Quiet q;
	{
		ParticleTracker t(bl, b0.get()); setup(t); ParticleBunch& r = static_cast<ParticleBunch&>(t.Run()); same(c, r, ref, "run"); c.check(&r == &t.GetTrackedBunch(), "tracked-bunch"); same(c, *b0, untouched, "initial-bunch-changed");
		ParticleBunch& r2 = static_cast<ParticleBunch&>(t.Run()); same(c, r2, ref, "second-run"); same(c, *b0, untouched, "initial-bunch-changed");
		// continue: once more through the same line
		ParticleBunch ref2(ref); manual(ref2, l.f, i0, i1, flat, is); same(c, static_cast<ParticleBunch&>(t.Continue()), ref2, "continue"); same(c, static_cast<ParticleBunch&>(t.Run()), ref, "run-after-continue");
		// stepping
		t.InitStepper(); size_t k = i0; bool more; do { c.check(&t.GetCurrentFrame() == l.f[k], "stepper-frame", "%zu", k); if(l.f[k]->IsComponent()) c.check(&t.GetCurrentComponent() == &l.f[k]->GetComponent(), "stepper-component"); more = t.StepComponent(); k++; ParticleBunch part(*b0); if(c.rng.chance(0.2)) { manual(part, l.f, i0, k - 1, flat, is); same(c, t.GetTrackedBunch(), part, "stepper-partial"); } } while(more && k <= i1 + 1); c.check(k == i1 + 1, "stepper-end", "%zu of %zu", k, i1 + 1); same(c, t.GetTrackedBunch(), ref, "stepper"); c.ev("stepped");
		auto own = new ParticleBunch(*b0); t.InitStepper(own); while(t.StepComponent()) ; same(c, t.GetTrackedBunch(), ref, "stepper-own-bunch"); c.check(&t.GetTrackedBunch() == own, "stepper-bunch");
		// Track a given bunch
		auto given = new ParticleBunch(*b0); ParticleBunch* back = t.Track(given); c.check(back == given, "track-pointer"); same(c, *back, ref, "track"); same(c, *t.Track(back), ref2, "track-again"); delete back;
	}
	// partition into consecutive sections, one tracker or several
	{
		std::vector<std::pair<size_t, size_t> > pc; for(size_t a = i0; a <= i1;) { size_t z = c.rng.range(a, i1); pc.push_back({a, z}); a = z + 1; }
		auto b = std::unique_ptr<ParticleBunch>(new ParticleBunch(*b0)); for(auto& p : pc) { ParticleTracker t(l.m->GetBeamline(p.first, p.second)); setup(t); t.Track(b.get()); } same(c, *b, ref, "partition-trackers");
		ParticleTracker t; setup(t); t.SetInitialBunch(b0.get()); for(size_t k = 0; k < pc.size(); k++) { t.SetBeamline(l.m->GetBeamline(pc[k].first, pc[k].second)); if(k == 0) t.Run(); else t.Continue(); } same(c, t.GetTrackedBunch(), ref, "partition-continue"); c.ev("partitions", pc.size());
	}
	// particle by particle
	if(b0->size() == 1 && b0->GetChargeSign() > 0) { ParticleTracker t(bl, b0->FirstParticle(), P0); setup(t); ParticleBunch one(P0); one.AddParticle(b0->FirstParticle()); manual(one, l.f, i0, i1, flat, is); t.Run(); same(c, t.GetTrackedBunch(), one, "single-particle"); }
	// inject on axis
	if(c.rng.chance(0.3)) { ParticleBunch ax(*b0); manual(ax, l.f, i0, i1, flat, is, true); ParticleTracker t(bl, b0.get()); setup(t); t.InjectBeamOnAxis(true); t.Run(); same(c, t.GetTrackedBunch(), ax, "inject-on-axis"); t.InjectBeamOnAxis(false); t.Run(); same(c, t.GetTrackedBunch(), ref, "inject-off-axis"); c.ev("on-axis"); }
	// output
	{
		ParticleTracker t(bl, b0.get()); setup(t); Out o; int mode = c.rng.range(0, 3); std::vector<std::string> pats; if(mode == 0) o.output_all = true; else for(int k = 0; k < mode; k++) { pats.push_back(c.rng.pick({"Quadrupole.*", "*.A", "Drift.B", "SectorBend.*", "*", "Nothing.*"})); o.AddIdentifier(pats.back()); }
		if(c.rng.chance(0.5)) o.output_initial = true; if(c.rng.chance(0.5)) o.output_final = true; t.SetOutput(&o); int passes = c.rng.range(1, 3); for(int p = 0; p < passes; p++) { if(p) t.Continue(); else t.Run(); }
		std::vector<const ComponentFrame*> e; std::vector<size_t> at; for(size_t k = i0; k <= i1; k++) { if(!l.f[k]->IsComponent()) continue; std::string qn = l.f[k]->GetComponent().GetQualifiedName(), nm = l.f[k]->GetComponent().GetName(), ty = l.f[k]->GetComponent().GetType(); bool m = mode == 0; for(auto& s : pats) m = m || s == "*" || s == ty + ".*" || s == "*." + nm || s == ty + "." + nm; if(m) { e.push_back(l.f[k]); at.push_back(k); } }
		size_t one = e.size(); for(int p = 1; p < passes; p++) for(size_t k = 0; k < one; k++) e.push_back(e[k]); c.check(o.v == e, "output-visits", "%zu records, expected %zu", o.v.size(), e.size()); c.check(o.ini == (o.output_initial ? passes : 0) && o.fin == (o.output_final ? passes : 0), "output-initial-final", "%d %d of %d", o.ini, o.fin, passes); if(o.output_initial && o.output_final) c.check(o.order.front() == 0 && o.order.back() == 2, "output-order");
		if(o.v == e && one) { size_t k = c.rng.range(0, one - 1); ParticleBunch part(*b0); manual(part, l.f, i0, at[k], flat, is); for(int z = 0; z < 6; z++) c.near(o.first[k][z], part.FirstParticle()[z], 1e-18, 1e-12, "output-bunch"); c.ev("records", o.v.size()); }
		SimulationOutput* none = nullptr; t.SetOutput(none); size_t before = o.v.size(); t.Run(); c.check(o.v.size() == before, "output-after-removal");
	}
	// exceptions
	if(c.rng.chance(0.3))
	{
		size_t comps = 0; for(size_t k = i0; k <= i1; k++) comps += l.f[k]->IsComponent(); int k = c.rng.range(0, (int) comps + 1); bool expect = k < (int) comps; ParticleTracker t(bl, b0.get()); setup(t); auto th = new Thrower(k); t.AddProcess(th); bool thrown = false; try { t.Run(); } catch(MerlinException& x) { thrown = x.what() == std::string("planned"); } c.check(thrown == expect, "exception-propagates");
		t.HandleExceptions(true); thrown = false; try { t.Run(); } catch(...) { thrown = true; } c.check(!thrown, "exception-handled"); t.HandleExceptions(false); if(expect) { auto g = new ParticleBunch(*b0); thrown = false; try { t.Track(g); } catch(MerlinException&) { thrown = true; } c.check(thrown, "exception-from-track"); delete g; } t.RemoveProcess(th); delete th; t.Run(); same(c, t.GetTrackedBunch(), ref, "run-after-exception"); c.ev("exceptions");
	}
	c.note(uint64_t(is)); c.note(grab(ref)[0].x()); c.nontrivial(); c.sample(fmt("%zu elements, section %zu..%zu, set %d, flat %d", N, i0, i1, is, (int) flat));
}
FAMILY(rings, 5000, 50000)
{
	double P0 = c.rng.logu(0.5, 100); L l = lattice(c, P0, c.rng.range(1, 8)); size_t N = l.f.size(), i0 = c.rng.range(0, N - 1); auto b0 = bunch(c, P0, l); int turns = c.rng.range(1, 5); Quiet q;
	std::vector<ComponentFrame*> rot(l.f.begin() + i0, l.f.end()); rot.insert(rot.end(), l.f.begin(), l.f.begin() + i0); std::vector<ParticleBunch> ref; { ParticleBunch b(*b0); for(int i = 0; i < turns; i++) { manual(b, rot, 0, N - 1, false, 0); ref.push_back(b); } }
	{
		ParticleTracker t(l.m->GetRing(i0), b0.get()); Out o; o.output_all = true; t.SetOutput(&o); size_t comps = 0; for(auto f : l.f) comps += f->IsComponent(); for(int i = 0; i < turns; i++) { ParticleBunch& b = static_cast<ParticleBunch&>(i ? t.Continue() : t.Run()); same(c, b, ref[i], "turns"); c.check(o.v.size() == comps * (i + 1), "ring-visits"); } size_t k = 0, bad = 0; for(int i = 0; i < turns; i++) for(auto f : rot) if(f->IsComponent()) bad += k >= o.v.size() || o.v[k++] != f; c.check(!bad, "ring-visit-order"); t.SetOutput(nullptr);
		same(c, static_cast<ParticleBunch&>(t.Run()), ref[0], "run-again"); c.ev("turns", turns);
		// stepping in a ring
		t.InitStepper(); size_t steps = 0; bool more; do { c.check(&t.GetCurrentFrame() == rot[steps], "ring-stepper-frame"); more = t.StepComponent(); steps++; } while(more && steps <= N); c.check(steps == N, "ring-stepper-end", "%zu of %zu", steps, N); same(c, t.GetTrackedBunch(), ref[0], "ring-stepper");
		t.InitStepper(new ParticleBunch(*b0)); while(t.StepComponent()) ; same(c, t.GetTrackedBunch(), ref[0], "ring-stepper-own");
	}
	{ ParticleTracker t; t.SetInitialBunch(b0.get()); t.SetRing(l.m->GetRing(i0)); t.Run(); same(c, t.GetTrackedBunch(), ref[0], "set-ring"); t.SetBeamline(l.m->GetBeamline()); t.Run(); ParticleBunch b(*b0); manual(b, l.f, 0, N - 1, false, 0); same(c, t.GetTrackedBunch(), b, "set-beamline"); }
	{ // a turn equals the line from the start plus the line to the start
		auto b = std::unique_ptr<ParticleBunch>(new ParticleBunch(*b0)); ParticleTracker a(l.m->GetBeamline(i0, N - 1)); a.Track(b.get()); if(i0 > 0) { ParticleTracker z(l.m->GetBeamline(0, i0 - 1)); z.Track(b.get()); } same(c, *b, ref[0], "turn-by-lines"); }
	c.note(uint64_t(N)); c.note(grab(ref[0])[0].x()); c.nontrivial(); c.sample(fmt("ring of %zu elements from %zu, %d turns", N, i0, turns));
}
