// C01: every particle is in the bunch or in the list of losses, exactly once; exactly the particles outside are removed.
#include "coll.h"
using namespace coll;
// hard-edge collimation in any element, any choice of planes, any step pattern, several turns
FAMILY(hardedge, 4000, 100000)
{
	Quiet q; auto& r = c.rng; const double P0 = r.pick({1.0, 450.0, 7000.0}); Line l = line(c, r.range(1, 10), false, P0); int N = r.range(1, 60), mode = r.range(1, 7), turns = r.pick({1, 1, 2, 5});
	const bool ring = r.chance(0.4), index = r.chance(0.4), scatterflag = r.chance(0.1); double bin = r.pick({0.1, r.logu(0.01, 1), 0.05}), h = r.chance(0.4) ? r.logu(0.02, 1) : 0;
	State st; Recorder* rec = new Recorder; Recorder rec2; std::unique_ptr<Recorder> rd(rec); auto* col = new CollimateParticleProcess(2, mode); if(r.chance(0.5)) col->SetOutputBinSize(bin); col->SetCollimationOutput(rec); bool two = r.chance(0.5); if(two) col->SetCollimationOutput(&rec2); col->SetLossThreshold(200);
	std::list<size_t> mine; int how = index ? r.range(1, 2) : 0; if(how == 1) col->IndexParticles(true); if(how == 2) { if(r.chance(0.5)) col->IndexParticles(true); col->IndexParticles(mine); } (void) scatterflag;
	auto after = [&](PV& post)
	{
		AcceleratorComponent* e = st.e; const Wall& w = l.wall[e]; double L = e->GetLength(); bool plane = false; // is this step at a plane of the checks?
		for(int b = 0; b < 3; b++) if(mode >> b & 1) { double z = b == 0 ? 0 : b == 1 ? L / 2 : L; if(fabs(z - st.s) < 1e-9 * (1 + L)) plane = true; }
		size_t j = 0, gone = 0; std::vector<double> dead;
		for(auto& p : st.pre)
		{
			bool kept = j < post.size() && same(p, post[j]); aper::L m = margin(w, p.x(), p.y());
			if(kept) { j++; c.check(!plane || w.k < 0 || m > -1e-11L, "outside-kept", "%s at s=%.17g of %.17g: (%.17g, %.17g) margin %Lg stays", e->GetQualifiedName().c_str(), st.s, L, p.x(), p.y(), m); continue; }
			gone++; dead.push_back(p.id()); c.check(plane && w.k >= 0 && m < 1e-11L, "inside-removed", "%s at s=%.17g of %.17g: (%.17g, %.17g) margin %Lg removed (or changed), plane %d", e->GetQualifiedName().c_str(), st.s, L, p.x(), p.y(), m, plane);
		}
		c.check(j == post.size(), "survivors-unchanged", "%s: %zu of %zu survivors are the same particles in the same order", e->GetQualifiedName().c_str(), j, post.size());
		std::vector<double> rep; for(size_t i = st.losses; i < rec->v.size(); i++) rep.push_back(rec->v[i].p.id()); auto a = rep, b = dead; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
		c.check(a == b, "reported-once", "%s (%.17g long) at %.17g: %zu removed, %zu reported", e->GetQualifiedName().c_str(), L, st.s, dead.size(), rep.size());
		c.ev("losses", gone); if(plane && w.k >= 0) c.ev("planes"); if(gone && L == 0) c.ev("lost-in-zero-length"); if(gone && st.s < L) c.ev("lost-before-exit"); st.losses = rec->v.size();
	};
	auto b0 = std::unique_ptr<ParticleBunch>(beam(c, N, P0, true)); PV start = b0->GetParticles(); double Q = 1 + r.u(); b0->SetMacroParticleCharge(Q);
	std::unique_ptr<ParticleTracker> t(ring ? new ParticleTracker(l.m->GetRing(0), b0.get()) : new ParticleTracker(l.m->GetBeamline(), b0.get()));
	// planes that pass without a step there would go unseen: the planes a particle must have been checked at are counted
	int seen = 0; bool sorted = !index && r.chance(0.2); t->AddProcess(new Sorter(sorted, 1)); if(sorted) c.ev("sorted"); t->AddProcess(new Before(st, *rec, 1)); t->AddProcess(col); t->AddProcess(new Stepper(h, 1)); t->AddProcess(new After(st, 3, [&](PV& p) { const Wall& w = l.wall[st.e]; double L = st.e->GetLength(); std::set<int> z; for(int b = 0; b < 3; b++) if(mode >> b & 1) { double p0 = b == 0 ? 0 : b == 1 ? L / 2 : L; if(fabs(p0 - st.s) < 1e-9 * (1 + L)) z.insert(b); } if(w.k >= 0 && !z.empty()) seen += L == 0 ? 1 : (int) z.size(); after(p); }));
	int want = 0; for(auto a : l.el) if(l.wall[a].k >= 0) want += a->GetLength() == 0 ? 1 : __builtin_popcount(mode);
	for(int k = 0; k < turns; k++) { if(k == 0) t->Run(); else t->Continue(); }
	c.check(seen == want * turns, "planes-missed", "%d of %d planes were checked (mode %d, steps %g)", seen, want * turns, mode, h);
	ParticleBunch& f = t->GetTrackedBunch(); std::map<long, int> cnt; for(auto& p : f.GetParticles()) cnt[long(p.id())]++; for(auto& x : rec->v) cnt[long(x.p.id())] += 1000;
	for(auto& p : start) { int n = cnt[long(p.id())]; c.check(n == 1 || n == 1000, "exactly-once", "particle %ld: %d times in the bunch, %d times lost", long(p.id()), n % 1000, n / 1000); cnt.erase(long(p.id())); }
	c.check(cnt.empty(), "invented", "%zu identities that were never in the bunch", cnt.size()); c.near(f.GetTotalCharge(), Q * f.size(), 1e-12, 1e-12, "charge");
	if(two) { bool eq = rec2.v.size() == rec->v.size(); for(size_t i = 0; eq && i < rec2.v.size(); i++) eq = rec2.v[i].e == rec->v[i].e && rec2.v[i].pos == rec->v[i].pos && rec2.v[i].turn == rec->v[i].turn && same(rec2.v[i].p, rec->v[i].p); c.check(eq, "second-output", "%zu and %zu losses in the two outputs", rec->v.size(), rec2.v.size()); }
	if(how) { auto& ix = how == 1 ? col->GetIndexes() : mine; bool eq = ix.size() == f.size(); size_t i = 0; for(auto k : ix) { if(!eq) break; eq = k < start.size() && start[k].id() == f.GetParticles()[i].id(); i++; } c.check(eq, "index-list", "the list has %zu entries for %zu survivors or names others", ix.size(), f.size()); c.ev("indexed"); }
	c.note(double(f.size())); for(auto& x : rec->v) c.note(x.pos + x.p.x()); if(f.size() < start.size() && f.size()) c.nontrivial(); c.sample(fmt("%zu elements, %d particles, mode %d, %d turns: %zu lost", l.el.size(), N, mode, turns, rec->v.size()));
}
// the loss threshold stops the run exactly when it is reached, and nothing is forgotten then
FAMILY(threshold, 1500, 40000)
{
	Quiet q; auto& r = c.rng; Line l = line(c, r.range(1, 8), false, 1); int N = r.range(1, 40), mode = r.pick({1, 4, 5, 7}); double pc = r.pick({100.0, r.uni(1, 100), 50.0, 200.0}); bool def = pc == 100 && r.chance(0.5);
	Recorder rec; auto* col = new CollimateParticleProcess(2, mode); if(!def) col->SetLossThreshold(pc); col->SetCollimationOutput(&rec); auto b0 = std::unique_ptr<ParticleBunch>(beam(c, N, 1, true)); PV start = b0->GetParticles(); State st; size_t size = N; bool over = false; std::string at;
	ParticleTracker t(l.m->GetBeamline(), b0.get()); t.AddProcess(new Before(st, rec, 1)); t.AddProcess(col); bool thrown = false; std::string what;
	t.AddProcess(new After(st, 3, [&](PV& p) { size = p.size(); if(size < st.pre.size() && double(N - size) / N >= pc / 100 * (1 + 1e-12)) over = true; c.check(!over, "threshold-ignored", "%zu of %d lost, threshold %g%%", N - size, N, pc); }));
	try { t.Run(); } catch(ExcessiveParticleLoss& e) { thrown = true; what = e.what(); }
	ParticleBunch& f = t.GetTrackedBunch(); double lost = double(N - f.size()) / N; c.check(rec.v.size() + f.size() == start.size(), "accounted", "%zu lost + %zu left of %d", rec.v.size(), f.size(), N);
	if(thrown) { c.check(lost >= pc / 100 * (1 - 1e-12), "stopped-early", "lost %g, threshold %g%%", lost, pc); c.check(what.find(st.e->GetQualifiedName()) != std::string::npos, "names-element", "%s: %s", st.e->GetQualifiedName().c_str(), what.c_str()); c.ev("stopped"); } else { c.check(rec.v.empty() || lost < pc / 100 * (1 + 1e-12), "not-stopped", "lost %g, threshold %g%%", lost, pc); c.ev("not-stopped"); }
	c.note(lost); c.note(pc); for(auto& x : rec.v) c.note(x.pos + x.p.x()); if(!rec.v.empty()) c.nontrivial();
}
// scattering collimators: exactly the particles in the jaw at the start of a bin reach the scattering, at the right place
struct Decide : CollimateParticleProcess
{
	Case& c; State& st; Recorder& rec; Line& l; int die; std::map<long, int> given; double lastcheck = 0; std::vector<std::pair<PSvector, PSvector>> moved;
	Decide(Case& cc, State& s, Recorder& r, Line& ll, int d, int mode) : CollimateParticleProcess(2, mode), c(cc), st(s), rec(r), l(ll), die(d) {}
	double from() const { return int_s; } double to() const { return s; }
	ScatterOutcome DoScatter(Particle& p) override
	{
		given[long(p.id())]++; PSvector in = p; p.xp() += 1e-4; p.x() += (s - int_s) * p.xp(); p.y() += (s - int_s) * p.yp(); moved.push_back({in, p});
		if(long(p.id()) / 7 % die == 0) { for(auto o : CollimationOutputVector) o->Dispose(*currentComponent, s, p, ColParProTurn); return ScatterOutcome::absorbed; } return ScatterOutcome::survived;
	}
};
FAMILY(scatter, 3000, 80000)
{
	Quiet q; auto& r = c.rng; const double P0 = 7000; Line l = line(c, r.range(1, 6), true, P0); int N = r.range(1, 60), mode = r.range(1, 7), turns = r.pick({1, 2, 3}); double bin = r.pick({0.1, 0.1, r.logu(0.02, 1)}), h = r.chance(0.4) ? r.logu(0.02, 0.5) : 0; State st; Recorder rec; auto* col = new Decide(c, st, rec, l, r.pick({1, 2, 3, 1000000}), mode); col->ScatterAtCollimator(true); col->SetOutputBinSize(bin); col->SetCollimationOutput(&rec); col->SetLossThreshold(200);
	auto b0 = std::unique_ptr<ParticleBunch>(beam(c, N, P0, true)); PV start = b0->GetParticles(); ParticleTracker t(l.m->GetBeamline(), b0.get()); double last = 0; int cur = 0; int bins = 0, wantbins = 0;
	auto after = [&](PV& post)
	{
		AcceleratorComponent* e = st.e; if(st.entered != cur) { cur = st.entered; last = 0; } bool jaw = dynamic_cast<Collimator*>(e) && dynamic_cast<const CollimatorAperture*>(e->GetAperture()); if(!jaw) { col->given.clear(); col->moved.clear(); last = st.s; return; }
		double L = e->GetLength(), tol = 1e-9; if(L == 0) { col->given.clear(); col->moved.clear(); return; } double want = std::min(last + bin, L); bool due = st.s > 0 && st.s >= want - tol; const Wall& w = l.wall[e];
		if(!due) { c.check(post.size() == st.pre.size() && col->moved.empty(), "scatter-between-bins", "%s at %.17g", e->GetQualifiedName().c_str(), st.s); for(size_t i = 0; i < post.size() && i < st.pre.size(); i++) c.check(same(post[i], st.pre[i]), "changed-between-bins"); return; }
		double step = st.s - last; std::map<long, PSvector> out; for(auto& p : post) out.emplace(long(p.id()), p); std::map<long, std::pair<PSvector, PSvector>> mv; for(auto& m : col->moved) mv.emplace(long(m.first.id()), m);
		for(auto& p : st.pre)
		{
			double x = p.x() - step * p.xp(), y = p.y() - step * p.yp(); aper::L m = margin(w, x, y); long id = long(p.id()); int n = col->given.count(id) ? col->given[id] : 0;
			if(fabsl(m) > 1e-9L) c.check(n == (m < 0), m < 0 ? "jaw-not-scattered" : "inside-scattered", "%s bin %.17g..%.17g of %.17g (asked %.17g): start of bin (%.9g, %.9g) margin %Lg, scattered %d times", e->GetQualifiedName().c_str(), last, st.s, L, bin, x, y, m, n); else continue;
			if(n == 1) { auto& in = mv.at(id).first; c.near(in.x(), x, 1e-12, 1e-9, "start-x", "%s bin %.9g..%.9g of %.9g, asked %.9g", e->GetQualifiedName().c_str(), last, st.s, L, bin); c.near(in.y(), y, 1e-12, 1e-9, "start-y"); c.check(in.xp() == p.xp() && in.yp() == p.yp() && in.dp() == p.dp(), "start-angles"); bool died = id / 7 % col->die == 0; c.check(out.count(id) == !died, died ? "absorbed-kept" : "survivor-removed"); if(!died && out.count(id)) c.check(same(out.at(id), mv.at(id).second), "survivor-changed"); c.ev(died ? "absorbed" : "scattered"); }
			else if(c.check(out.count(id), "untouched-removed", "particle inside was removed")) { auto& o = out.at(id); c.near(o.x(), p.x(), 1e-14, 1e-13, "untouched-x"); c.near(o.y(), p.y(), 1e-14, 1e-13, "untouched-y"); c.check(o.xp() == p.xp() && o.yp() == p.yp() && o.ct() == p.ct() && o.dp() == p.dp(), "untouched"); c.ev("untouched"); }
		}
		if(step < bin - 1e-6) c.ev("short-bin"); if(h > 0) c.ev("substeps"); bins++; last = st.s; col->given.clear(); col->moved.clear();
	};
	t.AddProcess(new Before(st, rec, 1)); t.AddProcess(col); t.AddProcess(new Stepper(h, 1)); t.AddProcess(new After(st, 3, after));
	for(int k = 0; k < turns; k++) { if(k == 0) t.Run(); else t.Continue(); }
	for(auto a : l.el) if(dynamic_cast<Collimator*>(a) && dynamic_cast<const CollimatorAperture*>(a->GetAperture()) && a->GetLength() > 0) wantbins += int(ceil(a->GetLength() / bin - 1e-9));
	c.check(bins == wantbins * turns, "bins-missed", "%d of %d bins were checked (bin %g, steps %g)", bins, wantbins * turns, bin, h);
	ParticleBunch& f = t.GetTrackedBunch(); std::map<long, int> cnt; for(auto& p : f.GetParticles()) cnt[long(p.id())]++; for(auto& x : rec.v) cnt[long(x.p.id())] += 1000; for(auto& p : start) { int n = cnt[long(p.id())]; c.check(n == 1 || n == 1000, "exactly-once", "particle %ld: %d times in the bunch, %d times lost", long(p.id()), n % 1000, n / 1000); } c.check(cnt.size() == start.size(), "invented");
	c.note(double(f.size())); for(auto& x : rec.v) c.note(x.pos + x.p.x()); if(!rec.v.empty()) c.nontrivial();
}
