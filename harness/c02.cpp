// C02: a loss names its element, turn, place and coordinates.
#include "coll.h"
#include "CollimateProtonProcess.h"
#include "ScatteringModelsMerlin.h"
#include "MaterialData.h"
#include "ParticleComponentTracker.h"
#include "StdIntegrators.h"
using namespace coll;
FAMILY(hardedge, 4000, 80000)
{
	Quiet q; auto& r = c.rng; const double P0 = r.pick({1.0, 450.0, 7000.0}); Line l = line(c, r.range(1, 10), false, P0); int N = r.range(1, 60), mode = r.range(1, 7), turns = r.pick({1, 1, 2, 5}); const bool ring = r.chance(0.4), again = !ring && r.chance(0.3); double bin = r.chance(0.4) ? 0.1 : r.logu(0.01, 1), h = r.chance(0.3) ? r.logu(0.02, 1) : 0; bool sorted = r.chance(0.15);
	State st; Recorder rec; auto* col = new CollimateParticleProcess(2, mode); if(bin != 0.1) col->SetOutputBinSize(bin); col->SetCollimationOutput(&rec); col->SetLossThreshold(200); c.check(col->GetOutputBinSize() == bin, "bin-size"); int turn = 0;
	auto after = [&](PV&)
	{
		AcceleratorComponent* e = st.e; const Wall& w = l.wall[e]; double L = e->GetLength(); std::map<long, PSvector> in, here; for(auto& p : st.entry) in.emplace(long(p.id()), p); for(auto& p : st.pre) here.emplace(long(p.id()), p);
		for(size_t i = st.losses; i < rec.v.size(); i++)
		{
			Loss& x = rec.v[i]; long id = long(x.p.id()); const char* en = e->GetQualifiedName().c_str(); (void) en; c.check(x.e == e, "element", "lost in %s, reported in %s", e->GetQualifiedName().c_str(), x.e->GetQualifiedName().c_str()); c.check(x.turn == turn, "turn", "%s: turn %d, reported %d", e->GetQualifiedName().c_str(), turn, x.turn);
			if(!c.check(in.count(id) && here.count(id), "identity", "%ld was not in the bunch", id)) continue; PSvector p = in.at(id);
			if(L == 0) { c.check(x.pos == 0, "zero-length-position", "%g", x.pos); for(int k : {0, 1, 2, 3, 5}) c.check(x.p[k] == here.at(id)[k], "zero-length-coordinates", "%d", k); c.ev("zero-length"); continue; }
			c.check(x.pos >= 0 && x.pos <= st.s * (1 + 1e-12), "position-in-element", "%.17g, checked at %.17g of %.17g", x.pos, st.s, L);
			// follow the particle alone through the element in the chosen bins up to this check
			ParticleBunch one(P0, 1); one.AddParticle(p); ParticleComponentTracker t; t.SetBunch(one); e->PrepareTracker(t); double pos = 0; bool near = false, atend = false;
			for(;;) { atend = pos >= st.s - 1e-12 * (1 + st.s); const PSvector& v = one.FirstParticle(); aper::L m = margin(w, v.x(), v.y()); if(fabsl(m) < 1e-9L) near = true; if(m < 0 || atend) break; double ds = std::min(bin, st.s - pos); t.TrackStep(ds); pos += ds; }
			if(near) continue; c.near(x.pos, pos, 1e-9, 1e-12, "position", "%s (%.9g m), bins of %g, checked at %g: leaves the aperture by %.17g", e->GetQualifiedName().c_str(), L, bin, st.s, pos);
			const PSvector& v = one.FirstParticle(); for(int k : {0, 1, 2, 3, 5}) c.near(x.p[k], v[k], 1e-12, 1e-8, "coordinates", "coordinate %d at %.9g of %s", k, pos, e->GetQualifiedName().c_str());
			if(e->GetType() == "Drift" || e->GetType() == "Collimator") // straight line: the wall is crossed in the bin before the reported place
			{
				if(x.pos > 0) { double a = x.pos - bin; if(a < 0) a = 0; if(atend) a = std::max(0.0, floor((st.s - 1e-9) / bin) * bin); aper::L m0 = margin(w, p.x() + a * p.xp(), p.y() + a * p.yp()); c.check(m0 > -1e-9L, "left-before", "%s: already outside at %g (margin %Lg), reported at %g, bins of %g", e->GetQualifiedName().c_str(), a, m0, x.pos, bin); }
				aper::L m1 = margin(w, p.x() + x.pos * p.xp(), p.y() + x.pos * p.yp()); c.check(m1 < 1e-9L, "still-inside", "%s: margin %Lg at the reported place %g", e->GetQualifiedName().c_str(), m1, x.pos); c.ev("straight");
			}
			else c.ev("magnet"); c.ev(x.pos == 0 ? "at-entrance" : atend ? "at-check" : "inside"); if(turn > 1) c.ev("later-turns"); c.note(x.pos + x.p.x());
		}
		st.losses = rec.v.size();
	};
	auto b0 = std::unique_ptr<ParticleBunch>(beam(c, N, P0, true)); std::unique_ptr<ParticleTracker> t(ring ? new ParticleTracker(l.m->GetRing(0), b0.get()) : new ParticleTracker(l.m->GetBeamline(), b0.get()));
	t->AddProcess(new Sorter(sorted, 1)); t->AddProcess(new Before(st, rec, 1)); t->AddProcess(col); t->AddProcess(new Stepper(h, 1)); t->AddProcess(new After(st, 3, after)); if(sorted) c.ev("sorted");
	ParticleBunch* given = again ? new ParticleBunch(*b0) : nullptr; for(int k = 0; k < turns; k++) { turn = k + 1; if(again) t->Track(given); else if(k == 0) t->Run(); else t->Continue(); }
	delete given; if(!rec.v.empty()) c.nontrivial(); c.sample(fmt("%zu elements, %d particles, %d turns: %zu losses", l.el.size(), N, turns, rec.v.size()));
}
// losses in scattering collimators: the element, the turn, a place inside the element and the bin being passed
FAMILY(jaws, 250, 5000)
{
	Quiet q; auto& r = c.rng; const double P0 = r.pick({450.0, 7000.0, 7000.0, 100.0, 50.0}); Line l = line(c, r.range(1, 4), true, P0); StandardMaterialData mat; int ntot = 0; for(auto a : l.el) { a->SetMaterialProperties(mat.property[r.pick({"Al", "Be", "C", "Cu", "Pb", "W"})]); ntot++; } int N = r.range(10, 150), turns = r.pick({1, 1, 2, 4}); double bin = r.chance(0.5) ? 0.1 : r.logu(0.02, 1);
	std::unique_ptr<Collimation::ScatteringModel> model; model.reset(new Collimation::ScatteringModelSixTrack); RandomNG::init({unsigned(r.range(0, 1000000)), 17u});
	State st; Recorder rec; auto* col = new CollimateProtonProcess(2, r.pick({4, 5, 7})); col->SetScatteringModel(model.get()); col->ScatterAtCollimator(true); col->SetOutputBinSize(bin); col->SetCollimationOutput(&rec); col->SetLossThreshold(200); int turn = 0; double last = 0; int cur = 0;
	auto after = [&](PV& post)
	{
		AcceleratorComponent* e = st.e; double L = e->GetLength(); if(cur != st.entered) { cur = st.entered; last = 0; } bool jaw = e->GetType() == "Collimator" && dynamic_cast<const CollimatorAperture*>(e->GetAperture()); std::map<long, PSvector> here; for(auto& p : st.pre) here.emplace(long(p.id()), p); for(auto& p : post) here.erase(long(p.id()));
		c.check(here.size() == rec.v.size() - st.losses, "lost-and-reported", "%s: %zu lost, %zu reported", e->GetQualifiedName().c_str(), here.size(), rec.v.size() - st.losses);
		for(size_t i = st.losses; i < rec.v.size(); i++)
		{
			Loss& x = rec.v[i]; c.check(x.e == e && x.turn == turn, "element-and-turn", "%s turn %d, reported %s turn %d", e->GetQualifiedName().c_str(), turn, x.e->GetQualifiedName().c_str(), x.turn); c.check(here.count(long(x.p.id())), "identity"); c.check(x.pos >= 0 && x.pos <= L * (1 + 1e-9), "position-in-element", "%s: %.17g of %.17g", e->GetQualifiedName().c_str(), x.pos, L);
			if(jaw) { c.check(x.pos >= last - 1e-9 && x.pos <= st.s + 1e-9, "position-in-bin", "%s: %.9g, the bin is %.9g..%.9g", e->GetQualifiedName().c_str(), x.pos, last, st.s); c.ev("jaw-losses"); if(x.pos > last + 1e-9 && x.pos < st.s - 1e-9) c.ev("within-bin"); if(turn > 1) c.ev("jaw-later-turns"); } else c.ev("other-losses"); c.note(x.pos);
		}
		last = st.s; st.losses = rec.v.size();
	};
	auto b0 = std::unique_ptr<ParticleBunch>(beam(c, N, P0, true)); std::unique_ptr<ParticleTracker> t(new ParticleTracker(l.m->GetRing(0), b0.get())); t->AddProcess(new Before(st, rec, 1)); t->AddProcess(col); t->AddProcess(new After(st, 3, after)); for(int k = 0; k < turns; k++) { turn = k + 1; if(k == 0) t->Run(); else t->Continue(); } if(!rec.v.empty()) c.nontrivial();
}
