// T02: particles are independent of each other; tracking is reproducible and leaves the machine alone.
#include "lattice.h"
#include "ElectronBunch.h"
#include "ProtonBunch.h"
static uint64_t bits(double d) { uint64_t u; if(d != d) return 0x7ff8dead; memcpy(&u, &d, 8); return u; }
static bool eq(const PSvector& a, const PSvector& b) { for(int k = 0; k < 6; k++) if(bits(a[k]) != bits(b[k])) return false; return a.id() == b.id(); }
static PSvector any(Case& c, int id)
{
	double s = c.rng.pick({1e-6, 1e-3, 1e-3, 0.03}); PSvector p(0); for(int k = 0; k < 6; k++) p[k] = c.rng.sym(s); if(c.rng.chance(0.05)) { p[c.rng.range(0, 5)] = c.rng.pick({0.0, -0.0, 0.9, -0.9, 5.0, 1e3}); c.ev("extreme"); }
	p.id() = id; return p;
}
static void mixh(uint64_t& h, uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; }
static uint64_t digest(const L& l)
{
	uint64_t h = 1469598103934665603ull; auto d = [&](double v) { mixh(h, bits(v)); }; auto tr = [&](const Transform3D& t) { for(auto& p : {Point3D(0, 0, 0), Point3D(1, 0, 0), Point3D(0, 1, 0), Point3D(0, 0, 1)}) { Point3D q = t(p); d(q.x); d(q.y); d(q.z); } };
	for(auto f : l.f)
	{
		for(char ch : f->GetQualifiedName()) mixh(h, ch); d(f->GetPosition()); d(f->GetGeometryLength()); tr(f->GetEntrancePlaneTransform()); tr(f->GetExitPlaneTransform()); tr(f->GetLocalFrameTransform()); tr(f->GetPhysicalTransform()); if(!f->IsComponent()) continue;
		auto& a = f->GetComponent(); d(a.GetLength()); if(auto g = a.GetEMField()) { for(int i = 0; i < 3; i++) { Point3D p(0.01 * i, 0.02 - 0.013 * i, 0.0); double t = 1e-9 * i; Vector3D B = g->GetBFieldAt(p, t), E = g->GetEFieldAt(p, t); d(B.x); d(B.y); d(B.z); d(E.x); d(E.y); d(E.z); } if(auto m = dynamic_cast<const MultipoleField*>(g)) { mixh(h, m->HighestMultipole()); mixh(h, m->LowestMultipole()); mixh(h, m->IsNullField()); } }
		if(auto s = dynamic_cast<SectorBend*>(&a)) { d(s->GetGeometry().GetTilt()); d(s->GetGeometry().GetCurvature()); d(s->GetMatchedMomentum(1)); auto& p = s->GetPoleFaceInfo(); for(auto q : {p.entrance, p.exit}) if(q) { d(q->rot); d(q->fint); d(q->hgap); } }
	}
	return h;
}
template<class B> static std::unique_ptr<ParticleBunch> mk(double P0, double q, const PV& v) { auto b = std::unique_ptr<ParticleBunch>(new B(P0, q)); for(auto& p : v) b->AddParticle(p); return b; }
FAMILY(company, 4000, 60000)
{
	double P0 = c.rng.logu(0.5, 7000); L l = lattice(c, P0, c.rng.range(1, 12)); size_t N = l.f.size(), i0 = c.rng.range(0, N - 1), i1 = c.rng.range(i0, N - 1); int is = c.rng.range(0, 2); bool flat = c.rng.chance(0.2); bool bend = false; for(auto f : l.f) if(is == 1 && f->IsComponent() && f->GetComponent().GetType() == "TransverseRFStructure") is = 0; for(auto f : l.f) bend = bend || (f->IsComponent() && f->GetComponent().GetType() == "SectorBend"); double q = bend ? 1 : c.rng.sgn(); int type = q > 0 ? c.rng.range(0, 1) : c.rng.range(1, 2);
	auto run = [&](const PV& v, ParticleTracker* keep = nullptr) { std::unique_ptr<ParticleBunch> b = type == 0 ? mk<ProtonBunch>(P0, q, v) : type == 1 ? mk<ParticleBunch>(P0, q, v) : mk<ElectronBunch>(P0, q, v); ParticleTracker own(l.m->GetBeamline(i0, i1), b.get()); own.SetIntegratorSet(&iset(is)); own.AssumeFlatLattice(flat); (void) keep; ParticleBunch& r = static_cast<ParticleBunch&>(own.Run()); struct R { PV v; double P, t; }; return R{grab(r), r.GetReferenceMomentum(), r.GetReferenceTime()}; };
	int n = c.rng.pick({1, 2, 5, 17, 40}); PV in; for(int i = 0; i < n; i++) in.push_back(any(c, 1000 + (c.rng.chance(0.1) ? 0 : i))); Quiet qq; uint64_t d0 = digest(l); auto r = run(in); c.check(digest(l) == d0, "machine-changed");
	c.check(r.v.size() == in.size(), "count", "%zu of %zu", r.v.size(), in.size()); if(r.v.size() != in.size()) return; int nan = 0;
	for(int i = 0; i < n; i++) { auto& a = r.v[i]; auto& b = in[i]; c.check(a.id() == b.id(), "identity", "particle %d", i); for(int k = 0; k < 6; k++) if(!std::isfinite(a[k])) { nan++; break; } }
	if(nan) c.ev("nonfinite");
	auto cmp = [&](const decltype(r)& o, const std::vector<int>& idx, const char* key) { if(!c.check(o.v.size() == idx.size(), key, "count")) return; for(size_t i = 0; i < idx.size(); i++) { auto& a = o.v[i]; auto& b = r.v[idx[i]]; int w = 0; for(int k = 0; k < 6; k++) if(bits(a[k]) != bits(b[k])) w = k; if(!c.check(eq(a, b), key, "particle %d coordinate %d: %.17g and %.17g", idx[i], w, a[w], b[w])) return; } c.check(bits(o.P) == bits(r.P) && bits(o.t) == bits(r.t), key, "reference"); };
	auto sel = [&](const std::vector<int>& idx) { PV v; for(int i : idx) v.push_back(in[i]); return v; }; std::vector<int> all; for(int i = 0; i < n; i++) all.push_back(i);
	cmp(run(in), all, "repeat"); auto p = all; c.rng.shuffle(p); cmp(run(sel(p)), p, "order"); for(int t = 0; t < 3; t++) { std::vector<int> one{c.rng.range(0, n - 1)}; cmp(run(sel(one)), one, "alone"); }
	std::vector<int> sub; for(int i = 0; i < n; i++) if(c.rng.chance(0.5)) { sub.push_back(i); if(c.rng.chance(0.3)) sub.push_back(i); } if(!sub.empty()) cmp(run(sel(sub)), sub, "subset"); c.check(digest(l) == d0, "machine-changed-later");
	{ PV v0{in[0]}; auto eb = type == 0 ? mk<ProtonBunch>(P0, q, v0) : type == 1 ? mk<ParticleBunch>(P0, q, v0) : mk<ElectronBunch>(P0, q, v0); ParticleBunch& e = *eb; ParticleTracker t(l.m->GetBeamline(i0, i1), &e); t.SetIntegratorSet(&iset(is)); t.AssumeFlatLattice(flat); t.Run(); auto& b = static_cast<ParticleBunch&>(t.Run()); c.check(eq(b.FirstParticle(), r.v[0]), "same-tracker-twice"); c.check(b.GetParticleMass() == e.GetParticleMass(), "species", "mass %g tracked as %g", e.GetParticleMass(), b.GetParticleMass()); c.check(eq(e.FirstParticle(), in[0]), "initial-bunch"); }
	c.ev("compared"); c.note(P0); c.nontrivial();
}
