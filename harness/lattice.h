// Random lattices with frames, girders, patches and misalignments, and helpers to track through them.
#pragma once
#include "machine.h"
#include "GeometryPatch.h"
#include "ParticleTracker.h"
#include "ParticleComponentTracker.h"
#include "ParticleBunch.h"
#include "TrackingSimulation.h"
#include "SymplecticIntegrators.h"
#include "StdIntegrators.h"
using namespace vh; using namespace mach; using namespace ParticleTracking;
typedef AcceleratorModel AM; typedef std::vector<PSvector> PV;
static const int TT[] = {DRIFT, DRIFT, MARKER, QUAD, QUAD, SKEWQUAD, SEXT, OCT, XCOR, YCOR, SBEND, SBEND, SOLENOID, TWRF, MONITOR, COLL, TRF};
struct L { std::unique_ptr<AM> m; std::vector<ComponentFrame*> f; };
template<class T> static void app(AcceleratorModelConstructor& mc, AcceleratorComponent* a) { mc.AppendComponent(*static_cast<T*>(a)); }
[[maybe_unused]] static void append(AcceleratorModelConstructor& mc, int t, AcceleratorComponent* a)
{
	switch(t)
	{
	case DRIFT: app<Drift>(mc, a); break; case MARKER: app<Marker>(mc, a); break; case QUAD: app<Quadrupole>(mc, a); break; case SKEWQUAD: app<SkewQuadrupole>(mc, a); break; case SEXT: app<Sextupole>(mc, a); break; case OCT: app<Octupole>(mc, a); break; case XCOR: app<XCor>(mc, a); break; case YCOR: app<YCor>(mc, a); break;
	case SBEND: app<SectorBend>(mc, a); break; case SOLENOID: app<Solenoid>(mc, a); break; case TWRF: app<TWRFStructure>(mc, a); break; case MONITOR: app<Monitor>(mc, a); break; case COLL: app<Collimator>(mc, a); break; default: app<TransverseRFStructure>(mc, a);
	}
}
[[maybe_unused]] static L lattice(Case& c, double P0, int n)
{
	AcceleratorModelConstructor mc; int depth = 0; bool mis = c.rng.chance(0.7); std::vector<LatticeFrame*> fr;
	for(int i = 0; i < n; i++)
	{
		if(depth < 2 && c.rng.chance(0.15)) { auto f = c.rng.chance(0.5) ? new SequenceFrame("S") : (SequenceFrame*) new GirderMount("G"); mc.NewFrame(f); fr.push_back(f); depth++; }
		if(c.rng.chance(0.06)) { auto g = new GeometryPatch; g->TranslateX(c.rng.sym(1e-3)); g->RotateY(c.rng.sym(1e-3)); mc.AppendComponentFrame(new PatchFrame(g, "PATCH")); c.ev("patches"); }
		int t = c.rng.pick(std::vector<int>(std::begin(TT), std::end(TT))); append(mc, t, make(c, t, c.rng.pick({"A", "B", "Q1", "Q2"}), c.rng.uni(0.05, 1.5), P0, 0.3));
		if(depth && c.rng.chance(0.3)) { mc.EndFrame(); depth--; }
	}
	while(depth--) mc.EndFrame(); L l; l.m.reset(mc.GetModel()); AM::Beamline b = l.m->GetBeamline(); for(auto i = b.begin(); i != b.end(); i++) l.f.push_back(*i);
	if(mis) { for(auto f : l.f) if(c.rng.chance(0.3)) fr.push_back(f); for(auto f : fr) { f->TranslateX(c.rng.sym(1e-3)); f->TranslateY(c.rng.sym(1e-3)); f->RotateZ(c.rng.sym(1e-2)); if(c.rng.chance(0.5)) f->RotateX(c.rng.sym(1e-3)); } c.ev("misaligned"); }
	return l;
}
[[maybe_unused]] static PV grab(const ParticleBunch& b) { return PV(b.begin(), b.end()); }
[[maybe_unused]] static bool same(Case& c, const ParticleBunch& a, const ParticleBunch& b, const char* key)
{
	if(!c.check(a.size() == b.size(), key, "%zu particles, expected %zu", a.size(), b.size())) return false;
	double d = 0, w = 0; auto i = a.begin(); for(auto j = b.begin(); j != b.end(); i++, j++) { for(int k = 0; k < 6; k++) { double s = 1e-12 * (std::fabs((*j)[k]) + 1e-6); double e = std::fabs((*i)[k] - (*j)[k]); if(!(e <= s)) { d = std::max(d, e); w = k; if(!(e == e)) d = 1e99; } } if(i->id() != j->id()) d = 1e98; }
	bool ok = c.check(d == 0, key, "coordinate %g differs by %g", w, d); ok &= c.near(a.GetReferenceMomentum(), b.GetReferenceMomentum(), 0, 1e-12, key, "reference momentum"); ok &= c.near(a.GetReferenceTime(), b.GetReferenceTime(), 1e-11, 1e-12, key, "reference time"); c.ev("comparisons"); return ok;
}
[[maybe_unused]] static PSvector part(Case& c, int id) { PSvector p(0); for(int k = 0; k < 4; k++) p[k] = c.rng.sym(1e-3); p.ct() = c.rng.sym(1e-3); p.dp() = c.rng.sym(1e-3); p.id() = id; return p; }
[[maybe_unused]] static std::unique_ptr<ParticleBunch> bunch(Case& c, double P0, const L& l) { bool bend = false; for(auto f : l.f) bend = bend || (f->IsComponent() && f->GetComponent().GetType() == "SectorBend"); auto b = std::unique_ptr<ParticleBunch>(new ParticleBunch(P0, bend ? 1 : c.rng.sgn())); int n = c.rng.pick({1, 3, 10}); for(int i = 0; i < n; i++) b->AddParticle(part(c, 100 + i)); return b; }
[[maybe_unused]] static const ParticleComponentTracker::ISetBase& iset(int k) { static TRANSPORT::StdISet a; static SYMPLECTIC::StdISet b; static THIN_LENS::StdISet d; return k == 0 ? (const ParticleComponentTracker::ISetBase&) a : k == 1 ? (const ParticleComponentTracker::ISetBase&) b : d; }
// independent composition: frame by frame with a bare component tracker
[[maybe_unused]] static void manual(ParticleBunch& b, const std::vector<ComponentFrame*>& f, size_t i0, size_t i1, bool flat, int is, bool axis = false)
{
	ParticleComponentTracker ct(iset(is)); ct.SetBunch(b);
	for(size_t i = i0; i <= i1; i++)
	{
		if(!flat && !(axis && i == i0)) b.ApplyTransformation(f[i]->GetEntrancePlaneTransform()); if(auto t = f[i]->GetEntranceGeometryPatch()) b.ApplyTransformation(*t);
		if(f[i]->IsComponent()) { f[i]->GetComponent().PrepareTracker(ct); ct.Track(); ct.Reset(); }
		if(auto t = f[i]->GetExitGeometryPatch()) b.ApplyTransformation(*t); if(!flat) b.ApplyTransformation(f[i]->GetExitPlaneTransform());
	}
}
struct Quiet { std::ostringstream s, s2; std::streambuf* o; std::streambuf* e; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s2.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
