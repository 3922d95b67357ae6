// A beam line with apertures, a collimation process between two observers, and the model of what it must do.
#pragma once
#include "machine.h"
#include "aper.h"
#include "Aperture.h"
#include "CollimatorAperture.h"
#include "CollimateParticleProcess.h"
#include "CollimationOutput.h"
#include "ParticleTracker.h"
#include "RandomNG.h"
namespace coll
{
using namespace vh; using namespace ParticleTracking;
typedef std::vector<PSvector> PV;
struct Quiet { std::ostringstream s; std::streambuf* o; Quiet() : o(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); } };
inline bool same(const PSvector& a, const PSvector& b) { for(int i = 0; i < 6; i++) if(a[i] != b[i]) return false; return a.id() == b.id(); }
struct Wall { int k = -1; aper::L a[4] = {0, 0, 0, 0}; double tilt = 0; }; // k<0: no aperture
inline aper::L margin(const Wall& w, double x, double y)
{
	if(w.k < 0) return 1; aper::L u = x * cosl(w.tilt) + y * sinl(w.tilt), v = -x * sinl(w.tilt) + y * cosl(w.tilt); return aper::margin(w.k, w.a, u, v);
}
struct Loss { AcceleratorComponent* e; double pos; PSvector p; int turn; };
struct Recorder : CollimationOutput { std::vector<Loss> v; void Dispose(AcceleratorComponent& a, double pos, Particle& p, int turn = 0) override { v.push_back({&a, pos, p, turn}); } };
struct Line
{
	std::unique_ptr<AcceleratorModel> m; std::map<const AcceleratorComponent*, Wall> wall; std::vector<AcceleratorComponent*> el; std::vector<std::unique_ptr<Aperture>> own;
	Wall put(AcceleratorComponent* a, Aperture* ap, Wall w) { a->SetAperture(ap); wall[a] = w; return w; }
};
// frac: share of the beam (about 1 mm rms) that is meant to be lost per element
inline Line line(Case& c, int n, bool jaws, double P0)
{
	Line l; auto& r = c.rng; AcceleratorModelConstructor mc; double big = r.logu(1.5e-3, 8e-3);
	auto app = [&](AcceleratorComponent* a) {
		if(auto d = dynamic_cast<Collimator*>(a)) mc.AppendComponent(*d); else if(auto d = dynamic_cast<Drift*>(a)) mc.AppendComponent(*d); else if(auto d = dynamic_cast<Marker*>(a)) mc.AppendComponent(*d); else if(auto d = dynamic_cast<Sextupole*>(a)) mc.AppendComponent(*d); else if(auto d = dynamic_cast<Quadrupole*>(a)) mc.AppendComponent(*d); else if(auto d = dynamic_cast<XCor*>(a)) mc.AppendComponent(*d); else if(auto d = dynamic_cast<SectorBend*>(a)) mc.AppendComponent(*d); else abort();
		l.el.push_back(a); };
	for(int i = 0; i < n; i++)
	{
		int t = r.pick({(int) mach::DRIFT, (int) mach::DRIFT, (int) mach::QUAD, (int) mach::SEXT, (int) mach::MARKER, (int) mach::XCOR, (int) mach::COLL, (int) mach::COLL, (int) mach::SBEND}); double L = r.pick({r.uni(0.05, 3), 1.0, 0.3, r.uni(0.01, 0.2), 0.7}); if(r.chance(0.1) && (t == mach::DRIFT || t == mach::COLL)) L = 0;
		AcceleratorComponent* a = t == mach::QUAD ? new Quadrupole(r.chance(0.5) ? "Q" : "Q" + std::to_string(i), L, r.sym(1.0 / std::max(L, 0.1)) * P0 / 0.299792458) : mach::make(c, t, r.chance(0.3) ? "SAME" : "E" + std::to_string(i), L, P0); app(a); Wall w;
		if(t == mach::COLL && (jaws || r.chance(0.5)))
		{
			w.k = aper::RECTANGLE; double f = big * r.uni(0.4, 2), h = r.chance(0.5) ? 1.0 : big * r.uni(0.4, 2); w.a[0] = f / 2; w.a[1] = h / 2; w.tilt = r.pick({0.0, M_PI / 2, r.sym(3)}); auto ap = new CollimatorAperture(f, h, w.tilt, L); ap->SetExitWidth(f); ap->SetExitHeight(h); l.own.emplace_back(ap); l.put(a, ap, w); continue;
		}
		if(r.chance(0.25)) { l.wall[a] = w; continue; }
		double b = big * r.uni(0.7, 3); w.k = r.range(0, 3); w.a[0] = b; w.a[1] = b * r.uni(0.5, 2); w.a[2] = b * r.uni(0.8, 1.5); w.a[3] = b * r.uni(0.8, 1.5); Aperture* ap;
		switch(w.k) { case aper::CIRCLE: ap = new CircularAperture("CIRCLE", 0, w.a[0]); break; case aper::RECTANGLE: ap = new RectangularAperture("RECTANGLE", 0, w.a[0], w.a[1]); break; case aper::ELLIPSE: ap = new EllipticalAperture("ELLIPSE", 0, w.a[0], w.a[1]); break; default: ap = new RectEllipseAperture("RECTELLIPSE", 0, w.a[0], w.a[1], w.a[2], w.a[3]); }
		// the shapes get doubles: remember what they got
		for(auto& q : w.a) q = (double) q; l.own.emplace_back(ap); l.put(a, ap, w);
	}
	l.m.reset(mc.GetModel()); return l;
}
inline ParticleBunch* beam(Case& c, int n, double P0, bool ids)
{
	auto b = new ParticleBunch(P0, 1); double sx = c.rng.logu(2e-4, 2e-3), sp = c.rng.logu(1e-5, 3e-3);
	for(int i = 0; i < n; i++) { PSvector p(0); p.x() = c.rng.normal() * sx; p.y() = c.rng.normal() * sx; p.xp() = c.rng.normal() * sp; p.yp() = c.rng.normal() * sp; p.dp() = c.rng.normal() * 1e-4; p.ct() = c.rng.normal() * 1e-3; p.id() = ids ? 1000 + 7 * i : i; b->AddParticle(p); }
	return b;
}
// observers around the collimation process
struct State { PV pre, entry; AcceleratorComponent* e = nullptr; double s = 0; size_t losses = 0; std::vector<double> planes; std::vector<bool> done; int turn = 0, entered = 0; };
struct Before : ParticleBunchProcess
{
	State& st; Recorder& rec; Before(State& s, Recorder& r, int pr) : ParticleBunchProcess("before", pr), st(s), rec(r) {}
	void SetCurrentComponent(AcceleratorComponent& a) override { currentComponent = &a; active = true; st.e = &a; st.s = 0; st.entered++; st.entry = currentBunch->GetParticles(); }
	void DoProcess(double ds) override { st.s += ds; st.pre = currentBunch->GetParticles(); st.losses = rec.v.size(); }
	double GetMaxAllowedStepSize() const override { return 1e9; }
};
struct Stepper : ParticleBunchProcess // asks for small steps, sometimes
{
	double h, left = 0; Stepper(double a, int pr) : ParticleBunchProcess("stepper", pr), h(a) {}
	void SetCurrentComponent(AcceleratorComponent& a) override { currentComponent = &a; active = h > 0; }
	void DoProcess(double) override {}
	double GetMaxAllowedStepSize() const override { return h; }
};
struct Sorter : ParticleBunchProcess // reorders the bunch inside elements, as wake fields do
{
	bool on; Sorter(bool o, int pr) : ParticleBunchProcess("sorter", pr), on(o) {}
	void SetCurrentComponent(AcceleratorComponent& a) override { currentComponent = &a; active = on; }
	void DoProcess(double) override { currentBunch->SortByCT(); }
	double GetMaxAllowedStepSize() const override { return 1e9; }
};
struct After : ParticleBunchProcess
{
	State& st; std::function<void(PV&)> f; After(State& s, int pr, std::function<void(PV&)> g) : ParticleBunchProcess("after", pr), st(s), f(g) {}
	void SetCurrentComponent(AcceleratorComponent& a) override { currentComponent = &a; active = true; }
	void DoProcess(double) override { f(currentBunch->GetParticles()); }
	double GetMaxAllowedStepSize() const override { return 1e9; }
};
}
