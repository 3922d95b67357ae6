// W03: spin tracking: length, Thomas-BMT precession through bodies and fringes, frames, orbits, bookkeeping of spins.
#include "coll.h"
#include "SpinParticleProcess.h"
#include "Solenoid.h"
#include "SWRFStructure.h"
#include "PhysicalConstants.h"
using namespace coll;
typedef long double LD;
struct V3 { LD x, y, z; };
static LD dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V3 rot(V3 w, V3 s) // rotation by |w| about w
{
	LD t = sqrtl(dot(w, w)); if(t == 0) return s; V3 n{w.x / t, w.y / t, w.z / t}; LD c = cosl(t), k = sinl(t), d = dot(n, s) * (1 - c); return {s.x * c + n.x * d + (n.y * s.z - n.z * s.y) * k, s.y * c + n.y * d + (n.z * s.x - n.x * s.z) * k, s.z * c + n.z * d + (n.x * s.y - n.y * s.x) * k};
}
typedef std::vector<SpinVector> SA;
static SA spins(SpinParticleBunch& b) { return SA(b.beginSpinArray(), b.endSpinArray()); }
static V3 v3(const SpinVector& s) { return {s.x(), s.y(), s.z()}; }
static const double MASS = 0.510998928e-3, GE = 1.15965218076e-3;
struct Elem { AcceleratorComponent* a; double e1 = 0, e2 = 0; };
static std::vector<Elem> beamline(Case& c, AcceleratorModelConstructor& mc, double P0, double q, int n, bool weak, bool rf = false)
{
	auto& r = c.rng; std::vector<Elem> v; double br = P0 / 0.299792458, f = weak ? 0.3 : 1; auto add = [&](auto* a, double e1 = 0, double e2 = 0) { mc.AppendComponent(*a); v.push_back({a, e1, e2}); }; double qq = q == 0 ? 1 : q;
	for(int i = 0; i < n; i++)
	{
		double L = r.pick({1.0, 0.3, r.uni(0.05, 3)}); std::string nm = "E" + std::to_string(i);
		switch(r.range(0, 11))
		{
		case 0: case 1: case 2: case 3: { double h = r.sym(0.3) * f; if(std::fabs(h) < 1e-3) h = 0.01; auto b = new SectorBend(nm, L, h, qq * h * br * r.pick({1.0, 1.0, weak ? 1.0 : r.uni(0.95, 1.05)})); if(r.chance(0.3)) { b->GetField().SetComponent(1, r.sym(0.3 * f) * br); c.ev("gradient"); } double e1 = 0, e2 = 0; if(r.chance(0.6)) { e1 = r.sym(0.4); e2 = r.sym(0.4); auto p1 = new SectorBend::PoleFace(e1), p2 = new SectorBend::PoleFace(e2); b->SetPoleFaceInfo(p1, p2); c.ev("pole-faces"); } add(b, e1, e2); break; }
		case 4: add(new Quadrupole(nm, L, r.sym(1) * br * f)); break;
		case 5: add(new Sextupole(nm, L, r.sym(3) * br * f)); break;
		case 6: add(new SkewQuadrupole(nm, L, r.sym(1) * br * f)); break;
		case 7: add(new XCor(nm, L, r.sym(1e-3) * br * f)); break;
		case 8: case 9: add(new Solenoid(nm, L, r.sym(0.5) * br * f)); break;
		case 10: if(rf) { add(new SWRFStructure(nm, 1, 299792458.0, r.sym(1) * 1e-3, r.sym(3))); break; }
		// fall through
		default: add(new Drift(nm, r.pick({L, 0.0})));
		}
	}
	return v;
}
static SpinParticleBunch* bunch(Case& c, double P0, double q, int n)
{
	auto& r = c.rng; auto b = new SpinParticleBunch(P0, q); for(int i = 0; i < n; i++) { PSvector p(0); for(int j = 0; j < 4; j++) p[j] = r.pick({0.0, r.sym(1e-3), r.sym(5e-3)}) * (j % 2 ? 0.3 : 1); p.ct() = r.sym(1e-3); p.dp() = r.pick({0.0, r.sym(1e-3), r.sym(0.03)}); p.id() = 10 + i; double z = r.sym(1), t = r.sym(M_PI), k = r.chance(0.3) ? r.uni(0.01, 3) : 1, w = sqrt(1 - z * z); if(r.chance(0.1)) b->AddParticle(p); else b->AddParticle(p, SpinVector(k * w * cos(t), k * w * sin(t), k * z)); }
	return b;
}
struct Watch : ParticleBunchProcess
{
	std::function<void(AcceleratorComponent*, double, ParticleBunch&)> f; double h;
	Watch(int p, double h_, decltype(f) g) : ParticleBunchProcess("obs", p), f(g), h(h_) {}
	void SetCurrentComponent(AcceleratorComponent& a) override { currentComponent = &a; active = true; f(&a, -1, *currentBunch); }
	void DoProcess(double ds) override { f(currentComponent, ds, *currentBunch); } double GetMaxAllowedStepSize() const override { return h ? h : 1e9; }
};
// the Thomas-BMT rotation vector for a field integral B (T m), in coordinates that turn by h ds
static V3 bmt(const PSvector& p, LD Bx, LD By, LD Bz, LD P0, LD Ps, LD q, LD turn)
{
	LD n = q * 0.299792458L / P0 / (1 + (LD) p.dp()), g = Ps * (1 + (LD) p.dp()) / MASS, v2 = 1 + (LD) p.xp() * p.xp() + (LD) p.yp() * p.yp(), par = (Bx * p.xp() + By * p.yp() + Bz) / v2; Bx *= n; By *= n; Bz *= n; par *= n;
	LD a = -(1 + GE * g), d = GE * (g - 1) * par; return {a * Bx + d * p.xp(), a * By + d * p.yp() + turn, a * Bz + d};
}
static V3 step(const Elem& e, V3 s, const PSvector& p, double P0, double Ps, double q, double ds, bool first, bool last, LD& angle)
{
	auto go = [&](V3 w) { angle += sqrtl(dot(w, w)); s = rot(w, s); }; auto b = dynamic_cast<SectorBend*>(e.a); auto so = dynamic_cast<Solenoid*>(e.a);
	if(b) { LD B0 = b->GetB0(), h = b->GetGeometry().GetCurvature(), y = p.y(); if(first) go(bmt(p, -tanl(e.e1) * B0 * y, -tanl(e.e1) * B0 * p.x(), B0 * y, P0, Ps, q, 0)); Complex B = b->GetField().GetField2D(p.x(), p.y()); LD l = ds * (1 + h * p.x()); angle += fabsl(h * ds); go(bmt(p, B.imag() * l, B.real() * l, 0, P0, Ps, q, h * ds)); if(last) go(bmt(p, -tanl(e.e2) * B0 * y, -tanl(e.e2) * B0 * p.x(), -B0 * y, P0, Ps, q, 0)); }
	else if(so) { LD z = so->GetBz(); if(first) go(bmt(p, -z * p.x() / 2, -z * p.y() / 2, 0, P0, Ps, q, 0)); go(bmt(p, 0, 0, z * ds, P0, Ps, q, 0)); if(last) go(bmt(p, z * p.x() / 2, z * p.y() / 2, 0, P0, Ps, q, 0)); }
	else if(auto m = dynamic_cast<RectMultipole*>(e.a)) { Complex B = m->GetField().GetField2D(p.x(), p.y()); go(bmt(p, B.imag() * (LD) ds, B.real() * (LD) ds, 0, P0, Ps, q, 0)); }
	return s;
}
FAMILY(precession, 500, 8000)
{
	auto& r = c.rng; c.near(PhysicalConstants::ElectronGe, GE, 0, 1e-6, "constants", "anomaly"); c.near(PhysicalConstants::ElectronMassMeV, MASS * 1e3, 0, 1e-6, "constants", "mass");
	double P0 = r.pick({5.0, r.logu(0.05, 300)}), q = r.pick({1.0, -1.0, -1.0, 0.0}), Ps = r.chance(0.2) ? r.logu(0.01, 300) : 0; AcceleratorModelConstructor mc; double hh = r.chance(0.4) ? r.uni(0.03, 1) : 0; auto el = beamline(c, mc, P0, q, r.range(1, 6), false, !hh); std::unique_ptr<AcceleratorModel> m(mc.GetModel()); std::map<AcceleratorComponent*, Elem> of; for(auto& e : el) of[e.a] = e;
	int n = r.range(1, 12), ns = r.chance(0.4) ? r.range(2, 7) : 1; std::unique_ptr<SpinParticleBunch> b(bunch(c, P0, q, n)); ParticleBunch plain(P0, q); for(auto& p : b->GetParticles()) plain.AddParticle(p); auto s0 = spins(*b);
	auto sp = new SpinParticleProcess(3, r.chance(0.5) ? ns : 1); sp->SetNumComponentSteps(ns); if(Ps) { sp->SetSpinMomentum(Ps); c.ev("spin-momentum"); } PV before; SA sb; double s = 0, s1 = 0; int calls = 0; std::map<AcceleratorComponent*, int> steps; Quiet quiet;
	{
		ParticleTracker t(m->GetBeamline(), b.get()); t.AddProcess(new Watch(2, hh, [&](AcceleratorComponent* a, double d, ParticleBunch& x) { if(d < 0) { s = s1 = 0; calls = 0; } else { s1 = s; s += d; } before = x.GetParticles(); sb = spins(static_cast<SpinParticleBunch&>(x)); })); t.AddProcess(sp);
		t.AddProcess(new Watch(4, 0, [&](AcceleratorComponent* a, double d, ParticleBunch& x) {
			auto now = spins(static_cast<SpinParticleBunch&>(x)); PV& p = x.GetParticles(); c.check(p.size() == before.size() && now.size() == sb.size() && p.size() == now.size(), "size", "%zu particles, %zu spins", p.size(), now.size()); if(p.size() != before.size() || now.size() != sb.size()) return;
			double L = a->GetLength(); bool first = d >= 0 && calls == 0, last = d >= 0 && s >= L - 1e-11 * (1 + L); if(d >= 0) { calls++; steps[a]++; if(a->GetEMField() && !dynamic_cast<RFStructure*>(a)) c.check(d <= L / ns * (1 + 1e-12), "steps", "step of %g m in %s of %g m with %d steps", d, a->GetName().c_str(), L, ns); }
			for(size_t i = 0; i < p.size(); i++)
			{
				if(!std::isfinite(before[i].x()) || std::fabs(before[i].xp()) > 0.2 || std::fabs(before[i].yp()) > 0.2) continue;
				c.check(same(p[i], before[i]), "orbit", "particle %zu moved in %s", i, a->GetName().c_str()); V3 w = v3(sb[i]); LD ang = 0; if(d >= 0) w = step(of[a], w, before[i], x.GetReferenceMomentum(), Ps ? Ps : x.GetReferenceMomentum(), q, d, first, last, ang); LD n0 = sqrtl(dot(v3(sb[i]), v3(sb[i]))); double tol = (double) (n0 * (1e-14L + ang * 2e-7L));
				c.near(now[i].x(), (double) w.x, tol, 0, "precession", "x of spin %zu in %s (%s) at %g of %g m, rotation %g", i, a->GetName().c_str(), a->GetType().c_str(), s, L, (double) ang); c.near(now[i].y(), (double) w.y, tol, 0, "precession", "y of spin %zu in %s (%s) at %g of %g m, rotation %g", i, a->GetName().c_str(), a->GetType().c_str(), s, L, (double) ang); c.near(now[i].z(), (double) w.z, tol, 0, "precession", "z of spin %zu in %s (%s) at %g of %g m, rotation %g", i, a->GetName().c_str(), a->GetType().c_str(), s, L, (double) ang); LD n1 = sqrtl(dot(v3(now[i]), v3(now[i]))); c.near((double) n1, (double) n0, 0, 1e-13, "length", "length of spin %zu in %s", i, a->GetName().c_str());
				if(ang > 1e-6L) { c.ev(dynamic_cast<SectorBend*>(a) ? "bends" : dynamic_cast<Solenoid*>(a) ? "solenoids" : "multipoles"); c.ev(q < 0 ? "negative" : "positive"); } if(d >= 0 && w.x == sb[i].x() && w.y == sb[i].y()) c.ev(q == 0 ? "neutral" : "no-field"); if(calls > 1) c.ev("several-steps");
			} }));
		t.Track(b.get());
	}
	{ ParticleTracker t(m->GetBeamline(), &plain); if(hh) { t.AddProcess(new Watch(2, hh, [](AcceleratorComponent*, double, ParticleBunch&) {})); } t.Track(&plain); } if(ns == 1) for(int i = 0; i < n && i < (int) b->size() && i < (int) plain.size(); i++) { bool nan = !std::isfinite(plain.GetParticles()[i].x()); if(!nan) c.check(same(plain.GetParticles()[i], b->GetParticles()[i]), "orbit", "particle %d ends elsewhere without spin tracking", i); c.ev("orbits"); }
	c.check(b->size() == (size_t) n && spins(*b).size() == (size_t) n, "size", "%zu particles, %zu spins of %d", b->size(), spins(*b).size(), n); for(auto& e : el) if(e.a->GetEMField() && !dynamic_cast<RFStructure*>(e.a)) c.check(steps[e.a] >= (e.a->GetLength() > 0 ? ns : 1), "steps", "%d steps in %s", steps[e.a], e.a->GetName().c_str());
	c.note(P0); c.note((double) spins(*b)[0].x()); c.nontrivial();
}
FAMILY(helicity, 60, 600) // without anomaly a spin along the velocity stays along the velocity, whatever the magnets
{
	auto& r = c.rng; double P0 = r.logu(0.5, 100), q = r.sgn(); AcceleratorModelConstructor mc; auto el = beamline(c, mc, P0, q, r.range(1, 4), true); std::unique_ptr<AcceleratorModel> m(mc.GetModel()); std::unique_ptr<SpinParticleBunch> b(new SpinParticleBunch(P0, q)); const double A = 1e-5; int n = 6;
	for(int i = 0; i < n; i++) { PSvector p(0); p.x() = A * r.sym(1); p.xp() = A * r.sym(1); p.y() = A * r.sym(1); p.yp() = A * r.sym(1); p.dp() = A * r.sym(1); p.id() = i; b->AddParticle(p, SpinVector(p.xp(), p.yp(), 1)); }
	double len = 0; for(auto& e : el) len += e.a->GetLength(); const int ns = 400; { Quiet quiet; ParticleTracker t(m->GetBeamline(), b.get()); auto sp = new SpinParticleProcess(3, ns); sp->SetSpinMomentum(MASS * 1e-6); t.AddProcess(sp); t.Track(b.get()); } double k = 1 + len; for(auto& p : b->GetParticles()) k = std::max({k, std::fabs(p.x()) / A, std::fabs(p.y()) / A});
	auto s = spins(*b); for(int i = 0; i < n; i++) { auto& p = b->GetParticles()[i]; double tol = A * k * (2e-2 * 100 / ns + 4e-3) ; c.near(s[i].x() / s[i].z(), p.xp(), tol, 0, "helicity", "horizontal direction of spin %d, %s", i, el[0].a->GetType().c_str()); c.near(s[i].y() / s[i].z(), p.yp(), tol, 0, "helicity", "vertical direction of spin %d, %s", i, el[0].a->GetType().c_str()); c.ev("helicities"); }
	c.note(s[0].x()); c.note(P0); c.nontrivial();
}
FAMILY(axis, 60, 600) // on the axis of bends the spin turns by a gamma times the angle of the orbit
{
	auto& r = c.rng; double P0 = r.logu(0.1, 300), q = r.sgn(), tot = 0; AcceleratorModelConstructor mc; int nb = r.range(1, 20); for(int i = 0; i < nb; i++) { double L = r.uni(0.1, 3), h = r.sym(0.2); tot += h * L; mc.AppendComponent(*new SectorBend("B", L, h, q * h * P0 / 0.299792458)); if(r.chance(0.5)) mc.AppendComponent(*new Drift("D", 1)); if(r.chance(0.5)) mc.AppendComponent(*new Quadrupole("Q", 0.3, P0)); } std::unique_ptr<AcceleratorModel> m(mc.GetModel());
	SpinParticleBunch b(P0, q); double f = r.sym(M_PI), v = r.sym(1), w = sqrt(1 - v * v); b.AddParticle(PSvector(0), SpinVector(w * sin(f), v, w * cos(f))); int turns = r.range(1, 5); { Quiet quiet; ParticleTracker t(m->GetBeamline(), &b); t.AddProcess(new SpinParticleProcess(r.range(1, 5), r.range(1, 9))); for(int i = 0; i < turns; i++) t.Track(&b); }
	double ang = -GE * P0 / MASS * tot * turns; SpinVector s = b.GetAverageSpin(); double tol = 1e-12 + std::fabs(ang) * 2e-7; c.near(s.x(), w * sin(f + ang), tol, 0, "tune", "x after %g rad", ang); c.near(s.z(), w * cos(f + ang), tol, 0, "tune", "z after %g rad", ang); c.near(s.y(), v, 1e-12, 0, "tune", "y"); c.ev("rings"); c.note(ang); c.nontrivial();
}
FAMILY(bookkeeping, 200, 3000) // frames, sorting, removal, copies, output, averages
{
	auto& r = c.rng; int n = r.range(1, 40); double P0 = r.logu(0.1, 100); std::unique_ptr<SpinParticleBunch> b(bunch(c, P0, -1, n)); std::map<long, V3> of; std::map<long, PSvector> ps; { auto s = spins(*b); for(int i = 0; i < n; i++) { of[b->GetParticles()[i].id()] = v3(s[i]); ps[b->GetParticles()[i].id()] = b->GetParticles()[i]; } }
	auto verify = [&](SpinParticleBunch& x, const char* key, double tol) { auto s = spins(x); c.check(s.size() == x.size(), key, "%zu spins of %zu particles", s.size(), x.size()); if(s.size() != x.size()) return; for(size_t i = 0; i < s.size(); i++) { long id = x.GetParticles()[i].id(); V3 w = of[id]; c.near(s[i].x(), (double) w.x, tol, 0, key, "x of the spin of particle %ld", id); c.near(s[i].y(), (double) w.y, tol, 0, key, "y of the spin of particle %ld", id); c.near(s[i].z(), (double) w.z, tol, 0, key, "z of the spin of particle %ld", id); } };
	verify(*b, "added", 0); std::unique_ptr<ParticleBunch> cp(b->Clone()); auto sc = dynamic_cast<SpinParticleBunch*>(cp.get()); c.check(sc, "copy", "the copy of a bunch with spins has no spins"); if(sc) { verify(*sc, "copy", 0); c.ev("copies"); }
	double Q = b->GetTotalCharge(); b->SortByCT(); c.check(b->size() == (size_t) n, "sorted", "size"); for(size_t i = 1; i < b->size(); i++) c.check(b->GetParticles()[i - 1].ct() <= b->GetParticles()[i].ct() || b->GetParticles()[i - 1].ct() >= b->GetParticles()[i].ct(), "sorted", "order"); verify(*b, "sorted", 0); c.near(b->GetTotalCharge(), Q, 0, 1e-15, "sorted", "charge"); { ParticleBunch o(P0, -1); for(auto& p : ps) o.AddParticle(p.second); o.SortByCT(); bool eq = true; for(int i = 0; i < n; i++) if(o.GetParticles()[i].ct() != b->GetParticles()[i].ct()) eq = false; c.check(eq, "sorted", "order differs from that of a bunch without spins"); c.ev("sorted"); }
	for(int k = r.range(0, 5); k > 0 && b->size() > 1; k--) { auto it = b->begin() + r.range(0, (int) b->size() - 1); long id = it->id(); size_t at = it - b->begin(); auto nx = b->erase(it); c.check((size_t) (nx - b->begin()) == at, "erased", "next position"); bool there = false; for(auto& p : *b) there |= p.id() == id; c.check(!there, "erased", "particle %ld is still there", id); verify(*b, "erased", 0); c.ev("erased"); }
	V3 a{0, 0, 0}; for(auto& p : *b) { V3 w = of[p.id()]; a.x += w.x; a.y += w.y; a.z += w.z; } SpinVector av = b->GetAverageSpin(); LD m = b->size(); c.near(av.x(), (double) (a.x / m), 1e-13, 0, "average", "x"); c.near(av.y(), (double) (a.y / m), 1e-13, 0, "average", "y"); c.near(av.z(), (double) (a.z / m), 1e-13, 0, "average", "z");
	std::ostringstream o; b->Output(o); std::istringstream is(o.str()); std::string line; size_t row = 0; while(std::getline(is, line)) { std::istringstream l(line); double x[11]; int k = 0; while(k < 11 && l >> x[k]) k++; if(row < b->size()) { const PSvector& p = b->GetParticles()[row]; V3 w = of[p.id()]; c.check(k == 11, "output", "%d columns", k); if(k == 11) { for(int j = 0; j < 6; j++) c.near(x[2 + j], p[j], 0, 1e-9, "output", "coordinate %d", j); c.near(x[1], P0, 0, 1e-9, "output", "momentum"); c.near(x[8], (double) w.x, 1e-9, 0, "output", "spin"); c.near(x[9], (double) w.y, 1e-9, 0, "output", "spin"); c.near(x[10], (double) w.z, 1e-9, 0, "output", "spin"); } } row++; } c.check(row == b->size(), "output", "%zu rows of %zu", row, b->size());
	for(int k = r.range(1, 3); k > 0; k--)
	{
		LD f = r.pick({r.sym(3), M_PI / 2, 0.0}); int ax = r.range(0, 2); Transform3D t = Transform3D(Point3D(r.sym(1e-3), r.sym(1e-3), r.sym(0.1)), ax == 0 ? Rotation3D::rotationX(f * 0.1) : ax == 1 ? Rotation3D::rotationY(f * 0.1) : Rotation3D::rotationZ(f)); LD g = ax == 2 ? f : f * 0.1L; for(auto& w : of) { V3 u{ax == 0 ? -g : 0, ax == 1 ? -g : 0, ax == 2 ? -g : 0}; w.second = rot(u, w.second); } ParticleBunch o2(P0, -1); for(auto& p : *b) o2.AddParticle(p); b->ApplyTransformation(t); o2.ApplyTransformation(t); for(size_t i = 0; i < b->size(); i++) c.check(same(b->GetParticles()[i], o2.GetParticles()[i]), "frame-orbit", "a bunch with spins transforms differently"); verify(*b, "frame", 1e-12); c.ev(g == 0 ? "shifted" : "rotated");
	}
	c.note(fmt("%.12g %zu", av.x(), b->size())); c.nontrivial();
}
FAMILY(losses, 40, 400) // particles lost at apertures take their spins with them
{
	auto& r = c.rng; int n = r.range(5, 40); double P0 = 10; std::unique_ptr<SpinParticleBunch> b(new SpinParticleBunch(P0, -1)); for(int i = 0; i < n; i++) { PSvector p(0); p.x() = r.sym(2e-3); p.id() = i; b->AddParticle(p, SpinVector(sin(i + 1.0), 0, cos(i + 1.0))); }
	AcceleratorModelConstructor mc; auto d = new Drift("D", 1); CircularAperture ap("CIRCLE", 0, 1e-3); d->SetAperture(&ap); mc.AppendComponent(*d); mc.AppendComponent(*new Drift("E", 1)); std::unique_ptr<AcceleratorModel> m(mc.GetModel()); { Quiet q; ParticleTracker t(m->GetBeamline(), b.get()); auto cp = new CollimateParticleProcess(2, COLL_AT_EXIT); cp->SetLossThreshold(200); t.AddProcess(cp); t.AddProcess(new SpinParticleProcess(3)); t.Track(b.get()); }
	auto s = spins(*b); bool ok = s.size() == b->size(); for(size_t i = 0; ok && i < b->size(); i++) { int id = (int) b->GetParticles()[i].id(); ok = s[i].x() == sin(id + 1.0) && s[i].z() == cos(id + 1.0); } if(b->size() < (size_t) n) { c.ev("lost"); c.check(ok, "mixed-spins", "%zu particles and %zu spins of %d; the survivors do not have their spins", b->size(), s.size(), n); }
	c.note(b->size() * 1.0 + b->GetParticles()[0].x()); c.nontrivial();
}
