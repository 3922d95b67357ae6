// T03: element tracking against direct integration of the equations of motion.
#include "machine.h"
#include "ode.h"
#include "RectMultipole.h"
#include "ParticleTracker.h"
#include "ParticleComponentTracker.h"
#include "ParticleBunch.h"
#include "SymplecticIntegrators.h"
#include "StdIntegrators.h"
using namespace vh; using namespace mach; using namespace ParticleTracking; using ode::V; using ode::C;
enum { TRA, SYM, THIN };
static const ParticleComponentTracker::ISetBase& iset(int k) { static TRANSPORT::StdISet a; static SYMPLECTIC::StdISet b; static THIN_LENS::StdISet d; return k == 0 ? (const ParticleComponentTracker::ISetBase&) a : k == 1 ? (const ParticleComponentTracker::ISetBase&) b : d; }
static const char* SN[] = {"transport", "symplectic", "thin-lens"};
static double brho(double P0) { return P0 / 0.299792458; }
// what the library does with many particles at once
static std::vector<V> lib(AcceleratorComponent& a, int set, double P0, double q, const std::vector<V>& in, int slices = 1)
{
	ParticleBunch b(P0, q); for(auto& v : in) { PSvector p(0); for(int i = 0; i < 6; i++) p[i] = v[i]; b.AddParticle(p); }
	ParticleComponentTracker ct(iset(set)); ct.SetBunch(b); a.PrepareTracker(ct); double L = a.GetLength();
	if(slices == 1) ct.Track(); else { double r = L; for(int i = 0; i < slices; i++) { double s = i == slices - 1 ? r : L / slices; r = ct.TrackStep(s); } }
	ct.Reset(); std::vector<V> out; for(auto& p : b) { V v; for(int i = 0; i < 6; i++) v[i] = p[i]; out.push_back(v); } return out;
}
typedef std::function<V(V)> Map; typedef std::function<std::vector<V>(const std::vector<V>&)> Maps;
static std::vector<V> each(const Map& m, const std::vector<V>& in) { std::vector<V> o; for(auto& v : in) o.push_back(m(v)); return o; }
static const char* CN[] = {"x", "xp", "y", "yp", "ct", "dp"};
struct Lin { V f0; double J[6][6]; };
static Lin lin(const Maps& m, double A, const V& base = V{{0, 0, 0, 0, 0, 0}}) { std::vector<V> in{base}; for(int i = 0; i < 6; i++) for(double s : {1.0, -1.0}) { V v = base; v[i] += s * A; in.push_back(v); } auto o = m(in); Lin l; l.f0 = o[0]; for(int i = 0; i < 6; i++) for(int k = 0; k < 6; k++) l.J[k][i] = (o[1 + 2 * i][k] - o[2 + 2 * i][k]) / (2 * A); return l; }
static V second(const Maps& m, const V& dir, double A) { V a, b, z{{0, 0, 0, 0, 0, 0}}; for(int i = 0; i < 6; i++) { a[i] = A * dir[i]; b[i] = -a[i]; } auto o = m({a, b, z}); V r; for(int i = 0; i < 6; i++) r[i] = (o[0][i] + o[1][i] - 2 * o[2][i]) / (A * A); return r; }
// hard edge of a dipole field, second order (+h entering, -h leaving)
static void fringe(V& v, double h) { double y = v[2], px = v[1]; v[0] += h / 2 * y * y; v[3] -= h * px * y; }
static Map ref(const ode::Field& f, double L, bool canon, bool hard = false, double tilt = 0, double e1 = 0, double e2 = 0, double phi1 = 0, double phi2 = 0)
{
	int n = 40 + int(40 * L * (std::fabs(f.h) + std::fabs(f.b * f.Bs) + (f.e.size() > 1 ? std::sqrt(std::abs(f.e[1] * f.b)) : 0))); double ks = f.b * f.Bs, hm = hard || f.e.empty() ? f.h : f.b * f.e[0].real(); // TRANSPORT takes the pole faces from the geometry
	return [=](V v)
	{
		if(!canon) v = ode::toP(v); v = ode::rot(v, -tilt); if(hard) fringe(v, f.h); v[1] += hm * std::tan(e1) * v[0]; v[3] -= hm * std::tan(e1 - phi1) * v[2]; if(f.Bs) { v[1] += ks / 2 * v[2]; v[3] -= ks / 2 * v[0]; }
		v = ode::track(f, v, L, n);
		if(f.Bs) { v[1] -= ks / 2 * v[2]; v[3] += ks / 2 * v[0]; } v[1] += hm * std::tan(e2) * v[0]; v[3] -= hm * std::tan(e2 - phi2) * v[2]; if(hard) fringe(v, -f.h); v = ode::rot(v, tilt); return canon ? v : ode::toS(v);
	};
}
static V dir(Case& c) { V v; for(auto& x : v) x = c.rng.sym(1); v[4] = 0; if(c.rng.chance(0.3)) for(int i = 0; i < 4; i++) if(c.rng.chance(0.5)) v[i] = 0; return v; }

FAMILY(linear, 12000, 200000)
{
	double P0 = c.rng.logu(0.1, 7000), q = c.rng.sgn(), L = c.rng.pick({c.rng.logu(0.05, 10), c.rng.uni(0.1, 3)}), R = brho(P0); int set = c.rng.range(0, 2); int kind = c.rng.range(0, 4); ode::Field f; f.b = q / R; std::unique_ptr<AcceleratorComponent> a; double tilt = 0, e1 = 0, e2 = 0, p1 = 0, p2 = 0; std::string key = SN[set]; bool ct = set != THIN; double D = 0, Pm = 1;
	if(kind == 0) { a.reset(new Drift("D", L)); key += "-drift"; }
	else if(kind == 1) { double k = c.rng.sgn() * c.rng.logu(1e-4, 2 / L / L); bool sk = c.rng.chance(0.4); double an = c.rng.uni(-3.14159, 3.14159); int how = c.rng.range(0, 2); C g = how == 0 ? C(k) : how == 1 ? C(0, k) : std::polar(std::fabs(k), an); g *= R; (void) sk; if(how == 0) a.reset(new Quadrupole("Q", L, g.real())); else if(how == 1) a.reset(new SkewQuadrupole("Q", L, g.imag())); else { auto r = new Quadrupole("M", L, std::abs(g)); r->GetField().SetComponent(1, g.real(), g.imag()); a.reset(r); } f.e = {C(0), g}; key += how == 0 ? "-quad" : how == 1 ? "-skew-quad" : "-rotated-quad"; D = k * L; }
	else if(kind == 2) { double Bs = c.rng.sgn() * c.rng.logu(1e-3, 2) / L * R; f.Bs = Bs; a.reset(new Solenoid("S", L, Bs)); key += "-solenoid"; ct = set == SYM; }
	else
	{
		q = 1; f.b = q / R; double h = c.rng.sgn() * c.rng.logu(1e-4, std::min(1.5, 2 * L)) / L; f.h = h; Pm = c.rng.chance(0.6) ? 1 : 1 + c.rng.sgn() * c.rng.logu(2e-5, 1e-3); double Bd = h * R * Pm; auto s = new SectorBend("B", L, h, Bd); a.reset(s); f.e = {C(Bd)}; key += "-bend";
		if(c.rng.chance(0.5)) { double k1 = set == THIN && c.rng.chance(0.1) ? -h * h : c.rng.sgn() * c.rng.logu(1e-4, 2 / L / L); s->SetB1(k1 * R); f.e.push_back(C(k1 * R)); key += k1 == -h * h ? "-kx0" : "-k1"; }
		if(c.rng.chance(0.3)) { tilt = c.rng.pick({c.rng.sym(3), M_PI / 2, -M_PI / 2}); s->GetGeometry().SetTilt(tilt); key += "-tilt"; }
		if(c.rng.chance(0.4)) { double fi = c.rng.chance(0.5) ? 0 : c.rng.uni(0.2, 0.7), hg = c.rng.uni(0, 0.05); e1 = c.rng.sym(0.5); e2 = c.rng.sym(0.5); int w = c.rng.range(0, 2); if(w == 0) e2 = e1; auto ph = [&](double e) { return 2 * fi * hg * h * (1 + std::sin(e) * std::sin(e)) / std::cos(e); }; p1 = ph(e1); p2 = ph(e2); if(w == 0) s->SetPoleFaceInfo(new SectorBend::PoleFace(e1, fi, hg)); else if(w == 1) s->SetPoleFaceInfo(new SectorBend::PoleFace(e1, fi, hg), new SectorBend::PoleFace(e2, fi, hg)); else { s->SetPoleFaceInfo(new SectorBend::PoleFace(e1, fi, hg), nullptr); e2 = p2 = 0; } key += fi ? "-fringe" : "-face"; c.ev("pole-faces"); }
		ct = true; if(Pm != 1) { key += "-mismatched"; }
	}
	Maps ml = [&](const std::vector<V>& in) { return lib(*a, set, P0, q, in, Pm != 1 && set == SYM ? 64 : 1); }; Map mr = ref(f, L, set == SYM, set == TRA && f.h, tilt, e1, e2, p1, p2); Maps mrs = [&](const std::vector<V>& in) { return each(mr, in); };
	const double A = 1e-5; Lin l = lin(ml, A), r = lin(mrs, A); double big = 1; for(auto& row : r.J) for(double v : row) big = std::max(big, std::fabs(v)); bool mis = key.find("mismatched") != std::string::npos;
	for(int i = 0; i < 6; i++)
	{
		if(i == 4 && !ct) { c.check(l.f0[4] == 0, (key + "-ct").c_str()); continue; }
		c.near(l.f0[i], r.f0[i], mis ? (set == TRA ? 1e-5 : 1e-2) * std::fabs(r.f0[i]) + 1e-6 * (1 + L) : 1e-13 * (1 + L), 0, (key + "-orbit").c_str(), "%s", CN[i]);
		for(int j = 0; j < 6; j++) { double sc = std::sqrt(std::fabs(r.J[i][i] * r.J[j][j])) + std::fabs(r.J[i][j]) + 1e-3; c.near(l.J[i][j], r.J[i][j], 2e-6 * sc + 5 * std::fabs(Pm - 1) * big + 1e-8 * (1 + L) * (1 + std::fabs(D)), 0, key.c_str(), "d%s/d%s L=%g P0=%g q=%g h=%g", CN[i], CN[j], L, P0, q, f.h); }
	}
	c.ev(SN[set]); c.note(L); c.nontrivial();
}
FAMILY(quadratic, 8000, 200000)
{
	double P0 = c.rng.logu(0.1, 7000), q = c.rng.sgn(), L = c.rng.pick({c.rng.logu(0.05, 10), c.rng.uni(0.1, 3)}), R = brho(P0); int kind = c.rng.range(0, 4); ode::Field f; f.b = q / R; f.maxwell = true; std::unique_ptr<AcceleratorComponent> a; std::string key = "second"; double S = 1;
	if(kind == 0) { a.reset(new Drift("D", L)); key += "-drift"; }
	else if(kind == 1) { double k = c.rng.sgn() * c.rng.logu(1e-4, 2 / L / L); C g = c.rng.chance(0.5) ? C(k) : C(0, k); g *= R; if(g.imag() == 0) a.reset(new Quadrupole("Q", L, g.real())); else a.reset(new SkewQuadrupole("Q", L, g.imag())); f.e = {C(0), g}; key += "-quad"; }
	else if(kind == 2) { double k = c.rng.sgn() * c.rng.logu(1e-2, 20 / L / L); C g = c.rng.chance(0.5) ? C(k) : C(0, k); g *= R; if(g.imag() == 0) a.reset(new Sextupole("Q", L, g.real())); else a.reset(new SkewSextupole("Q", L, g.imag())); f.e = {C(0), C(0), g / 2.0}; key += "-sext"; }
	else { q = 1; f.b = q / R; double h = c.rng.sgn() * c.rng.logu(1e-2, 1.5) / L; f.h = h; auto s = new SectorBend("B", L, h, h * R); a.reset(s); f.e = {C(h * R)}; key += "-bend"; if(kind == 4) { double k1 = c.rng.sgn() * c.rng.logu(1e-2, 2 / L / L); while(std::fabs(h * h + k1) * L * L < 0.02 || std::fabs(h * h + 5 * k1) * L * L < 0.02) k1 = 1.3 * k1 + 0.01 / L / L; s->SetB1(k1 * R); f.e.push_back(C(k1 * R)); key += "-k1"; } }
	Maps ml = [&](const std::vector<V>& in) { return lib(*a, TRA, P0, q, in); }; Map mr = ref(f, L, false, f.h != 0); Maps mrs = [&](const std::vector<V>& in) { return each(mr, in); }; V d = dir(c); double A = 1e-3 / (1 + std::fabs(f.e.size() > 2 ? std::abs(f.e[2]) / R * L * L : 0) + (f.e.size() > 1 ? std::abs(f.e[1]) / R * L : 0)); V l = second(ml, d, A), r = second(mrs, d, A), fl = ml({V{{A * d[0], A * d[1], A * d[2], A * d[3], 0, A * d[5]}}})[0]; (void) fl; (void) S;
	double m = 0; for(int i = 0; i < 6; i++) m = std::max(m, std::fabs(r[i])); for(int i = 0; i < 6; i++) c.near(l[i], r[i], 1e-3 * (m + 1 + L) , 0, key.c_str(), "%s L=%g h=%g k=%g dir %g %g %g %g %g", CN[i], L, f.h, f.e.size() > 1 ? std::abs(f.e[1]) / R : 0, d[0], d[1], d[2], d[3], d[5]);
	c.note(L); c.nontrivial();
}

// the transfer matrix of an off-momentum particle
FAMILY(chromatic, 5000, 80000)
{
	double P0 = c.rng.logu(0.1, 7000), q = c.rng.sgn(), L = c.rng.pick({c.rng.logu(0.05, 10), c.rng.uni(0.1, 3)}), R = brho(P0); int set = c.rng.range(0, 2), kind = c.rng.range(0, 2); ode::Field f; f.b = q / R; std::unique_ptr<AcceleratorComponent> a; std::string key = SN[set]; double d0 = c.rng.sgn() * c.rng.logu(1e-3, 0.1);
	if(kind == 0) { if(c.rng.chance(0.5)) a.reset(new Drift("D", L)); else a.reset(new BPM("D", L)); key += "-drift-dp"; }
	else if(kind == 1) { double k = c.rng.sgn() * c.rng.logu(1e-4, 2 / L / L); bool sk = c.rng.chance(0.5); C g = (sk ? C(0, k) : C(k)) * R; if(sk) a.reset(new SkewQuadrupole("Q", L, g.imag())); else a.reset(new Quadrupole("Q", L, g.real())); f.e = {C(0), g}; key += "-quad-dp"; }
	else { double Bs = c.rng.sgn() * c.rng.logu(1e-3, 2) / L * R; f.Bs = Bs; a.reset(new Solenoid("S", L, Bs)); key += "-solenoid-dp"; }
	Maps ml = [&](const std::vector<V>& in) { return lib(*a, set, P0, q, in); }; Map mr = ref(f, L, set == SYM); Maps mrs = [&](const std::vector<V>& in) { return each(mr, in); }; V base{{0, 0, 0, 0, 0, d0}};
	Lin l = lin(ml, 1e-5, base), r = lin(mrs, 1e-5, base);
	for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) { double sc = std::sqrt(std::fabs(r.J[i][i] * r.J[j][j])) + std::fabs(r.J[i][j]) + 1e-3; c.near(l.J[i][j], r.J[i][j], 2e-6 * sc + 1e-8 * (1 + L) + 5 * d0 * d0 * sc, 0, key.c_str(), "d%s/d%s L=%g d=%g", CN[i], CN[j], L, d0); }
	c.ev(SN[set]); c.note(d0); c.nontrivial();
}
FAMILY(largedrift, 3000, 50000)
{
	double P0 = c.rng.logu(0.1, 7000), L = c.rng.logu(0.01, 100); bool sol = c.rng.chance(0.5); double Bs = sol ? c.rng.sym(std::min(1 / L, 2.0)) * brho(P0) : 0; std::unique_ptr<AcceleratorComponent> ap; if(sol) ap.reset(new Solenoid("S", L, Bs)); else ap.reset(new Drift("D", L)); auto& a = *ap; V v{{c.rng.sym(0.1), c.rng.sym(0.3), c.rng.sym(0.1), c.rng.sym(0.3), c.rng.sym(1), c.rng.sym(0.3)}}; V o = lib(a, SYM, P0, 1, {v})[0]; ode::Field f; f.b = 1 / brho(P0); f.Bs = Bs; V r = ref(f, L, true)(v);
	for(int i = 0; i < 6; i++) c.near(o[i], r[i], (sol ? 1e-7 : 1e-12) * (1 + L), 1e-12, sol ? "symplectic-solenoid-exact" : "symplectic-drift-exact", "%s L=%g", CN[i], L); c.nontrivial();
}
// arbitrary multipole content: the sliced element converges to the equations of motion
FAMILY(multipole, 1500, 30000)
{
	double P0 = c.rng.logu(0.1, 7000), q = c.rng.sgn(), L = c.rng.logu(0.1, 5), R = brho(P0); int set = c.rng.range(0, 2), kind = c.rng.range(0, 3); double a0 = 0.01, kick = c.rng.logu(1e-4, 2e-3); ode::Field f; f.b = q / R; std::unique_ptr<AcceleratorComponent> a; std::string key = SN[set]; RectMultipole* rm = nullptr;
	auto put = [&](int n, C e) { while((int) f.e.size() <= n) f.e.push_back(C(0)); f.e[n] += e; };
	auto amp = [&](int n, double w) { return std::polar(w * kick / L * R / std::pow(a0, n), c.rng.uni(-3.1416, 3.1416)); }; double fact[] = {1, 1, 2, 6, 24};
	if(kind == 0) { int n = c.rng.range(2, 4); bool sk = c.rng.chance(0.5) && n == 2; double g = c.rng.sgn() * std::abs(amp(n, 1)); double B = g * fact[n]; if(n == 2) { if(sk) a.reset(new SkewSextupole("S", L, B)); else a.reset(new Sextupole("S", L, B)); } else if(n == 3) a.reset(new Octupole("O", L, B)); else a.reset(new Decapole("O", L, B)); put(n, sk ? C(0, g) : C(g)); key += n == 2 ? "-sextupole" : n == 3 ? "-octupole" : "-decapole"; }
	else if(kind <= 2)
	{
		int n0 = c.rng.range(1, 4); C g0 = amp(n0, 1); bool sk = c.rng.chance(0.3); g0 = sk && n0 <= 2 ? C(0, std::abs(g0)) : C(std::abs(g0)); double B = std::abs(g0) * fact[n0]; if(n0 == 1) rm = sk ? (RectMultipole*) new SkewQuadrupole("M", L, B) : new Quadrupole("M", L, B); else if(n0 == 2) rm = sk ? (RectMultipole*) new SkewSextupole("M", L, B) : new Sextupole("M", L, B); else if(n0 == 3) rm = new Octupole("M", L, B); else rm = new Decapole("M", L, B); a.reset(rm); put(n0, g0);
		int m = c.rng.range(1, 3); for(int i = 0; i < m; i++) { int n = c.rng.range(0, 6); C g = amp(n, n == 0 ? 0.3 : 0.5); rm->GetField().SetComponent(n, g.real(), g.imag()); if((int) f.e.size() > n) f.e[n] = C(0); put(n, g); } key += "-mixed";
	}
	else
	{
		q = 1; f.b = q / R; double h = c.rng.sgn() * c.rng.logu(1e-3, 0.02) / L; f.h = h; auto s = new SectorBend("B", L, h, h * R); a.reset(s); put(0, C(h * R)); int m = c.rng.range(1, 2); for(int i = 0; i < m; i++) { int n = c.rng.range(1, 4); C g = amp(n, 1); s->GetField().SetComponent(n, g.real(), g.imag()); if((int) f.e.size() > n) f.e[n] = C(0); put(n, g); } key += "-bend";
	}
	const int N = 6; std::vector<V> in; for(int i = 0; i < N; i++) in.push_back(V{{c.rng.sym(a0), c.rng.sym(3e-4), c.rng.sym(a0), c.rng.sym(3e-4), 0, c.rng.sym(1e-3)}}); auto o = lib(*a, set, P0, q, in, 128); Map mr = ref(f, L, set == SYM, set == TRA && f.h); ode::Field f0; f0.h = 0; Map m0 = ref(f0, L, set == SYM);
	double dm = 0; for(int i = 0; i < N; i++) { V r = mr(in[i]), z = m0(in[i]); for(int k = 0; k < 4; k++) { if(!(std::fabs(r[k]) < 1)) return; double w = k % 2 ? 1 : L; dm = std::max(dm, std::fabs(r[k] - z[k]) / w); } } if(dm > 0.01) return;
	for(int i = 0; i < N; i++) { V r = mr(in[i]); for(int k = 0; k < 4; k++) { double w = k % 2 ? 1 : L; c.near(o[i][k] / w, r[k] / w, 0.01 * dm + 1e-9, 0, key.c_str(), "%s L=%g P0=%g q=%g h=%g effect %g", CN[k], L, P0, q, f.h, dm); } }
	c.ev(SN[set]); c.ev("multipole"); c.note(L); c.nontrivial();
}
FAMILY(corrector, 3000, 30000)
{
	double P0 = c.rng.logu(0.1, 7000), q = c.rng.sgn(), R = brho(P0), kick = c.rng.sgn() * c.rng.logu(1e-6, 1e-3), L = c.rng.chance(0.4) ? 0 : c.rng.logu(0.01, 1); int set = c.rng.range(0, 2); bool v = c.rng.chance(0.5); std::unique_ptr<AcceleratorComponent> a; double B = kick * R / (L ? L : 1); if(v) a.reset(new YCor("Y", L, B)); else a.reset(new XCor("X", L, B)); std::string key = SN[set]; key += L ? "-corrector" : "-thin-corrector"; double d = c.rng.sym(0.02);
	ode::Field f; f.b = q / R; f.e = {v ? C(0, B) : C(B)}; V z{{0, 0, 0, 0, 0, d}}; V o = lib(*a, set, P0, q, {z}, L && set == SYM ? 8 : 1)[0], r = L ? ref(f, L, set == SYM)(z) : z; if(!L) { double kk = q * kick / (set == SYM ? 1 : 1 + d); r[v ? 3 : 1] += v ? kk : -kk; }
	int p = v ? 3 : 1; c.near(o[p], r[p], 1e-5 * std::fabs(kick), 0, (key + "-kick").c_str(), "L=%g d=%g", L, d); c.near(o[p - 1], r[p - 1], L * std::fabs(kick) * 1e-2 + 1e-15, 0, (key + "-offset").c_str()); c.near(o[4 - p], 0, 1e-12, 0, (key + "-plane").c_str()); c.ev(SN[set]); c.ev("corrector"); c.nontrivial();
}
FAMILY(steps, 2000, 20000)
{
	double L = c.rng.logu(0.01, 10), P0 = 5; int set = c.rng.range(0, 2); Quadrupole a("Q", L, 1); ParticleBunch b(P0, 1); b.AddParticle(PSvector(0)); ParticleComponentTracker ct(iset(set)); ct.SetBunch(b); a.PrepareTracker(ct); int n = c.rng.range(1, 9); double s = 0; for(int i = 0; i < n; i++) { double ds = i == n - 1 ? L - s : c.rng.u() * (L - s); double r = ct.TrackStep(ds); s += ds; c.near(r, L - s, 1e-12 * L, 0, "step-remaining"); c.near(ct.GetRemainingLength(), L - s, 1e-12 * L, 0, "remaining"); c.near(ct.GetIntegratedLength(), s, 1e-12 * L, 0, "integrated"); } c.nontrivial();
}
