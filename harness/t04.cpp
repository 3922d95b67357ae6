// T04: symplecticity, composition of steps, rotation covariance, time reversal.
#include "machine.h"
#include "ode.h"
#include "RectMultipole.h"
#include "ParticleTracker.h"
#include "ParticleComponentTracker.h"
#include "ParticleBunch.h"
#include "SymplecticIntegrators.h"
#include "StdIntegrators.h"
using namespace vh; using namespace mach; using namespace ParticleTracking; using ode::V; using ode::C;
enum { TRA, SYM, THIN };
static const ParticleComponentTracker::ISetBase& iset(int k) { static TRANSPORT::StdISet a; static SYMPLECTIC::StdISet b; static THIN_LENS::StdISet d; return k == 0 ? (const ParticleComponentTracker::ISetBase&) a : k == 1 ? (const ParticleComponentTracker::ISetBase&) b : d; }
static const char* SN[] = {"transport", "symplectic", "thin-lens"};
struct Spec
{
	int kind; double P0, q, L, h = 0, tilt = 0, e1 = 0, e2 = 0, fint = 0, hg = 0, Bs = 0; int n0 = 0; bool sk = false; std::map<int, C> e; std::string name; bool faces = false;
	double R() const { return P0 / 0.299792458; }
	std::unique_ptr<AcceleratorComponent> build() const
	{
		std::unique_ptr<AcceleratorComponent> a; double f[] = {1, 1, 2, 6, 24};
		if(kind == 0) a.reset(new Drift("D", L)); else if(kind == 1) a.reset(new BPM("M", L)); else if(kind == 2) a.reset(new Solenoid("S", L, Bs));
		else if(kind == 3) { double B = 1 * f[n0]; RectMultipole* r = n0 == 0 ? (RectMultipole*) new XCor("X", L, 1) : n0 == 1 ? sk ? (RectMultipole*) new SkewQuadrupole("Q", L, B) : new Quadrupole("Q", L, B) : n0 == 2 ? sk ? (RectMultipole*) new SkewSextupole("S", L, B) : new Sextupole("S", L, B) : n0 == 3 ? (RectMultipole*) new Octupole("O", L, B) : new Decapole("O", L, B); a.reset(r); r->GetField().SetComponent(n0, 0, 0); for(auto& x : e) r->GetField().SetComponent(x.first, x.second.real(), x.second.imag()); }
		else { auto s = new SectorBend("B", L, h, h * R()); a.reset(s); for(auto& x : e) s->GetField().SetComponent(x.first, x.second.real(), x.second.imag()); s->GetGeometry().SetTilt(tilt); if(faces) s->SetPoleFaceInfo(new SectorBend::PoleFace(e1, fint, hg), new SectorBend::PoleFace(e2, fint, hg)); }
		return a;
	}
	Spec reversed() const { Spec s = *this; s.Bs = -Bs; std::swap(s.e1, s.e2); return s; }
	Spec rotated(double phi) const { Spec s = *this; if(kind != 4) for(auto& x : s.e) x.second *= std::polar(1.0, -(x.first + 1) * phi); s.tilt += phi; return s; }
};
static Spec random(Case& c, bool mult = true)
{
	Spec s; s.P0 = c.rng.logu(0.1, 7000); s.q = c.rng.sgn(); s.L = c.rng.pick({c.rng.logu(0.05, 10), c.rng.uni(0.1, 3)}); s.kind = c.rng.pick({0, 1, 2, 3, 3, 3, 4, 4, 4}); double L = s.L; auto sg = [&](double a, double b) { return c.rng.sgn() * c.rng.logu(a, b); };
	if(s.kind == 0) s.name = "drift"; else if(s.kind == 1) s.name = "monitor"; else if(s.kind == 2) { s.name = "solenoid"; s.Bs = sg(1e-3, 1.5) / L * s.R(); }
	else if(s.kind == 3)
	{
		s.n0 = mult ? c.rng.range(0, 4) : 1; s.sk = c.rng.chance(0.4) && s.n0 < 3 && s.n0 > 0; if(s.n0 == 0) s.L = L = 0.1; double w[] = {1e-3 / L, 1 / L / L, 10 / L, 300 / L, 3e3 / L}; C g = (s.sk ? C(0, 1) : C(1)) * sg(1e-2, 1) * w[s.n0] * s.R(); if(s.n0 == 1 && c.rng.chance(0.3)) { g *= std::polar(1.0, c.rng.uni(-3, 3)); c.ev("rotated-quad"); } s.e[s.n0] = g; s.name = s.n0 == 0 ? "corrector" : s.n0 == 1 ? "quad" : s.n0 == 2 ? "sextupole" : "octupole+";
		if(mult && c.rng.chance(0.3)) { int n = c.rng.range(0, 4); if(n != s.n0) { s.e[n] = std::polar(c.rng.logu(1e-2, 0.3) * w[n] * s.R(), c.rng.uni(-3, 3)); s.name += "-mixed"; } }
	}
	else
	{
		s.q = 1; s.h = sg(1e-2, 1.2) / L; s.name = "bend"; if(c.rng.chance(0.5)) { double k1 = sg(1e-2, 1.5) / L / L; while(std::fabs(s.h * s.h + k1) * L * L < 0.02 || std::fabs(s.h * s.h + 5 * k1) * L * L < 0.02) k1 = 1.3 * k1 + 0.01 / L / L; s.e[1] = k1 * s.R(); s.name += "-k1"; }
		if(mult && c.rng.chance(0.3)) { int n = c.rng.range(1, 3); double w[] = {1e-3 / L, 0.1 / L / L, 3 / L, 300 / L}; s.e[n] = std::polar(w[n] * s.R(), c.rng.uni(-3, 3)); s.name += "-mixed"; }
		if(c.rng.chance(0.3)) { s.tilt = c.rng.sym(3); s.name += "-tilt"; } if(c.rng.chance(0.4)) { s.faces = true; s.e1 = c.rng.sym(0.4); s.e2 = c.rng.sym(0.4); s.fint = c.rng.chance(0.5) ? 0 : 0.5; s.hg = c.rng.uni(0, 0.03); s.name += "-faces"; }
	}
	return s;
}
typedef std::vector<V> VV;
static VV lib(AcceleratorComponent& a, int set, const Spec& s, const VV& in, int slices = 1, Rng* r = nullptr)
{
	ParticleBunch b(s.P0, s.q); for(auto& v : in) { PSvector p(0); for(int i = 0; i < 6; i++) p[i] = v[i]; b.AddParticle(p); }
	ParticleComponentTracker ct(iset(set)); ct.SetBunch(b); a.PrepareTracker(ct); double L = a.GetLength();
	if(slices == 1) ct.Track(); else { double rem = L; for(int i = 0; i < slices; i++) rem = ct.TrackStep(i == slices - 1 ? rem : r ? r->u() * rem : L / slices); }
	ct.Reset(); VV out; for(auto& p : b) { V v; for(int i = 0; i < 6; i++) v[i] = p[i]; out.push_back(v); } return out;
}
static V conv(int set, V v, bool in) { if(set == SYM) return v; return in ? ode::toS(v) : ode::toP(v); } // canonical <-> library coordinates
typedef double M6[6][6];
// Jacobian in canonical variables around v (canonical), 4th order differences
static void jac(AcceleratorComponent& a, int set, const Spec& s, const V& v, double A, M6 J)
{
	VV in; for(int i = 0; i < 6; i++) for(double k : {1.0, -1.0, 2.0, -2.0}) { V w = v; w[i] += k * A; in.push_back(conv(set, w, true)); } VV o = lib(a, set, s, in); for(auto& w : o) w = conv(set, w, false);
	for(int i = 0; i < 6; i++) for(int k = 0; k < 6; k++) J[k][i] = (8 * (o[4 * i][k] - o[4 * i + 1][k]) - (o[4 * i + 2][k] - o[4 * i + 3][k])) / (12 * A);
}
static void sympl(const M6 J, int n, M6 E, double& scale) { scale = 1; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { double t = 0, m = 0; for(int k = 0; k < n; k += 2) { double u = J[k][i] * J[k + 1][j], w = J[k + 1][i] * J[k][j]; t += u - w; m += std::fabs(u) + std::fabs(w); } double S = (i / 2 == j / 2 && i != j) ? (i < j ? 1 : -1) : 0; E[i][j] = t - S; scale = std::max(scale, m); } }
static V pt(Case& c, double A) { V v; for(auto& x : v) x = c.rng.sym(A); v[4] = 0; return v; }

FAMILY(symplectic, 10000, 150000)
{
	Spec s = random(c); auto a = s.build(); std::string key = "symplectic-" + s.name; V v = pt(c, c.rng.pick({1e-5, 1e-3, 5e-3})); M6 J, E; jac(*a, SYM, s, v, 1e-4, J); double sc; sympl(J, 6, E, sc); double m = 0; for(auto& r : E) for(double x : r) m = std::max(m, std::fabs(x)); c.near(m, 0, 1e-6 * sc, 0, key.c_str(), "L=%g h=%g", s.L, s.h); c.ev("jacobians"); c.note(s.L); c.nontrivial();
}
FAMILY(secondorder, 8000, 100000)
{
	Spec s = random(c, false); auto a = s.build(); std::string key = "transport-" + s.name; M6 J, E, Ep, Em; double sc, s1, s2; V z{{0, 0, 0, 0, 0, 0}}; jac(*a, TRA, s, z, 1e-4, J); sympl(J, 6, E, sc); int n = s.kind == 2 ? 4 : 6;
	double m = 0; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) m = std::max(m, std::fabs(E[i][j])); c.near(m, 0, 1e-6 * sc, 0, (key + "-linear").c_str(), "L=%g h=%g", s.L, s.h);
	c.ev("linear"); c.note(s.L); c.nontrivial(); if(s.faces && s.fint) return; c.ev("second-order"); double A = 1e-3; V d = pt(c, 1), p = d, q = d; for(int i = 0; i < 6; i++) { p[i] *= A; q[i] *= -A; } jac(*a, TRA, s, p, 1e-4, J); sympl(J, n, Ep, s1); jac(*a, TRA, s, q, 1e-4, J); sympl(J, n, Em, s2);
	m = 0; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) m = std::max(m, std::fabs(Ep[i][j] - Em[i][j]) / (2 * A)); double k = 1 + s.L + 1 / s.L * (s.kind == 4 || s.e.count(1) ? 1 : 0); c.near(m, 0, 2e-3 * sc * k, 0, (key + "-second-order").c_str(), "L=%g h=%g e1=%g e2=%g", s.L, s.h, s.e1, s.e2); c.note(s.L); c.nontrivial();
}

// transverse maps of the kick-drift set at constant momentum
FAMILY(thin, 8000, 100000)
{
	Spec s = random(c); auto a = s.build(); std::string key = "thin-lens-" + s.name; V v = pt(c, c.rng.pick({1e-5, 1e-3})); if(s.kind == 4) v[5] = 0; double A = 1e-5; VV in; for(int i = 0; i < 4; i++) for(double k : {1.0, -1.0, 2.0, -2.0}) { V w = v; w[i] += k * A; in.push_back(w); } VV o = lib(*a, THIN, s, in, c.rng.pick({1, 3})); M6 J, E; double sc;
	for(int i = 0; i < 4; i++) for(int k = 0; k < 4; k++) J[k][i] = (8 * (o[4 * i][k] - o[4 * i + 1][k]) - (o[4 * i + 2][k] - o[4 * i + 3][k])) / (12 * A); sympl(J, 4, E, sc); double m = 0; for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) m = std::max(m, std::fabs(E[i][j])); double b = s.kind == 4 && s.e.size() > 0 ? 1e-6 + 1e-3 * s.L : 1e-6; (void) b; c.near(m, 0, 1e-6 * sc, 0, key.c_str(), "L=%g h=%g", s.L, s.h); c.ev("jacobians"); c.note(s.L); c.nontrivial();
}
static double diff(const VV& a, const VV& b, int n, int* w = nullptr) { double m = 0; for(size_t i = 0; i < a.size(); i++) for(int k = 0; k < n; k++) { double d = std::fabs(a[i][k] - b[i][k]); if(!(d <= m)) { m = d; if(w) *w = k; } } return m; }
static VV cloud(Case& c, double A, int n = 5) { VV v; for(int i = 0; i < n; i++) v.push_back(pt(c, A)); return v; }
// any partition into steps gives the same map: exactly where the map is exact, to second order for the second-order maps
FAMILY(steps, 8000, 100000)
{
	int set = c.rng.range(0, 2); Spec s = random(c, false); auto a = s.build(); std::string key = std::string(SN[set]) + "-" + s.name; double A = c.rng.pick({1e-6, 1e-4}); VV in = cloud(c, A); int n = c.rng.range(2, 6); VV one = lib(*a, set, s, in), many = lib(*a, set, s, in, n, &c.rng); int w = -1; double d = diff(one, many, set == THIN ? 4 : 6, &w);
	c.near(d, 0, A * A * A * 200 * std::pow((1 + s.L) * (1 + 1 / s.L), 3) + 2e-6 * A + (s.e.count(0) ? 1e-8 : 0), 0, key.c_str(), "coordinate %d L=%g h=%g", w, s.L, s.h); c.ev(SN[set]); c.note(s.L); c.nontrivial();
}
// the field and the particle rotated together about the axis
FAMILY(covariance, 8000, 100000)
{
	int set = c.rng.range(0, 2); Spec s = random(c); double phi = c.rng.pick({M_PI / 2, -M_PI / 2, M_PI, c.rng.uni(-3, 3), c.rng.uni(-3, 3)}); auto a = s.build(), b = s.rotated(phi).build(); std::string key = std::string(SN[set]) + "-" + s.name; double A = c.rng.pick({1e-6, 1e-3}); VV in = cloud(c, A), ir; for(auto& v : in) ir.push_back(ode::rot(v, phi)); VV o = lib(*a, set, s, in), r = lib(*b, set, s, ir); for(auto& v : r) v = ode::rot(v, -phi); int w = -1; double d = diff(o, r, 6, &w);
	c.near(d, 0, 1e-10 * A + 1e-14, 0, key.c_str(), "coordinate %d phi=%g L=%g h=%g A=%g", w, phi, s.L, s.h, A); c.ev(SN[set]); c.note(phi); c.nontrivial();
}
// forwards, then backwards through the mirrored element
FAMILY(reversal, 8000, 100000)
{
	int set = c.rng.range(0, 2); Spec s = random(c); s.fint = 0; auto a = s.build(), b = s.reversed().build(); std::string key = std::string(SN[set]) + "-" + s.name; double A = c.rng.pick({1e-6, 1e-4}); VV in = cloud(c, A); VV o = lib(*a, set, s, in); for(auto& v : o) { v[1] *= -1; v[3] *= -1; v[4] *= -1; } VV r = lib(*b, set, s, o); for(auto& v : r) { v[1] *= -1; v[3] *= -1; v[4] *= -1; } int w = -1; double d = diff(in, r, set == THIN ? 4 : 6, &w);
	c.near(d, 0, A * A * A * 200 * std::pow((1 + s.L) * (1 + 1 / s.L), 3) + 2e-6 * A + (s.e.count(0) ? 1e-8 : 0), 0, key.c_str(), "coordinate %d L=%g h=%g A=%g", w, s.L, s.h, A); c.ev(SN[set]); c.note(s.L); c.nontrivial();
}
