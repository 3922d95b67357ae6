// Random stable rings (FODO cells with bends) with errors, coupling, cavities, and reference calculations on
// tracked rays: central-difference maps, closed orbits by Newton iteration, normal modes by their definition.
#pragma once
#include "machine.h"
#include "ParticleTracker.h"
#include "ParticleBunch.h"
#include "ElectronBunch.h"
#include "RingDeltaTProcess.h"
#include "SynchRadParticleProcess.h"
#include "MerlinException.h"
#include "PhysicalConstants.h"
namespace ring
{
using namespace vh; using namespace ParticleTracking;
typedef AcceleratorModel AM;
struct Quiet { std::ostringstream s; std::streambuf* o, *e; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
typedef std::array<double, 6> V6; typedef std::array<V6, 6> M6;
inline M6 unit() { M6 m; for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) m[i][j] = i == j; return m; }
inline M6 mul(const M6& a, const M6& b) { M6 m; for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) { double s = 0; for(int k = 0; k < 6; k++) s += a[i][k] * b[k][j]; m[i][j] = s; } return m; }
inline M6 tr(const M6& a) { M6 m; for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) m[i][j] = a[j][i]; return m; }
inline double dist(const M6& a, const M6& b, int n = 6) { double d = 0; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) d = std::max(d, fabs(a[i][j] - b[i][j])); return d; }
// solve a x = b (n x n, pivoted Gauss); false if singular
inline bool solve(M6 a, V6 b, V6& x, int n) { for(int i = 0; i < n; i++) { int p = i; for(int k = i + 1; k < n; k++) if(fabs(a[k][i]) > fabs(a[p][i])) p = k; if(fabs(a[p][i]) < 1e-13) return false; std::swap(a[p], a[i]); std::swap(b[p], b[i]); for(int k = i + 1; k < n; k++) { double f = a[k][i] / a[i][i]; for(int j = i; j < n; j++) a[k][j] -= f * a[i][j]; b[k] -= f * b[i]; } } for(int i = n - 1; i >= 0; i--) { double s = b[i]; for(int j = i + 1; j < n; j++) s -= a[i][j] * x[j]; x[i] = s / a[i][i]; } return true; }
inline M6 sform() { M6 m; for(auto& r : m) r.fill(0); for(int i = 0; i < 6; i += 2) { m[i][i + 1] = 1; m[i + 1][i] = -1; } return m; }
struct Opt { double scale = 0; bool rad = false; int radSteps = 1; double radStep = 0; std::function<ParticleBunchProcess* ()> extra; };
struct Ring { std::unique_ptr<AM> m; std::vector<ComponentFrame*> f; std::vector<double> s; double C = 0, P0 = 1, h = 0, h0 = 0, g1 = 0; bool rect = false; int nb = 0; bool rf = false, errors = false, coupled = false, nonlinear = false; SWRFStructure* cav = nullptr; double alphaC = 0; };
inline void dress(ParticleTracker& t, const Opt& o) { if(o.rad) { auto p = new SynchRadParticleProcess(1); if(o.radStep > 0) p->SetMaxComponentStepSize(o.radStep); else p->SetNumComponentSteps(o.radSteps); p->AdjustBunchReferenceEnergy(false); t.AddProcess(p); } if(o.scale != 0) { auto p = new RingDeltaTProcess(2); p->SetBendScale(o.scale); t.AddProcess(p); } if(o.extra) t.AddProcess(o.extra()); }
typedef std::vector<PSvector> PV;
// one turn from element n, or from element n1 to n2 inclusive
inline PV turn(Ring& R, const PV& in, int n, const Opt& o) { ParticleBunch pb(R.P0, 1.0); ElectronBunch eb(R.P0, 1.0); ParticleBunch& b = o.rad ? eb : pb; for(auto& p : in) b.AddParticle(p); ParticleTracker t(R.m->GetRing(n), &b, false); dress(t, o); t.Run(); auto& out = t.GetTrackedBunch(); return PV(out.begin(), out.end()); }
inline PV part(Ring& R, const PV& in, int n1, int n2, const Opt& o) { ParticleBunch pb(R.P0, 1.0); ElectronBunch eb(R.P0, 1.0); ParticleBunch& b = o.rad ? eb : pb; for(auto& p : in) b.AddParticle(p); ParticleTracker t(R.m->GetBeamline(n1, n2), &b, false); dress(t, o); t.Run(); auto& out = t.GetTrackedBunch(); return PV(out.begin(), out.end()); }
inline PV rays(const PSvector& p, double d) { PV v; v.push_back(p); for(int k = 0; k < 6; k++) for(int s = 0; s < 4; s++) { static const double a[] = {-2, -1, 1, 2}; PSvector q(p); q[k] += a[s] * d; v.push_back(q); } return v; }
inline M6 jac(const PV& v, double d) { M6 m; for(int k = 0; k < 6; k++) for(int i = 0; i < 6; i++) { auto y = [&](int s) { return v[1 + 4 * k + s][i]; }; m[i][k] = (8 * (y(2) - y(1)) - (y(3) - y(0))) / (12 * d); } return m; }
inline M6 oneTurn(Ring& R, const PSvector& p, int n, const Opt& o, double d = 1e-6) { return jac(turn(R, rays(p, d), n, o), d); }
inline M6 section(Ring& R, const PSvector& p, int n1, int n2, const Opt& o, double d = 1e-6) { return n2 < n1 ? unit() : jac(part(R, rays(p, d), n1, n2, o), d); }
// closed orbit by Newton on the harness's own map; cpt = 4 or 6
inline bool orbit(Ring& R, PSvector& p, int n, int cpt, const Opt& o, double tol = 1e-13) { for(int it = 0; it < 30; it++) { PV v = turn(R, rays(p, 1e-6), n, o); M6 m = jac(v, 1e-6); V6 g, x; g.fill(0); for(int i = 0; i < 6; i++) m[i][i] -= 1; for(int i = 0; i < cpt; i++) g[i] = p[i] - v[0][i]; if(!solve(m, g, x, cpt)) return false; double w = 0; for(int i = 0; i < cpt; i++) { p[i] += x[i]; w = std::max(w, fabs(x[i])); } if(!(w < 1)) return false; if(w < tol) return true; } return false; }
inline bool stable4(const M6& m) { // both transverse planes, uncoupled or coupled: via the characteristic polynomial of M + M^-1
	double a = m[0][0] + m[1][1], d = m[2][2] + m[3][3], t = a + d, B[2][2] = {{m[0][2], m[0][3]}, {m[1][2], m[1][3]}}, Cc[2][2] = {{m[2][0], m[2][1]}, {m[3][0], m[3][1]}}; double det = 0; { double Bs[2][2] = {{B[1][1], -B[0][1]}, {-B[1][0], B[0][0]}}; double S[2][2]; for(int i = 0; i < 2; i++) for(int j = 0; j < 2; j++) S[i][j] = Cc[i][j] + Bs[i][j]; det = S[0][0] * S[1][1] - S[0][1] * S[1][0]; } double disc = (a - d) * (a - d) + 4 * det; if(disc < 0) return false; double e1 = (t + sqrt(disc)) / 2, e2 = (t - sqrt(disc)) / 2; return fabs(e1) < 1.95 && fabs(e2) < 1.95 && fabs(e1 - e2) > 0.02; }
// powers of the matrix stay bounded
inline bool bounded(M6 m) { auto big = [](const M6& a) { double d = 0; for(auto& r : a) for(double x : r) d = std::max(d, fabs(x)); return d; }; double b = 0; for(int k = 0; k < 13; k++) { if(k < 5) b = std::max(b, big(m)); else if(!(big(m) < 50 * b)) return false; m = mul(m, m); } return true; }
inline std::vector<double> state(Ring& R) { std::vector<double> v; for(auto f : R.f) { if(!f->IsComponent()) continue; auto& a = f->GetComponent(); v.push_back(a.GetLength()); if(auto b = dynamic_cast<RectMultipole*>(&a)) { auto q = b->GetField().GetBFieldAt(Point3D(0.01, 0.003, 0)); v.push_back(q.x); v.push_back(q.y); } if(auto b = dynamic_cast<SectorBend*>(&a)) { v.push_back(b->GetB0()); v.push_back(b->GetB1()); v.push_back(b->GetGeometry().GetCurvature()); } if(auto b = dynamic_cast<SWRFStructure*>(&a)) { v.push_back(b->GetAmplitude()); v.push_back(b->GetPhase()); v.push_back(b->GetFrequency()); } auto T = f->GetLocalFrameTransform(); v.push_back(T.X().x); v.push_back(T.X().y); v.push_back(T.X().z); Vector3D e = T.R() * Vector3D(1, 2, 3); v.push_back(e.x); v.push_back(e.y); v.push_back(e.z); } return v; }
struct Want { bool rf = false, errors = true, coupled = false, nonlinear = true, gentle = false, gradient = false; double P0 = 0, qs0 = 0.01, qs1 = 0.08; };
// a ring; returns false if this draw is not stable
inline bool make(Case& c, Ring& R, const Want& w)
{
	auto& r = c.rng; R = Ring(); R.P0 = w.P0 > 0 ? w.P0 : r.logu(1, 100); R.rf = w.rf; R.errors = w.errors; R.coupled = w.coupled; R.nonlinear = w.nonlinear; double brho = R.P0 / 0.299792458; int Nc = w.gentle ? r.range(12, 20) : r.range(6, 12); double Lq = r.uni(0.2, 0.6), Lb = r.uni(0.6, 2.5), Ld = r.uni(0.1, 0.8), h = 2 * M_PI / (2 * Nc * Lb), cell = 2 * Lq + 2 * Lb + 4 * Ld; R.h = R.h0 = h; R.nb = 2 * Nc; double mx = r.uni(0.25, 0.6), f = cell / (4 * sin(M_PI * mx / 2)), k1 = 1 / (f * Lq), kd = k1 * r.uni(0.9, 1.1); bool rect = r.chance(0.4), split = r.chance(0.3); int rfcell = r.range(0, Nc - 1), skewcell = r.range(0, Nc - 1);
	AcceleratorModelConstructor mc; R.C = 0; auto len = [&](double L) { R.C += L; };
	double g1 = w.gradient ? r.sym(0.03) : 0; R.g1 = g1; R.rect = rect && !split;
	auto drift = [&](double L) { mc.AppendComponent(*new Drift("D", L)); len(L); };
	auto quad = [&](int i, double k) { auto q = new Quadrupole(std::string(k > 0 ? "QF" : "QD") + (r.chance(0.5) ? std::to_string(i) : ""), Lq, k * brho * (w.errors ? 1 + r.sym(0.003) : 1)); mc.AppendComponent(*q); len(Lq); };
	auto bend = [&]() { int n = split ? 2 : 1; for(int i = 0; i < n; i++) { auto b = new SectorBend("B", Lb / n, h, h * brho); if(w.gradient) b->SetB1(g1 * brho); if(rect && !split) { double e = h * Lb / 2; b->SetPoleFaceInfo(new SectorBend::PoleFace(e), new SectorBend::PoleFace(e)); } mc.AppendComponent(*b); } len(Lb); };
	for(int i = 0; i < Nc; i++)
	{
		mc.AppendComponent(*new Marker("CELL" + std::to_string(i))); quad(i, k1); if(w.nonlinear && r.chance(0.5)) { mc.AppendComponent(*new Sextupole("SF", 0.1, r.sym(2) * brho)); len(0.1); } drift(Ld); bend();
		if(w.errors && r.chance(0.5)) { mc.AppendComponent(*new XCor("HC" + std::to_string(i), 0.1, r.sym(5e-5) * brho / 0.1)); len(0.1); } if(w.rf && i == rfcell) { int n = r.range(1, 3); double cir = 0; (void) cir; R.cav = new SWRFStructure("RF", n, 5e8, 0, M_PI / 2); mc.AppendComponent(*R.cav); len(R.cav->GetLength()); } else drift(Ld);
		quad(i, -kd); if(w.errors && r.chance(0.5)) { mc.AppendComponent(*new YCor("VC" + std::to_string(i), 0.1, r.sym(5e-5) * brho / 0.1)); len(0.1); } if(w.coupled && (i == skewcell || r.chance(0.2))) { mc.AppendComponent(*new SkewQuadrupole("SQ", 0.1, r.sym(0.3) * brho)); len(0.1); } drift(Ld); bend(); drift(Ld);
	}
	R.m.reset(mc.GetModel()); auto bl = R.m->GetBeamline(); double s = 0; for(auto i = bl.begin(); i != bl.end(); ++i) { R.f.push_back(*i); R.s.push_back(s); s += (*i)->GetGeometryLength(); }
	R.C = s; if(w.errors) for(auto fr : R.f) if(fr->IsComponent() && fr->GetComponent().GetType() == "Quadrupole" && r.chance(0.3)) { fr->TranslateX(r.sym(5e-5)); fr->TranslateY(r.sym(5e-5)); }
	if(w.coupled) for(auto fr : R.f) if(fr->IsComponent() && fr->GetComponent().GetType() == "Quadrupole" && r.chance(0.2)) fr->RotateZ(r.sym(5e-3));
	PSvector p(0); if(!orbit(R, p, 0, 4, Opt(), 1e-12)) return false; M6 m = oneTurn(R, p, 0, Opt()); if(!stable4(m)) return false;
	// momentum compaction on the closed orbit, then the cavity
	V6 D, b; M6 a = m; for(int i = 0; i < 4; i++) { b[i] = -m[i][5]; a[i][i] -= 1; } if(!solve(a, b, D, 4)) return false; R.alphaC = -m[4][5]; for(int j = 0; j < 4; j++) R.alphaC -= m[4][j] * D[j]; for(int j = 0; j < 4; j++) if(fabs(D[j]) > 15 || fabs(p[j]) > 5e-3) return false;
	if(w.rf) { if(!(R.alphaC > 0)) return false; double qs = r.uni(w.qs0, w.qs1), k = 2 * M_PI * 5e8 / 299792458.0, Vn = pow(2 * M_PI * qs, 2) / (R.alphaC * k); if(Vn > 0.02) return false; R.cav->SetAmplitude(Vn * R.P0 / R.cav->GetLength()); M6 q = oneTurn(R, p, 0, Opt()); if(!(fabs(q[4][4] + q[5][5]) < 2 + 0.5) || !bounded(q)) return false; }
	return true;
}
// energy lost per turn by an electron on the design orbit [GeV]
inline double energyLoss(Ring& R) { return 8.846e-5 / (2 * M_PI) * pow(R.P0, 4) * R.h0 * 2 * M_PI; }
inline bool stableRing(Case& c, Ring& R, const Want& w) { for(int i = 0; i < 12; i++) if(make(c, R, w)) return true; c.ev("no_stable_ring"); return false; }
}
