// W01: bunch wakes of particle and macro-particle bunches, CSR, collimator modes, coupler kicks.
#include "coll.h"
#include <unistd.h>
#include <complex>
#include "WakeFieldProcess.h"
#include "WakePotentials.h"
#include "CollimatorWakeProcess.h"
#include "CollimatorWakePotentials.h"
#include "CouplerWakeFieldProcess.h"
#include "CombinedWakeRF.h"
#include "ResistiveWakePotentials.h"
#include "SMPWakeFieldProcess.h"
#include "SMPTracker.h"
#include "SMPBunch.h"
#include "MerlinIO.h"
using namespace coll;
typedef long double LD; typedef std::complex<LD> CL;
static const LD EV = 1.602176487e-19L * 1e-9L; // elementary charge in the units of the wake (V/C to GeV)
struct Wf { int k; double a, l; LD operator()(LD z) const { switch(k) { case 0: return a * expl(-fabsl(z) / l); case 1: return a * cosl(z / l); case 2: return a; case 3: return a * z / l; case 4: return a * sinl(z / l) + a / 2; default: return a / (1 + fabsl(z) / l) - a / 10; } } LD mx(LD z) const { return std::fabs(a) * (k == 3 ? z / l : k == 4 ? 1.5 : 1); } LD slope() const { return std::fabs(a) / l; } };
static Wf fn(Rng& r, double amp, double l) { return Wf{r.range(0, 5), r.sgn() * amp * r.uni(0.1, 1), l * r.uni(0.3, 3)}; }
struct Wake : WakePotentials { Wf L, T; mutable long back = 0; double W(const Wf& f, double z) const { if(z < 0) ++back; return (double) f(z); } double Wlong(double z) const override { return W(L, z); } double Wtrans(double z) const override { return W(T, z); } void Csr() { csr = true; } };
struct CWake : CollimatorWakePotentials { std::vector<Wf> L, T; CWake(int m) : CollimatorWakePotentials(m) {} double Wlong(double s, int m) const override { return (double) L[m](s); } double Wtrans(double s, int m) const override { return (double) T[m](s); } double Wlong(double) const override { return 0; } double Wtrans(double) const override { return 0; } };
struct Coup : CombinedWakeRF { Wf L, T; double a[8]; double Wlong(double z) const override { return (double) L(z); } double Wtrans(double z) const override { return (double) T(z); } Vector2D Wxy(double x, double y) const override { return Vector2D(a[0] + a[1] * x, a[2] - a[3] * y); } Vector2D CouplerRFKick(double x, double y, double p) const override { return Vector2D(a[4] * cos(p) + a[5] * x, a[6] * sin(p) + a[7] * y); } };
struct Step : ParticleBunchProcess { double h; Step(double a) : ParticleBunchProcess("step", 0), h(a) {} void SetCurrentComponent(AcceleratorComponent& a) override { currentComponent = &a; active = true; } void DoProcess(double) override {} double GetMaxAllowedStepSize() const override { return std::max(currentComponent->GetLength() * h, 1e-9); } };
static PV shape(Case& c, int n, double sz, double off)
{
	auto& r = c.rng; PV v; int k = r.range(0, 4); double z0 = r.pick({0.0, 0.0, r.sym(5) * sz}); for(int i = 0; i < n; i++) { PSvector p(0); p.ct() = z0 + sz * (k == 0 ? r.normal() : k == 1 ? r.sym(1.7) : k == 2 ? (r.chance(0.5) ? 1 : -1) * (1 + 0.01 * r.sym(1)) : k == 3 ? (i == 0 ? 3 : 0.1) * r.sym(1) : 0.5 * r.range(-3, 3)); p.x() = r.normal() * 1e-3 + off; p.y() = r.sym(1e-3); p.xp() = r.sym(1e-4); p.yp() = r.sym(1e-4); p.dp() = r.chance(0.5) ? 0 : r.sym(1e-3); p.id() = 100 + i; v.push_back(p); } return v;
}
static void drift(PV& x, double l, double p0) { if(x.empty()) return; ParticleBunch t(p0, 1); for(auto& p : x) t.AddParticle(p); AcceleratorModelConstructor m2; m2.AppendComponent(*new Drift("D", l)); std::unique_ptr<AcceleratorModel> mm(m2.GetModel()); ParticleTracker k(mm->GetBeamline(), &t); k.Track(&t); x.assign(t.begin(), t.end()); }
struct Bins { LD z0, z1, dz; int n; std::vector<std::vector<int>> in; int lost = 0; bool edge = false; };
static Bins bin(PV& v, int nb, double ns, bool cut = true) // drops the particles outside
{
	Bins b; LD m = 0, q = 0; for(auto& p : v) m += p.ct(); m /= v.size(); for(auto& p : v) q += (p.ct() - m) * (p.ct() - m); q = sqrtl(q / v.size()); if(q < 1e-12L) q = std::max<LD>(q, 1e-12L * (1 + fabsl(m))); b.z0 = m - ns * q; b.z1 = m + ns * q; b.n = nb; b.dz = (b.z1 - b.z0) / nb; PV w; LD tol = 1e-11L * b.dz + 1e-15L * (fabsl(b.z0) + fabsl(b.z1)); for(auto& p : v) { LD u = (p.ct() - b.z0) / b.dz; if(fabsl(u - roundl(u)) * b.dz < tol) b.edge = true; if(cut && (p.ct() < b.z0 || p.ct() >= b.z1)) { b.lost++; continue; } w.push_back(p); } v = w; b.in.resize(nb); for(size_t i = 0; i < v.size(); i++) b.in[std::min(nb - 1, std::max(0, (int) ((v[i].ct() - b.z0) / b.dz)))].push_back(i); return b;
}
static LD lin(const std::vector<LD>& w, const Bins& b, LD z) { if(w.empty()) return 0; int s = std::min(b.n - 1, std::max(0, (int) ((z - b.z0) / b.dz))); return w[s] + (w[s + 1] - w[s]) * ((z - b.z0) / b.dz - s); }
struct Cwd { Cwd() { if(chdir(vh::scratch().c_str())) abort(); } };
FAMILY(particle, 1500, 25000)
{
	static Cwd cwd; auto& r = c.rng; double sgn = 1; int n = r.pick({1, 2, 3, r.range(4, 400), r.range(100, 400)}), nb = r.pick({1, 2, 3, r.range(4, 60), 100, r.range(100, 300)}); double sz = r.logu(1e-5, 1e-2), ns = r.chance(0.3) ? r.uni(1.2, 2.5) : r.uni(3, 25), P0 = r.logu(0.5, 500), Q = r.sgn() * r.logu(1e8, 1e12); if(r.chance(0.06)) { Q = 0; c.ev("no-charge"); } sgn = Q < 0 ? -1 : 1; PV v = shape(c, n, sz, r.pick({0.0, 1e-3})); if(r.chance(0.05)) { for(auto& p : v) p.ct() = v[0].ct(); c.ev("no-length"); }
	double L = r.pick({1.0, r.uni(0.05, 5), 0.37}); bool csr = r.chance(0.2), tw = !r.chance(0.2), ctr = r.chance(0.4), bend = Q != 0 && r.chance(0.2), st = r.chance(0.5); double h = r.pick({0.1, 0.3333333333333333, r.uni(0.03, 1.3), 0.7}); double dE = (double) std::max<LD>(1e-30L, fabsl(Q) * EV * L); Wake w; w.L = fn(r, 1e-3 * P0 / (Q == 0 ? 1 : dE), sz); w.T = fn(r, 0.3 * P0 / (Q == 0 ? 1 : dE), sz); { double lo = 1e9, hi = -1e9; for(auto& p : v) { lo = std::min(lo, p.ct()); hi = std::max(hi, p.ct()); } if(hi - lo < 0.1 * sz) csr = false; } if(csr) { PV u = v; w.L.a *= (double) bin(u, nb, ns).dz * 0.3; w.Csr(); c.ev("csr"); }
	int nw = r.range(1, 3); AcceleratorModelConstructor mc; mc.AppendComponent(*new Drift("A", 0.3)); for(int i = 0; i < nw; i++) { auto d = new Drift("W", L); d->SetWakePotentials(&w); mc.AppendComponent(*d); if(bend && i + 1 < nw) { mc.AppendComponent(*new SectorBend("B", 1, 0.1, sgn * 0.1 * P0 / 0.299792458)); } else mc.AppendComponent(*new Drift("A", 0.2)); } std::unique_ptr<AcceleratorModel> m(mc.GetModel());
	PV u = v; if(r.chance(0.5)) { r.shuffle(u); } ParticleBunch b(P0, n ? Q / n : 0); for(auto& p : u) b.AddParticle(p); auto wf = new ParticleTracking::WakeFieldProcess(5, nb, ns); wf->ApplyImpulseAt(ctr ? ParticleTracking::WakeFieldProcess::atCentre : ParticleTracking::WakeFieldProcess::atExit); wf->IncludeTransverseWake(tw); int fn_ = 14; if(csr && r.chance(0.5)) wf->SetFilter(fn_ = r.range(1, 20), r.range(1, 2), 1);
	struct Obs : ParticleBunchProcess { std::vector<PV> s; std::vector<double> p0, q; std::vector<std::string> nm; int when; Obs(int prio) : ParticleBunchProcess("obs", prio), when(prio) {} void SetCurrentComponent(AcceleratorComponent& a) override { currentComponent = &a; active = a.GetName() == "W" || a.GetName() == "A" || a.GetName() == "B"; if(when < 5) return; } void DoProcess(double) override {} double GetMaxAllowedStepSize() const override { return 1e9; } };
	if(getenv("DBG")) fprintf(stderr, "n %d nb %d sz %g ns %g P0 %g Q %g L %g csr %d tw %d ctr %d bend %d st %d h %g nw %d k %d %d L.a %g l %g mx %g\n", n, nb, sz, ns, P0, Q, L, csr, tw, ctr, bend, st, h, nw, w.L.k, w.T.k, w.L.a, w.L.l, (double) (w.L.a * dE / P0));
	Quiet quiet; std::ostringstream sink; auto ob = MerlinIO::warning().rdbuf(sink.rdbuf()); { ParticleTracker t(m->GetBeamline(), &b); if(st) { t.AddProcess(new Step(h)); c.ev("steps"); } t.AddProcess(wf); t.Track(&b); } MerlinIO::warning().rdbuf(ob);
	if(getenv("DBG")) fprintf(stderr, "n %d nb %d sz %g ns %g P0 %g Q %g L %g csr %d tw %d ctr %d bend %d st %d h %g nw %d k %d %d\n", n, nb, sz, ns, P0, Q, L, csr, tw, ctr, bend, st, h, nw, w.L.k, w.T.k);
	// the same line with free flight and kicks from the formula
	PV x = v; LD p0 = P0, tot = Q; bool edge = false; LD num = 0; double kx = 0, kz = 0; auto fly = [&](double l) { drift(x, l, (double) p0); }; int lost = 0; double slack = 0; LD lin_slack = 0; fly(0.3); int done = 0;
	for(int i = 0; i < nw; i++)
	{
		fly(ctr ? L / 2 : L); Bins g = bin(x, nb, ns); edge |= g.edge; num = std::max(num, 1e-15L * (fabsl(g.z0) + fabsl(g.z1)) / g.dz); lost += g.lost; size_t N = x.size(); LD a0 = fabsl(tot) * EV / (N ? N : 1); std::vector<LD> wz(nb + 1, 0), wx(nb + 1, 0), wy(nb + 1, 0); if(!N) break;
		if(csr) { LD k2 = 0; for(int k = -fn_; k <= fn_; k++) k2 += k * k; std::vector<LD> s(nb, 0); for(int a = 0; a < nb; a++) for(int k = -fn_; k <= fn_; k++) if(a + k >= 0 && a + k < nb) s[a] += k / k2 * g.in[a + k].size(); for(int a = 0; a <= nb; a++) for(int j = 1; j < a; j++) wz[a] += a0 * s[j] * w.L((j - a + 0.5L) * g.dz) / g.dz; }
		else for(int a = 0; a <= nb; a++) for(int j = a; j < nb; j++) wz[a] += a0 * g.in[j].size() * w.L((j - a + 0.5L) * g.dz);
		if(tw) for(int a = 0; a <= nb; a++) for(int j = a; j < nb; j++) { LD sx = 0, sy = 0; for(int k : g.in[j]) { sx += x[k].x(); sy += x[k].y(); } LD f = a0 * w.T((j - a + 0.5L) * g.dz); wx[a] += f * sx; wy[a] += f * sy; }
		LD mean = 0; std::vector<LD> dd; for(size_t k = 0; k < N; k++) { LD z = x[k].ct(), d = -L * lin(wz, g, z) / p0; mean += d / N; dd.push_back(d); LD ux = tw ? L * lin(wx, g, z) / p0 : 0, uy = tw ? L * lin(wy, g, z) / p0 : 0; x[k].xp() = (double) ((x[k].xp() + ux) / (1 + d)); x[k].yp() = (double) ((x[k].yp() + uy) / (1 + d)); }
		// against the sum over the particles ahead, within what the binning can do
		if(!csr && i == 0 && N <= 400) for(size_t k = 0; k < N; k += 1 + N / 12) { LD s = 0; int own = 0; int bk = std::min(nb - 1, std::max(0, (int) ((x[k].ct() - g.z0) / g.dz))); for(size_t l = 0; l < N; l++) { int bl = std::min(nb - 1, std::max(0, (int) ((x[l].ct() - g.z0) / g.dz))); if(bl == bk) { own++; } if(x[l].ct() > x[k].ct()) s += w.L((LD) x[l].ct() - x[k].ct()); } LD err = own * w.L.mx(2 * g.dz) + N * w.L.slope() * 2 * g.dz; c.check(fabsl(-dd[k] * p0 / L - a0 * s) <= a0 * err * (1 + 1e-9L) + 1e-15L * fabsl(a0 * N * w.L.a), "model", "formula differs from direct sum"); c.ev("direct-sums"); }
		if(csr) mean = 0; for(size_t k = 0; k < N; k++) x[k].dp() = (double) ((x[k].dp() + dd[k] - mean) / (1 + mean)); p0 *= 1 + mean; done++; if(ctr) fly(L / 2); if(bend && i + 1 < nw) { ParticleBunch t((double) p0, Q); AcceleratorModelConstructor m2; m2.AppendComponent(*new SectorBend("B", 1, 0.1, sgn * 0.1 * P0 / 0.299792458)); std::unique_ptr<AcceleratorModel> mm(m2.GetModel()); for(auto& p : x) t.AddParticle(p); ParticleTracker tt(mm->GetBeamline(), &t); if(st) tt.AddProcess(new Step(h)); tt.Track(&t); x = PV(t.begin(), t.end()); c.ev("bends"); } else fly(0.2); slack = std::max(slack, (double) fabsl(w.L.mx(2 * ns * sz) * fabsl(tot) * EV * L / p0));
	}
	if(!csr && w.back) c.check(false, "causal", "wake asked for %ld distances ahead of the source", w.back); if(csr) c.check(w.back > 0 || nb < 3 || x.empty(), "csr-side", "CSR wake not asked behind the source");
	if(edge) { c.ev("on-a-boundary"); c.check(!b.size() || std::isfinite(b.FirstParticle().dp()), "finite", "coordinates"); c.note(fmt("%d %g", n, sz)); c.nontrivial(); return; }
	c.check(b.size() == x.size(), "survivors", "%zu particles left of %d, %zu are inside %g sigma", b.size(), n, x.size(), ns); c.near(b.GetTotalCharge(), Q, 0, 1e-12, "charge", "total charge after %d were truncated", lost); if(lost) c.ev("truncated"); c.near(b.GetReferenceMomentum(), (double) p0, 0, 1e-10 + 30 * (double) (num * fabsl(p0 / P0 - 1)), "reference", "reference momentum after wakes of %g GeV", (double) (p0 - P0)); if(b.size() != x.size()) return; std::map<long long, PSvector> got; for(auto& p : b) got[p.id()] = p;
	kx = kz = 0; for(auto& p : x) { kx = std::max({kx, std::fabs(p.xp()), std::fabs(p.yp())}); kz = std::max(kz, std::fabs(p.dp())); }
	if(getenv("DBG")) for(auto& p : x) { auto q = got[p.id()]; auto z = v[p.id() - 100]; fprintf(stderr, "ct %.6g dp0 %.6g exp %.10g got %.4g xp0 %.6g exp %.6g %.3g\n", p.ct(), z.dp(), p.dp() - z.dp(), q.dp() - p.dp(), z.xp(), p.xp()-z.xp(), q.xp() - p.xp()); }
	if(kx > 0.1 || kz > 0.3) { c.nontrivial(); return; } // beyond a small kick
	for(auto& p : x) { if(!c.check(got.count(p.id()), "identity", "particle %lld missing", (long long) p.id())) continue; auto& q = got[p.id()]; c.near(q.dp(), p.dp(), (1e-9 + 3000 * (double) num) * kz + 1e-12, 0, csr ? "csr" : "longitudinal", "dp of particle %lld at ct=%g (%d bins)", (long long) p.id(), p.ct(), nb); c.near(q.xp(), p.xp(), (1e-9 + 3000 * (double) num) * kx + 1e-13, 0, "transverse", "xp of particle %lld (%d bins)", (long long) p.id(), nb); c.near(q.yp(), p.yp(), (1e-9 + 3000 * (double) num) * kx + 1e-13, 0, "transverse", "yp of particle %lld", (long long) p.id()); c.near(q.x(), p.x(), (1e-9 + 3000 * (double) num) * kx + 1e-12, 0, "position", "x of particle %lld", (long long) p.id()); c.near(q.ct(), p.ct(), (1e-9 + 3000 * (double) num) * (std::fabs(p.ct()) + kx + kz), 0, "time", "ct"); c.ev("kicks"); }
	if(Q == 0 && !bend) { for(auto& p : v) if(got.count(p.id())) { c.check(got[p.id()].dp() == p.dp() && std::fabs(got[p.id()].xp() - p.xp()) <= 1e-18, "no-charge", "a bunch without charge was kicked"); } } if(tw) c.ev("transverse"); if(ctr) c.ev("centre"); c.note(fmt("%d %.12g %d", n, sz, nb)); c.nontrivial();
}
FAMILY(collimator, 500, 8000)
{
	static Cwd cwd; auto& r = c.rng; int n = r.pick({1, 2, r.range(3, 150)}), nb = r.pick({1, 2, r.range(3, 60), 100, 1200}), nm = r.range(1, 5); if(nb == 1200 && !r.chance(0.2)) nb = 30; if(nb > 1000) c.ev("many-bins"); double sz = r.logu(1e-5, 1e-2), ns = r.uni(3, 13), P0 = r.logu(1, 500), Q = r.sgn() * r.logu(1e8, 1e12), L = r.uni(0.1, 3), R = 1e-3; PV v = shape(c, n, sz, r.pick({0.0, 1e-3})); CWake w(nm); w.L.resize(nm + 1); w.T.resize(nm + 1); LD a = fabsl(Q) * EV / (4 * acosl(-1.0L) * 8.854187817e-12L); for(int m = 0; m <= nm; m++) { w.L[m] = fn(r, (double) (1e-3 * P0 / a / powl(R, 2 * m)), sz); w.T[m] = fn(r, (double) (1e-3 * P0 / a / powl(R, 2 * m - 1)), sz); }
	AcceleratorModelConstructor mc; auto d = new Drift("W", L); d->SetWakePotentials(&w); mc.AppendComponent(*d); auto d2 = new Drift("W2", L); Wake w2; w2.L = w2.T = Wf{2, 1, 1}; mc.AppendComponent(*d2); std::unique_ptr<AcceleratorModel> m(mc.GetModel()); bool resp = r.chance(0.5); PV u = v; r.shuffle(u); ParticleBunch b(P0, Q / n); for(auto& p : u) b.AddParticle(p); bool tw = !r.chance(0.15); LD rot = r.chance(0.3) ? r.sym(3) : 0;
	if(rot != 0) { auto tr = [&](PSvector& p) { CL z = CL(p.x(), p.y()) * std::polar((LD) 1, rot), zp = CL(p.xp(), p.yp()) * std::polar((LD) 1, rot); p.x() = (double) z.real(); p.y() = (double) z.imag(); p.xp() = (double) zp.real(); p.yp() = (double) zp.imag(); }; for(auto& p : b) tr(p); c.ev("rotated"); }
	auto cp = new CollimatorWakeProcess(nm, 6, nb, ns); cp->IncludeTransverseWake(tw); if(resp) { w.SetExpectedProcess(cp); d2->SetWakePotentials(&w2); c.ev("two-processes"); w2.SetExpectedProcess(nullptr); }
	Quiet quiet; std::ostringstream sink; auto ob = MerlinIO::warning().rdbuf(sink.rdbuf()); { ParticleTracker t(m->GetBeamline(), &b); t.AddProcess(cp); if(resp) { auto bp = new ParticleTracking::WakeFieldProcess(5, 10, 30); w2.SetExpectedProcess(bp); w2.L.a = w2.T.a = 0; t.AddProcess(bp); } t.Track(&b); } MerlinIO::warning().rdbuf(ob);
	PV x = v; drift(x, L, P0); Bins g = bin(x, nb, ns); if(g.edge) { c.nontrivial(); return; } LD num = 1e-15L * (fabsl(g.z0) + fabsl(g.z1)) / g.dz; size_t N = x.size(); a /= N; std::vector<std::vector<int>>& in = g.in; std::vector<LD> kick(N, 0); double kx = 1e-6, kz = 1e-6;
	for(int q = 1; q <= nm; q++)
	{
		std::vector<CL> M(nb); for(int j = 0; j < nb; j++) for(int k : in[j]) { CL z(x[k].x(), x[k].y()), zz = 1; for(int i = 0; i < q; i++) zz *= z; M[j] += zz; }
		for(int s = 0; s < nb; s++) if(!in[s].empty()) { CL t = 0, l = 0; for(int j = s; j < nb; j++) { t += w.T[q]((LD) (j - s) * g.dz) * M[j]; l += w.L[q]((LD) (j - s) * g.dz) * M[j]; } for(int k : in[s]) { CL z(x[k].x(), x[k].y()), zz = 1; for(int i = 0; i < q - 1; i++) zz *= z; CL f = std::conj(zz) * t * (LD) q * a / (LD) P0; LD dd = -a * (std::conj(zz * z) * l).real() / P0; x[k].dp() += (double) dd; kick[k] += dd; if(!tw) f = 0; x[k].xp() = (double) ((x[k].xp() + f.real()) / (1 + dd)); x[k].yp() = (double) ((x[k].yp() + f.imag()) / (1 + dd)); } }
	}
	c.check(b.size() == N, "collimator-survivors", "%zu particles of %zu", b.size(), N); std::map<long long, PSvector> got; for(auto& p : b) got[p.id()] = p; for(auto& p : x) { kx = std::max({kx, std::fabs(p.xp()), std::fabs(p.yp())}); kz = std::max(kz, std::fabs(p.dp())); }
	if(kx > 0.1 || kz > 0.3) { c.nontrivial(); return; }
	for(auto& p : x) { if(!got.count(p.id())) continue; auto q = got[p.id()]; CL zp = CL(q.xp(), q.yp()) * std::polar((LD) 1, -rot); c.near(q.dp(), p.dp(), (1e-9 + 3000 * (double) num) * kz + 1e-12, 0, "collimator-longitudinal", "dp of particle %lld, %d modes, rotated by %g", (long long) p.id(), nm, (double) rot); c.near((double) zp.real(), p.xp(), (1e-9 + 3000 * (double) num) * kx, 0, "collimator-transverse", "xp, %d modes, rotated by %g", nm, (double) rot); c.near((double) zp.imag(), p.yp(), (1e-9 + 3000 * (double) num) * kx, 0, "collimator-transverse", "yp, %d modes, rotated by %g", nm, (double) rot); c.ev("mode-kicks"); }
	c.note(fmt("%d %.12g %d", n, sz, nb)); c.nontrivial();
}
FAMILY(coupler, 400, 6000)
{
	static Cwd cwd; auto& r = c.rng; int n = r.pick({1, 2, r.range(3, 150)}), nb = r.pick({1, 2, r.range(3, 60)}); double sz = r.logu(1e-5, 1e-3), ns = r.uni(3, 20), P0 = r.logu(1, 500), Q = r.chance(0.2) ? 0 : r.logu(1e8, 1e12), L = r.uni(0.1, 3); PV v = shape(c, n, sz, 1e-3); LD dE = std::max<LD>(1e-40L, fabsl(Q) * EV * L); double sc = Q == 0 ? 1 : (double) (P0 / dE); Coup w; w.L = fn(r, 1e-3 * sc, sz); w.T = fn(r, 0.3 * sc, sz); w.a[0] = r.sym(1e-4) * sc * L; w.a[1] = r.sym(1e-2) * sc * L; w.a[2] = r.sym(1e-4) * sc * L; w.a[3] = r.sym(1e-2) * sc * L; for(int i = 4; i < 8; i++) w.a[i] = r.sym(1e-2);
	bool cav = r.chance(0.7); double phi = r.uni(0, 3), V = cav ? r.sym(0.02) * P0 : 0, f = 1.3e9, k = cav ? 2 * M_PI * f / 2.99792458e8 : 0; AcceleratorModelConstructor mc; AcceleratorComponent* d; if(cav) { auto q = new TWRFStructure("W", L, f, V / L, phi); d = q; mc.AppendComponent(*q); } else { auto q = new Drift("W", L); d = q; mc.AppendComponent(*q); } d->SetWakePotentials(&w); std::unique_ptr<AcceleratorModel> m(mc.GetModel()); ParticleBunch b(P0, Q / n), ref(P0, Q / n); for(auto& p : v) { b.AddParticle(p); ref.AddParticle(p); } bool tw = !r.chance(0.15);
	Quiet quiet; std::ostringstream sink; auto ob = MerlinIO::warning().rdbuf(sink.rdbuf()); { ParticleTracker t(m->GetBeamline(), &b); auto cp = new CouplerWakeFieldProcess(6, nb, ns); cp->IncludeTransverseWake(tw); t.AddProcess(cp); t.Track(&b); } { ParticleTracker t(m->GetBeamline(), &ref); t.Track(&ref); } MerlinIO::warning().rdbuf(ob);
	PV start = v, x(ref.begin(), ref.end()); Bins g0 = bin(start, nb, ns); if(g0.lost || g0.edge) { c.nontrivial(); return; } Bins g = bin(x, nb, ns); if(g.edge || g.lost) { c.nontrivial(); return; } LD num = 1e-15L * (fabsl(g.z0) + fabsl(g.z1)) / g.dz; size_t N = x.size(); LD p0 = ref.GetReferenceMomentum(), a0 = fabsl(Q) * EV / N; std::vector<LD> wz(nb + 1, 0), wx(nb + 1, 0), wy(nb + 1, 0), X(nb + 1, 0), Y(nb + 1, 0);
	for(int j = 0; j < nb; j++) { for(int i : g.in[j]) { X[j] += x[i].x(); Y[j] += x[i].y(); } if(g.in[j].size()) { X[j] /= g.in[j].size(); Y[j] /= g.in[j].size(); } } X[nb] = X[nb - 1]; Y[nb] = Y[nb - 1];
	for(int a = 0; a <= nb; a++) { Vector2D rf = w.CouplerRFKick((double) X[a], (double) Y[a], (double) (phi * cav + k * (g.z0 + (a + 0.5L) * g.dz))), cx = w.Wxy((double) X[a], (double) Y[a]); wx[a] = (LD) rf.x * V / L; wy[a] = (LD) rf.y * V / L; for(int j = a; j < nb; j++) { LD q = a0 * g.in[j].size(); wz[a] += q * w.L((j - a + 0.5L) * g.dz); LD t = w.T((j - a + 0.5L) * g.dz); wx[a] += q * (t * X[j] + cx.x / L); wy[a] += q * (t * Y[j] + cx.y / L); } }
	LD mean = 0; std::vector<LD> dd; for(auto& p : x) { dd.push_back(-L * lin(wz, g, p.ct()) / p0); mean += dd.back() / N; } double kx = 1e-6, kz = 1e-6; for(size_t i = 0; i < N; i++) { auto& p = x[i]; LD z = p.ct(); p.xp() = (double) ((p.xp() + (tw ? L * lin(wx, g, z) / p0 : 0)) / (1 + dd[i])); p.yp() = (double) ((p.yp() + (tw ? L * lin(wy, g, z) / p0 : 0)) / (1 + dd[i])); p.dp() = (double) ((p.dp() + dd[i] - mean) / (1 + mean)); kx = std::max({kx, std::fabs(p.xp()), std::fabs(p.yp())}); kz = std::max(kz, std::fabs(p.dp())); }
	if(getenv("DBG")) fprintf(stderr, "n %d nb %d sz %g ns %g P0 %g p0 %.12g got %.12g want %.12g cav %d tw %d k %d Q %g\n", n, nb, sz, ns, P0, (double) p0, b.GetReferenceMomentum(), (double) (p0 * (1 + mean)), cav, tw, w.L.k, Q);
	std::map<long long, PSvector> got; for(auto& p : b) got[p.id()] = p; c.near(b.GetReferenceMomentum(), (double) (p0 * (1 + mean)), 0, 1e-11 + 30 * (double) (num * fabsl(mean)), "coupler-reference", "reference momentum"); for(auto& p : x) { if(!c.check(got.count(p.id()), "identity", "particle missing")) continue; auto& q = got[p.id()]; c.near(q.dp(), p.dp(), (1e-9 + 3000 * (double) num) * kz, 0, "coupler-longitudinal", "dp"); c.near(q.xp(), p.xp(), (1e-9 + 3000 * (double) num) * kx, 0, "coupler-transverse", "xp at ct=%g, charge %g", p.ct(), Q); c.near(q.yp(), p.yp(), (1e-9 + 3000 * (double) num) * kx, 0, "coupler-transverse", "yp at ct=%g, charge %g", p.ct(), Q); c.ev("coupler-kicks"); if(Q == 0) c.ev("rf-only"); }
	c.note(fmt("%d %.12g %d", n, sz, nb)); c.nontrivial();
}
FAMILY(macro, 900, 15000)
{
	auto& r = c.rng; int n = r.pick({1, 2, r.range(3, 80)}); double sz = r.logu(1e-5, 1e-2), sw = r.pick({1e-6, sz * 0.1, sz * r.logu(1e-3, 10)}), P0 = r.logu(0.5, 500), sg = r.sgn(), Q = r.logu(1e8, 1e12), L = r.uni(0.1, 3), sgn = sg; std::vector<SMPTracking::SliceMacroParticle> v; LD qt = 0; for(int i = 0; i < n; i++) { double q = sg * Q / n * r.uni(0.2, 2); SMPTracking::SliceMacroParticle p(q); p.ct() = r.pick({sz * r.normal(), sz * 0.5 * r.range(-4, 4)}); p.x() = 1e-3 * r.normal(); p.y() = r.sym(1e-3); p.xp() = r.sym(1e-4); p.yp() = r.sym(1e-4); p.dp() = r.sym(1e-3); double A[4][4]; for(auto& a : A) for(auto& e : a) e = r.sym(1e-4); for(int a = 0; a < 4; a++) for(int e = 0; e <= a; e++) { double s = 0; for(int k = 0; k < 4; k++) s += A[a][k] * A[e][k]; p(a, e) = s; } v.push_back(p); qt += q; }
	Wake w; LD dE = fabsl(qt) * EV * L; w.L = fn(r, (double) (3e-3 * P0 / dE), sz); w.T = fn(r, (double) (0.3 * P0 / dE), sz); bool tw = !r.chance(0.2), ctr = r.chance(0.4), bend = r.chance(0.3); int nw = r.range(1, 3); AcceleratorModelConstructor mc, m0; auto both = [&](int k, const char* nm, double l) { (void) k; mc.AppendComponent(*new Drift(nm, l)); }; both(0, "A", 0.3); for(int i = 0; i < nw; i++) { auto d = new Drift("W", L); d->SetWakePotentials(&w); mc.AppendComponent(*d); if(bend && i + 1 < nw) mc.AppendComponent(*new SectorBend("B", 1, 0.1, sgn * 0.1 * P0 / 0.299792458)); else both(0, "A", 0.2); } std::unique_ptr<AcceleratorModel> m(mc.GetModel());
	auto fly = [&](std::vector<SMPTracking::SliceMacroParticle>& s, double l, double p0, bool bd) { SMPTracking::SMPBunch t(p0, sg); for(auto& p : s) t.AddParticle(p); AcceleratorModelConstructor m2; if(bd) m2.AppendComponent(*new SectorBend("B", 1, 0.1, sgn * 0.1 * P0 / 0.299792458)); else m2.AppendComponent(*new Drift("D", l)); std::unique_ptr<AcceleratorModel> mm(m2.GetModel()); SMPTracking::SMPTracker k(mm->GetBeamline(), &t); k.Track(&t); s.assign(t.begin(), t.end()); };
	auto u = v; r.shuffle(u); SMPTracking::SMPBunch b(P0, sg); for(auto& p : u) b.AddParticle(p); Quiet quiet; { SMPTracking::SMPTracker t(m->GetBeamline(), &b); auto wf = new SMPTracking::WakeFieldProcess(5, sw); wf->IncludeTransverseWake(tw); wf->ApplyImpulseAt(ctr ? SMPTracking::WakeFieldProcess::atCentre : SMPTracking::WakeFieldProcess::atExit); t.AddProcess(wf); t.Track(&b); }
	auto x = v; std::sort(x.begin(), x.end()); LD p0 = P0; fly(x, 0.3, P0, false); double kx = 1e-6, kz = 1e-6; for(int i = 0; i < nw; i++)
	{
		fly(x, ctr ? L / 2 : L, (double) p0, false); std::sort(x.begin(), x.end()); std::vector<std::vector<int>> s; for(int k = 0; k < n; k++) { if(s.empty() || x[k].ct() >= x[s.back()[0]].ct() + sw) s.emplace_back(); s.back().push_back(k); } size_t N = s.size(); std::vector<LD> z(N, 0), q(N, 0), X(N, 0), Y(N, 0), wz(N, 0); for(size_t a = 0; a < N; a++) { for(int k : s[a]) { q[a] += fabsl(x[k].Q()); z[a] += fabsl(x[k].Q()) * x[k].ct(); X[a] += fabsl(x[k].Q()) * x[k].x(); Y[a] += fabsl(x[k].Q()) * x[k].y(); } z[a] /= q[a]; X[a] /= q[a]; Y[a] /= q[a]; }
		LD load = 0; for(size_t a = 0; a < N; a++) { for(size_t j = a; j < N; j++) wz[a] += (j == a ? 0.5L : 1) * EV * q[j] * w.L(z[j] - z[a]); load += q[a] / fabsl(qt) * wz[a]; } LD p1 = p0 - L * load, pb = 0, pa = 0;
		for(size_t a = 0; a < N; a++) { LD fx = 0, fy = 0; if(tw) for(size_t j = a + 1; j < N; j++) { LD t = EV * q[j] * w.T(z[j] - z[a]); fx += t * X[j]; fy += t * Y[j]; } for(int k : s[a]) { auto& p = x[k]; LD e0 = p0 * (1 + (LD) p.dp()), e1 = e0 - L * wz[a]; pb += p.Q() * e0; pa += p.Q() * e1; p.xp() = (double) ((e0 * p.xp() + L * fx) / e1); p.yp() = (double) ((e0 * p.yp() + L * fy) / e1); p.dp() = (double) (e1 / p1 - 1); LD f = e0 / e1; for(int d = 0; d < 4; d++) for(int e = 0; e <= d; e++) p(d, e) *= (double) ((d % 2 ? f : 1) * (e % 2 ? f : 1)); } }
		p0 = p1; if(ctr) fly(x, L / 2, (double) p0, false); if(bend && i + 1 < nw) { fly(x, 0, (double) p0, true); c.ev("macro-bends"); } else fly(x, 0.2, (double) p0, false); if(N < (size_t) n) c.ev("shared-slices"); }
	if(w.back) c.check(false, "causal", "wake asked for %ld distances ahead of the source", w.back); c.near(b.GetReferenceMomentum(), (double) p0, 0, 1e-11, "macro-reference", "reference momentum after wakes of %g", (double) (p0 - P0)); c.check((int) b.Size() == n, "macro-count", "%zu of %d macro-particles", b.Size(), n); if((int) b.Size() != n) return; c.near(b.GetTotalCharge(), (double) qt, 0, 1e-12, "macro-charge", "charge");
	for(auto& p : x) { kx = std::max({kx, std::fabs(p.xp()), std::fabs(p.yp())}); kz = std::max(kz, std::fabs(p.dp())); } std::map<double, const SMPTracking::SliceMacroParticle*> got; for(auto& p : b) got[p.Q()] = &p; double ms = 0; for(auto& p : x) for(int d = 0; d < 4; d++) ms = std::max(ms, p(d, d)); 
	for(auto& p : x) { auto it = got.find(p.Q()); if(!c.check(it != got.end(), "macro-identity", "macro-particle missing")) continue; auto& q = *it->second; c.near(q.dp(), p.dp(), 1e-9 * kz + 1e-14, 0, "macro-longitudinal", "dp of a macro-particle in a slice of %g", sw); c.near(q.xp(), p.xp(), 1e-9 * kx + 1e-14, 0, "macro-transverse", "xp"); c.near(q.yp(), p.yp(), 1e-9 * kx + 1e-14, 0, "macro-transverse", "yp"); for(int d = 0; d < 4; d++) for(int e = 0; e <= d; e++) c.near(q(d, e), p(d, e), 1e-10 * ms, 1e-8, "macro-moments", "moment %d%d", d, e); c.ev("macro-kicks"); }
	c.note(fmt("%d %.12g %g", n, sz, sw)); c.nontrivial();
}
FAMILY(resistive, 200, 2000) // the thick resistive wall
{
	auto& r = c.rng; int nm = r.range(1, 5); double b = r.logu(1e-4, 1e-1), s = r.logu(1e5, 1e8), L = r.uni(0.01, 5); Quiet q; ResistiveWakePotentials w(nm, b, s, L); double z = r.logu(1e-7, 1); int m = r.range(1, nm); double w1 = w.Wtrans(z, m), w4 = w.Wtrans(4 * z, m); c.check(w.Wtrans(-z, m) == 0 && w.Wlong(-z, m) == 0, "wall-causal", "wake ahead of the source"); c.near(w4, w1 / 2, 0, 1e-12, "wall", "transverse wake falls as the root of the distance"); c.near(w1, sqrt(376.74 / (M_PI * s)) * L / (M_PI * pow(b, 2 * m + 1) * sqrt(z)), 0, 1e-9, "wall", "transverse wake of mode %d", m); c.near(w.Wlong(4 * z, m), 2 * w.Wlong(z, m), 0, 1e-12, "wall", "longitudinal wake"); delete[] w.coeff; c.ev("walls"); c.note(fmt("%.12g", z)); c.nontrivial();
}
