// W06: beam position and profile monitors, their channels, beam records, bad-particle checks, linear feedback.
#include "coll.h"
#include <fstream>
#include <deque>
#include <dirent.h>
#include <unistd.h>
#include "RMSProfileMonitor.h"
#include "MonitorProcess.h"
#include "NANCheckProcess.h"
#include "LinearFBSystem.h"
#include "Channels.h"
#include "BPMChannel.h"
#include "SMPTracker.h"
#include "SMPBunch.h"
#include "ProtonBunch.h"
using namespace coll;
typedef long double LD;
struct Rec { const Monitor* m; bool rms; double v[6], e[6], ct; };
struct BB : BPM::Buffer { std::vector<Rec>* all; void Record(const BPM& b, const BPM::Data& d) override { all->push_back({&b, false, {d.x.value, d.y.value}, {d.x.error, d.y.error}, d.ct}); } };
struct RB : RMSProfileMonitor::Buffer { std::vector<Rec>* all; void Record(const RMSProfileMonitor& b, const RMSProfileMonitor::Data& d) override { all->push_back({&b, true, {d.x0.value, d.y0.value, d.u0.value, d.xrms.value, d.yrms.value, d.urms.value}, {d.x0.error, d.y0.error, d.u0.error, d.xrms.error, d.yrms.error, d.urms.error}, 0}); } };
struct Resp : BPM::Response { double a, b; void Apply(BPM::Data* d) override { double x = d->x.value; d->x.value = a * x; d->y.value = b * d->y.value + x; } };
struct Mon { Monitor* m; bool rms; double s, dx, dy, roll, scx, scy, ang, rx, ry, ru; bool refl, on; Resp* resp; std::vector<int> bufs; };
struct Step : ParticleBunchProcess { double h; Step(double a) : ParticleBunchProcess("step", 0), h(a) {} void SetCurrentComponent(AcceleratorComponent& a) override { currentComponent = &a; active = true; } void DoProcess(double) override {} double GetMaxAllowedStepSize() const override { return std::max(currentComponent->GetLength() * h, 1e-9); } };
static void expect(const PV& v, const std::vector<double>& w, const Mon& m, double turn0, double* o) // what an ideal monitor reads
{
	LD C = cosl((LD) m.roll), S = sinl((LD) m.roll), cu = cosl((LD) m.ang), su = sinl((LD) m.ang), W = 0, a[6] = {0}; for(int pass = 0; pass < 2; pass++)
	{
		if(pass) { a[0] /= W; a[1] /= W; a[2] /= W; } for(size_t i = 0; i < v.size(); i++) { LD s = turn0 + m.s, X = v[i].x() + s * v[i].xp() - m.dx, Y = v[i].y() + s * v[i].yp() - m.dy, x = C * X + S * Y, y = -S * X + C * Y; if(m.refl) x = -x; LD u = cu * x + su * y; if(!pass) { W += w[i]; a[0] += w[i] * x; a[1] += w[i] * y; a[2] += w[i] * u; } else { a[3] += w[i] * (x - a[0]) * (x - a[0]); a[4] += w[i] * (y - a[1]) * (y - a[1]); a[5] += w[i] * (u - a[2]) * (u - a[2]); } }
	}
	for(int i = 0; i < 6; i++) o[i] = (double) (i < 3 ? a[i] : sqrtl(a[i] / W));
}
FAMILY(readings, 1500, 25000)
{
	auto& r = c.rng; AcceleratorModelConstructor mc; std::vector<Mon> mon; double P0 = r.logu(1, 7000), s = 0; int n = r.range(1, 8), nb = r.range(1, 3), nt = r.range(1, 4); std::vector<std::vector<Rec>> rec(2 * nb + 2); std::vector<BB> bb(nb + 1); std::vector<RB> rb(nb + 1); std::vector<std::unique_ptr<Resp>> rs;
	for(int i = 0; i <= nb; i++) { bb[i].all = &rec[i]; rb[i].all = &rec[nb + 1 + i]; } bool def = r.chance(0.2), smp = r.chance(0.2); bool noise = false;
	for(int i = 0; i < n; i++)
	{
		if(r.chance(0.7)) { double L = r.uni(0.05, 5); mc.AppendComponent(*new Drift("D", L)); s += L; }
		Mon m; double L = r.pick({0.0, 0.0, r.logu(0.01, 3)}), mp = L * r.pick({0.0, 0.5, -0.5, r.sym(0.5), 0.25, -0.25}); m.rms = r.chance(0.4) && !smp; m.ang = r.pick({M_PI / 4, 0.0, M_PI / 2, r.sym(3)}); m.s = s + L / 2 + mp; s += L; m.scx = m.scy = 1; m.rx = m.ry = m.ru = 0; m.refl = r.chance(0.2); m.on = !r.chance(0.15); m.resp = nullptr; std::string nm = r.pick<std::string>({"M", "M" + std::to_string(i)});
		if(m.rms) { auto q = new RMSProfileMonitor(nm, m.ang, L, mp); m.m = q; mc.AppendComponent(*q); for(int k = 0; k < nb; k++) if(r.chance(0.6)) { q->AddBuffer(&rb[k]); m.bufs.push_back(k); if(r.chance(0.2)) q->AddBuffer(&rb[k]); } if(!m.bufs.empty() && r.chance(0.15)) { c.check(q->RemoveBuffer(&rb[m.bufs[0]]), "remove", "registered buffer not removed"); c.check(!q->RemoveBuffer(&rb[m.bufs[0]]), "remove", "removed twice"); m.bufs.erase(m.bufs.begin()); } if(r.chance(0.05)) { q->RemoveAllBuffers(); m.bufs.clear(); } }
		else { auto q = new BPM(nm, L, mp); m.m = q; mc.AppendComponent(*q); if(r.chance(0.3)) { m.scx = r.uni(0.5, 2); m.scy = -r.uni(0.5, 2); q->SetScale(m.scx, m.scy); c.ev("scaled"); } if(r.chance(0.2)) { rs.emplace_back(new Resp); m.resp = rs.back().get(); m.resp->a = r.sym(3); m.resp->b = r.sym(3); q->SetResponse(m.resp); c.ev("response"); } for(int k = 0; k < nb; k++) if(r.chance(0.6)) { q->AddBuffer(&bb[k]); m.bufs.push_back(k); if(r.chance(0.2)) q->AddBuffer(&bb[k]); } if(!m.bufs.empty() && r.chance(0.15)) { c.check(q->RemoveBuffer(&bb[m.bufs[0]]), "remove", "registered buffer not removed"); c.check(!q->RemoveBuffer(&bb[m.bufs[0]]), "remove", "removed twice"); m.bufs.erase(m.bufs.begin()); } if(r.chance(0.05)) { q->ClearAllBuffers(); m.bufs.clear(); } }
		if(m.refl) { m.m->RotateY180(); c.ev("reflected"); } if(!m.on) c.check(m.m->SetActive(false), "active", "a new monitor is not active"); m.dx = m.dy = m.roll = 0; mon.push_back(m); if(mp != 0) c.ev("off-centre");
	}
	std::unique_ptr<AcceleratorModel> md(mc.GetModel()); auto bl = md->GetBeamline(); for(auto i = bl.begin(); i != bl.end(); i++) for(auto& m : mon) if(&(*i)->GetComponent() == m.m && r.chance(0.5)) { m.dx = r.sym(5e-3); m.dy = r.sym(5e-3); (*i)->TranslateX(m.dx); (*i)->TranslateY(m.dy); if(r.chance(0.4) && !smp) { m.roll = r.pick({r.sym(0.3), M_PI / 2, r.sym(3)}); (*i)->RotateZ(m.roll); } c.ev("misaligned"); }
	PV v; std::vector<double> w; int np = r.range(1, 30); for(int i = 0; i < np; i++) { PSvector p(0); double sx = r.pick({0.0, 1e-3, 5e-3}); p.x() = 1e-3 + r.normal() * sx; p.y() = r.normal() * 1e-3; p.xp() = r.sym(1e-3); p.yp() = r.sym(1e-3); p.dp() = r.sym(1e-3); v.push_back(p); w.push_back(smp ? r.uni(0.1, 2) : 1); }
	if(r.chance(0.1)) { v.assign(np, v[0]); } if(def) { BPM::SetDefaultBuffer(&bb[nb]); RMSProfileMonitor::SetDefaultBuffer(&rb[nb]); c.ev("default-buffer"); } bool off = r.chance(0.05); Monitor::all_inactive = off; (void) noise; double h = r.chance(0.5) ? r.uni(0.07, 1.2) : r.pick({0.5, 0.25, 0.1, 0.3333333333333333}); bool st = r.chance(0.5);
	std::vector<Rec> base; std::vector<std::vector<Rec>> want(2 * nb + 2); for(int t = 0; t < nt; t++) for(auto& m : mon) if(m.on && !off) { Rec q; q.m = m.m; q.rms = m.rms; q.ct = 0; expect(v, w, m, t * s, q.v); if(!m.rms) { q.v[0] *= m.scx; q.v[1] *= m.scy; if(m.resp) { double x = q.v[0]; q.v[0] = m.resp->a * x; q.v[1] = m.resp->b * q.v[1] + x; } } int b0 = m.rms ? nb + 1 : 0; for(int k : m.bufs) want[b0 + k].push_back(q); if(def) want[b0 + nb].push_back(q); }
	if(smp)
	{
		SMPTracking::SMPBunch b(P0, 1); for(size_t i = 0; i < v.size(); i++) { SMPTracking::SliceMacroParticle p(w[i]); static_cast<PSvector&>(p) = v[i]; b.AddParticle(p); } SMPTracking::SMPTracker t(bl, &b); for(int k = 0; k < nt; k++) t.Track(&b); c.ev("smp");
	}
	else { ParticleBunch b(P0, 1); for(auto& p : v) b.AddParticle(p); ParticleTracker t(bl, &b); if(st) { t.AddProcess(new Step(h)); c.ev("steps"); } for(int k = 0; k < nt; k++) t.Track(&b); }
	BPM::SetDefaultBuffer(nullptr); RMSProfileMonitor::SetDefaultBuffer(nullptr); Monitor::all_inactive = false; if(off) c.ev("all-inactive");
	double scale = 1e-2 + nt * s * 1e-3; for(size_t b = 0; b < rec.size(); b++)
	{
		c.check(rec[b].size() == want[b].size(), "records", "buffer %zu has %zu records, %zu passages of its monitors (steps of %g, %d turns)", b, rec[b].size(), want[b].size(), st ? h : 0, nt); if(rec[b].size() != want[b].size()) continue;
		for(size_t k = 0; k < rec[b].size(); k++) { auto &a = rec[b][k], &e = want[b][k]; c.check(a.m == e.m, "order", "record %zu comes from another monitor", k); if(a.m != e.m) break; c.ev(a.rms ? "profiles" : "positions"); for(int i = 0; i < (a.rms ? 6 : 2); i++) { c.near(a.v[i], e.v[i], (i < 3 ? 1e-13 : 1e-10) * scale * 10, 1e-9, smp ? "smp" : a.rms ? "profile" : "position", "quantity %d of %s, turn of %d", i, a.m->GetName().c_str(), nt); c.near(a.e[i], 0, 0, 0, "error", "stated error"); } }
	}
	c.note(fmt("%.12g %d", s, n)); c.nontrivial();
}
FAMILY(noise, 40, 400) // resolution: spread, independence of the planes, the switch
{
	auto& r = c.rng; RandomNG::init((uint32_t) r.range(1, 1 << 30)); const int N = 4000; double rx = r.logu(1e-7, 1e-3), ry = r.chance(0.2) ? 0 : r.logu(1e-7, 1e-3), ru = r.logu(1e-7, 1e-3); BPM b("B"); RMSProfileMonitor m("M", 0.6); b.SetResolution(rx, ry); m.SetResolution(rx, ry, ru); double sc = r.uni(0.5, 2); b.SetScale(sc, sc); std::vector<Rec> v, u; BB bb; bb.all = &v; RB rb; rb.all = &u; b.AddBuffer(&bb); m.AddBuffer(&rb);
	ParticleBunch p(10, 1); for(int i = 0; i < 5; i++) { PSvector q(0); q.x() = r.sym(1e-3); q.y() = r.sym(1e-3); p.AddParticle(q); } BPM::generate_noise = false; b.MakeMeasurement(p); BPM::generate_noise = true; Rec clean = v[0]; v.clear(); { RMSProfileMonitor z("M", 0.6); z.AddBuffer(&rb); z.MakeMeasurement(p); } Rec cu = u[0]; u.clear(); for(int i = 0; i < N; i++) { b.MakeMeasurement(p); m.MakeMeasurement(p); }
	c.near(clean.v[0], sc * p.GetProjectedCentroid(ps_X, ps_Y).x, 1e-18, 1e-12, "switch", "reading without noise"); c.near(v[0].e[0], rx, 0, 0, "error", "stated resolution"); c.near(v[0].e[1], ry, 0, 0, "error", "stated resolution"); c.near(u[0].e[5], ru, 0, 0, "error", "stated resolution");
	auto stat = [&](const std::vector<Rec>& d, const double* ref, int i, double res, const char* key) { LD a = 0, q = 0; for(auto& k : d) { LD e = k.v[i] - ref[i]; a += e; q += e * e; } a /= N; q = sqrtl(q / N); c.near((double) a, 0, 6.5 * res / sqrt(N) + 1e-15, 0, key, "mean error of quantity %d", i); c.near((double) q, res, 6.5 * res / sqrt(2. * N) + 1e-15, 0, key, "spread of quantity %d", i); };
	stat(v, clean.v, 0, rx * sc, "bpm"); stat(v, clean.v, 1, ry * sc, "bpm"); double rr[6] = {rx, ry, ru, rx, ry, ru}; for(int i = 0; i < 6; i++) stat(u, cu.v, i, rr[i], "profile");
	if(ry > 0) { LD k = 0; for(auto& q : v) k += (q.v[0] - clean.v[0]) * (q.v[1] - clean.v[1]); c.near((double) (k / N / rx / ry / sc / sc), 0, 6.5 / sqrt(N), 0, "independence", "correlation of the planes"); } c.ev("series"); c.note(fmt("%g %g", rx, ry)); c.nontrivial();
}
FAMILY(channels, 300, 5000) // position channels over several generations of models
{
	auto& r = c.rng; int gen = r.range(1, 4); for(int g = 0; g < gen; g++)
	{
		AcceleratorModelConstructor mc; int n = r.range(1, 6); std::vector<BPM*> bp; for(int i = 0; i < n; i++) { mc.AppendComponent(*new Drift("D", 1)); auto b = new BPM(r.pick<std::string>({"B" + std::to_string(i), "B.L" + std::to_string(i) + ".1"}), r.pick({0.0, 0.2})); bp.push_back(b); mc.AppendComponent(*b); } std::unique_ptr<AcceleratorModel> m(mc.GetModel()); auto bl = m->GetBeamline();
		std::vector<ROChannel*> x, y; m->GetROChannels(bl, "BPM.*.X", x); m->GetROChannels(bl, "BPM.*.Y", y); c.check((int) x.size() == n && (int) y.size() == n, "count", "%zu and %zu channels for %d monitors", x.size(), y.size(), n); if((int) x.size() != n || (int) y.size() != n) return; std::vector<double> ox(n, 0), oy(n, 0);
		{ std::vector<RWChannel*> w; m->GetRWChannels(bl, "BPM.*.X", w); c.check(w.empty(), "read-only", "%zu read-write channels of a monitor", w.size()); }
		for(int i = 0; i < n; i++) { c.check(x[i]->GetID() == "BPM." + bp[i]->GetName() + ".X", "id", "channel %d is called %s", i, x[i]->GetID().c_str()); c.near(x[i]->Read(), 0, 0, 0, "before", "reading before any beam, generation %d", g); c.near(y[i]->Read(), 0, 0, 0, "before", "reading before any beam, generation %d", g); }
		for(int t = 0; t < 3; t++)
		{
			for(int i = 0; i < n; i++) { if(r.chance(0.3)) static_cast<BPMChannel*>(x[i])->SetBPMOffset(ox[i] = r.sym(1e-3)); if(r.chance(0.3)) static_cast<BPMChannel*>(y[i])->SetBPMOffset(oy[i] = r.sym(1e-3)); }
			PSvector p(0); p.x() = r.sym(1e-3); p.xp() = r.sym(1e-3); p.y() = r.sym(1e-3); p.yp() = r.sym(1e-3); ParticleBunch b(10, 1); b.AddParticle(p); ParticleTracker tr(bl, &b); tr.Track(&b); double s = 0; std::vector<ROChannel*> again; if(t == 1) { m->GetROChannels(bl, "BPM.*.X", again); c.ev("again"); }
			for(int i = 0; i < n; i++) { double L = bp[i]->GetLength(); s += 1 + L / 2; c.near(x[i]->Read(), p.x() + s * p.xp() + ox[i], 1e-15, 1e-12, "reading", "x of monitor %d, generation %d", i, g); c.near(y[i]->Read(), p.y() + s * p.yp() + oy[i], 1e-15, 1e-12, "reading", "y of monitor %d, generation %d", i, g); if(t == 1) c.near(again[i]->Read(), x[i]->Read(), 0, 0, "again", "second channel of the same monitor"); s += L / 2; c.ev("readings"); }
			for(auto a : again) delete a;
		}
		for(auto a : x) delete a; for(auto a : y) delete a; if(g) c.ev("rebuilt");
	}
	c.note(fmt("%d %g", gen, r.u())); c.nontrivial();
}
struct Ch : RWChannel { std::vector<double>* v; size_t i; int* wr; Ch(std::vector<double>* a, size_t b, int* w) : v(a), i(b), wr(w) {} std::string GetID() const override { return "c" + std::to_string(i); } double Read() const override { return (*v)[i]; } void Write(double x) override { (*v)[i] = x; ++*wr; } };
struct Sig : ROChannel { std::function<double()> f; Sig(std::function<double()> g) : f(g) {} std::string GetID() const override { return "s"; } double Read() const override { return f(); } };
FAMILY(feedback, 1200, 20000)
{
	auto& r = c.rng; int ns = r.range(1, 6), na = r.range(1, 6); RealMatrix M(ns, na); std::vector<std::vector<LD>> A(ns, std::vector<LD>(na)); double sc = r.logu(1e-3, 1e3); for(int i = 0; i < ns; i++) for(int j = 0; j < na; j++) { M(i, j) = sc * (r.sym(1) + (i == j ? 3 : 0)); A[i][j] = M(i, j); }
	// pseudo-inverse of a full-rank matrix from the normal equations
	int k = std::min(ns, na); std::vector<std::vector<LD>> G(k, std::vector<LD>(2 * k, 0)); for(int i = 0; i < k; i++) { for(int j = 0; j < k; j++) for(int l = 0; l < std::max(ns, na); l++) G[i][j] += ns >= na ? A[l][i] * A[l][j] : A[i][l] * A[j][l]; G[i][k + i] = 1; }
	for(int i = 0; i < k; i++) { int p = i; for(int j = i; j < k; j++) if(fabsl(G[j][i]) > fabsl(G[p][i])) p = j; std::swap(G[i], G[p]); LD d = G[i][i]; for(auto& q : G[i]) q /= d; for(int j = 0; j < k; j++) if(j != i) { LD f = G[j][i]; for(int l = 0; l < 2 * k; l++) G[j][l] -= f * G[i][l]; } }
	LD gm = 0; for(int i = 0; i < k; i++) for(int j = 0; j < k; j++) gm = std::max(gm, fabsl(G[i][k + j])); if(gm * sc * sc > 100) { c.nontrivial(); return; } // badly conditioned
	auto pinv = [&](const std::vector<LD>& s) { std::vector<LD> o(na, 0), t(k, 0), u(k, 0); if(ns >= na) { for(int i = 0; i < k; i++) for(int l = 0; l < ns; l++) t[i] += A[l][i] * s[l]; for(int i = 0; i < k; i++) for(int j = 0; j < k; j++) o[i] += G[i][k + j] * t[j]; } else { for(int i = 0; i < k; i++) for(int j = 0; j < k; j++) u[i] += G[i][k + j] * s[j]; for(int i = 0; i < na; i++) for(int l = 0; l < ns; l++) o[i] += A[l][i] * u[l]; } return o; };
	std::vector<double> act(na), dist(ns); for(auto& a : act) a = r.sym(1); for(auto& d : dist) d = r.sym(1) * sc; int writes = 0; std::vector<ROChannel*> sig; std::vector<RWChannel*> ac; for(int i = 0; i < ns; i++) sig.push_back(new Sig([&, i] { LD s = dist[i]; for(int j = 0; j < na; j++) s += A[i][j] * act[j]; return (double) s; })); for(int j = 0; j < na; j++) ac.push_back(new Ch(&act, j, &writes));
	std::unique_ptr<LinearFBSystem> fb; if(r.chance(0.5)) fb.reset(new LinearFBSystem(sig, ac, M)); else { ROChannelArray sa(sig); RWChannelArray aa(ac); fb.reset(new LinearFBSystem(sa, aa, M)); c.ev("arrays"); }
	c.check(fb->GetNumSignals() == ns && fb->GetNumActuators() == na, "size", "%d signals, %d actuators", fb->GetNumSignals(), fb->GetNumActuators()); std::vector<double> set(ns, 0); if(r.chance(0.3)) { for(int i = 0; i < ns; i++) set[i] = sig[i]->Read(); fb->SignalsToSetpoints(); c.ev("setpoints"); } else if(r.chance(0.5)) { RealVector S(ns); for(int i = 0; i < ns; i++) S[i] = set[i] = r.sym(1) * sc; fb->SetSetpoints(S); c.ev("setpoints"); }
	double g = 1; if(r.chance(0.7)) fb->SetGain(g = r.pick({0.1, 0.5, 1.0, r.uni(0, 1), 0.0})); c.near(fb->GetGain(), g, 0, 0, "gain", "gain"); int delay = r.chance(0.4) ? r.range(1, 5) : 1; if(delay > 1 || r.chance(0.2)) fb->SetPulseDelay(delay); if(delay > 1) c.ev("delayed"); c.check(writes == 0, "silent", "actuators written before the first pulse");
	std::deque<std::vector<double>> q; for(int i = 1; i < delay; i++) q.push_back(act); std::vector<double> stored; double mx = 10;
	for(int t = 0; t < 12; t++)
	{
		if(r.chance(0.15)) { for(auto& d : dist) d = r.sym(1) * sc; } if(r.chance(0.1)) { stored = act; fb->StoreActuators(); } if(!stored.empty() && r.chance(0.1)) { fb->RestoreActuators(); c.check(act == stored, "restore", "actuators differ from the stored ones"); c.ev("restored"); } if(r.chance(0.05)) fb->SetGain(g = r.u()); if(r.chance(0.05)) { RealVector S(ns); for(int i = 0; i < ns; i++) S[i] = set[i] = r.sym(1) * sc; fb->SetSetpoints(S); }
		std::vector<LD> err(ns); LD sq = 0, aq = 0; for(int i = 0; i < ns; i++) { err[i] = (LD) sig[i]->Read() - set[i]; sq += err[i] * err[i]; } for(double a : act) { aq += (LD) a * a; mx = std::max(mx, std::fabs(a)); } c.near(fb->GetSignalRMS(), (double) sqrtl(sq / ns), 1e-13 * sc * mx, 1e-10, "rms", "signal rms"); c.near(fb->GetActuatorRMS(), (double) sqrtl(aq / na), 1e-13 * mx, 1e-10, "rms", "actuator rms");
		auto d = pinv(err); std::vector<double> want(na); for(int j = 0; j < na; j++) want[j] = (double) (act[j] - g * d[j]); q.push_back(want); want = q.front(); q.pop_front(); std::vector<double> before = act; writes = 0; fb->Apply(); c.check(writes == na, "writes", "%d writes of %d actuators", writes, na);
		for(int j = 0; j < na; j++) { c.near(act[j], want[j], 1e-11 * mx * (double) (1 + gm * sc * sc), 0, delay > 1 ? "delay" : "apply", "actuator %d after pulse %d with gain %g", j, t, g); } if(delay > 1) q.back() = q.back(); c.ev("pulses");
		if(mx > 1e4) break; // an unstable delayed loop
	}
	c.note(fmt("%.12g %d %d", sc, ns, na)); c.nontrivial();
}
static std::string slurp(const std::string& f) { std::ifstream i(f); return std::string(std::istreambuf_iterator<char>(i), {}); }
FAMILY(records, 250, 3000) // bunches written at chosen elements
{
	auto& r = c.rng; std::string dir = vh::scratch(); AcceleratorModelConstructor mc; int n = r.range(2, 8); std::vector<std::string> nm; std::vector<double> len; for(int i = 0; i < n; i++) { std::string s = r.pick<std::string>({"A", "B" + std::to_string(i), "C"}); double L = r.pick({0.0, 1.0, r.uni(0.1, 3), 1200.0}); if(L == 1200 && !r.chance(0.2)) L = 2; nm.push_back(s); len.push_back(L); mc.AppendComponent(*new Drift(s, L)); if(L > 1000) c.ev("long"); } std::unique_ptr<AcceleratorModel> m(mc.GetModel());
	auto p = new MonitorProcess("MON", 5, r.chance(0.5) ? dir + "/w06_" : ""); p->SetPrefix(dir + "/w06_"); std::set<std::string> at; for(int i = 0; i < n; i++) if(r.chance(0.4)) { p->AddElement(nm[i]); at.insert(nm[i]); } p->AddElement("NOTHERE"); ParticleBunch b(r.logu(1, 7000), 1); PV v; for(int i = 0; i < r.range(1, 5); i++) { PSvector q(0); q.x() = r.sym(1e-3); q.xp() = r.sym(1e-3); q.y() = r.sym(1e-3); v.push_back(q); b.AddParticle(q); }
	{ Quiet q; ParticleTracker t(m->GetBeamline(), &b); t.AddProcess(p); if(r.chance(0.5)) { t.AddProcess(new Step(r.uni(0.1, 1))); c.ev("steps"); } int nt = r.range(1, 2), k = 1; for(int i = 0; i < nt; i++) t.Track(&b); double s = 0; std::set<std::string> files; for(int i = 0; i < nt; i++) for(int j = 0; j < n; j++) { s += len[j]; if(!at.count(nm[j])) continue; std::string f = "w06_" + nm[j] + "_" + std::to_string(k++); files.insert(f); std::ifstream in(dir + "/" + f); c.check(in.good(), "missing", "no record %s", f.c_str()); if(!in.good()) continue; std::vector<double> d; std::string line; while(std::getline(in, line)) { if(line.empty() || line[0] == '#') continue; std::istringstream is(line); double x; while(is >> x) d.push_back(x); } c.check(d.size() == 8 * v.size(), "content", "%zu numbers for %zu particles in %s", d.size(), v.size(), f.c_str()); if(d.size() == 8 * v.size()) for(size_t l = 0; l < v.size(); l++) c.near(d[8 * l + 2], v[l].x() + s * v[l].xp(), 1e-12, 1e-9, "content", "x of particle %zu in %s", l, f.c_str()); c.ev("written"); }
	  std::vector<std::string> there; DIR* dd = opendir(dir.c_str()); while(auto e = readdir(dd)) if(!strncmp(e->d_name, "w06_", 4)) there.push_back(e->d_name); closedir(dd); for(auto& e : there) { c.check(files.count(e) == 1, "surplus", "unexpected record %s", e.c_str()); unlink((dir + "/" + e).c_str()); } }
	c.note(fmt("%d %g", n, v[0].x())); c.nontrivial();
}
struct Poison : ParticleBunchProcess { std::function<void(AcceleratorComponent*, PV&)> f; Poison(int p, std::function<void(AcceleratorComponent*, PV&)> g) : ParticleBunchProcess("poison", p), f(g) {} void SetCurrentComponent(AcceleratorComponent& a) override { currentComponent = &a; active = true; } void DoProcess(double) override { f(currentComponent, currentBunch->GetParticles()); } double GetMaxAllowedStepSize() const override { return 1e9; } };
FAMILY(bad_particles, 400, 5000)
{
	auto& r = c.rng; AcceleratorModelConstructor mc; int n = r.range(2, 6); for(int i = 0; i < n; i++) mc.AppendComponent(*new Drift("D" + std::to_string(i), 1)); std::unique_ptr<AcceleratorModel> m(mc.GetModel()); bool ids = r.chance(0.7), cull = r.chance(0.6), det = r.chance(0.4); ProtonBunch b(100, 2); int64_t base = r.pick({10.0, 5e9, 2.0 * 9007199254740992.0}); if(base > 10) c.ev("large-ids"); int np = r.range(1, 12); for(int i = 0; i < np; i++) { PSvector q(0); q.x() = r.sym(1e-3); q.xp() = 1e-4; q.id() = ids ? base + i : 3; b.AddParticle(q); } double q1 = b.GetTotalCharge() / np;
	std::vector<std::string> want; std::set<int64_t> seen; PV after; auto bad = [](const PSvector& p) { for(int i = 0; i < 6; i++) if(!std::isfinite(p[i])) return true; return false; }; auto p = new NANCheckProcess("NAN", 3); p->SetDetailed(det); p->SetCullNAN(cull); std::ostringstream out; auto old = std::cout.rdbuf(out.rdbuf());
	{ ParticleTracker t(m->GetBeamline(), &b); t.AddProcess(new Poison(1, [&](AcceleratorComponent* a, PV& v) { for(auto& x : v) if(r.chance(0.12)) x[r.range(0, 5)] = r.pick({NAN, INFINITY, -INFINITY}); after.clear(); size_t k = 0; for(auto& x : v) { if(bad(x)) { if(!seen.count(x.id())) { want.push_back(fmt("NAN entry found in currentBunch[%zu], p.id = %lld, at %s", k, (long long) x.id(), a->GetQualifiedName().c_str())); seen.insert(x.id()); } if(!cull) after.push_back(x); } else after.push_back(x); k++; } })); t.AddProcess(p);
	  t.AddProcess(new Poison(5, [&](AcceleratorComponent*, PV& v) { bool eq = v.size() == after.size(); for(size_t i = 0; eq && i < v.size(); i++) eq = std::memcmp(&v[i][0], &after[i][0], 48) == 0 && v[i].id() == after[i].id(); c.check(eq, cull ? "cull" : "untouched", "%zu particles after the check, %zu expected", v.size(), after.size()); c.ev(cull ? "culled" : "kept"); })); t.Track(&b); }
	std::cout.rdbuf(old); std::vector<std::string> got; std::istringstream is(out.str()); std::string l; int det_lines = 0; while(std::getline(is, l)) { if(l.substr(0, 3) == "NAN") got.push_back(l); if(l.substr(0, 7) == "current") det_lines++; } c.check(got == want, "reports", "%zu reports, %zu bad particles; first '%s' against '%s'", got.size(), want.size(), got.empty() ? "" : got[0].c_str(), want.empty() ? "" : want[0].c_str()); c.check(det_lines == (int) want.size(), "reports", "%d coordinates printed for %zu reports", det_lines, want.size()); c.ev("reports", want.size()); if(b.size()) c.near(b.GetTotalCharge(), q1 * b.size(), 0, 1e-12, "charge", "charge of the remaining particles"); c.note(fmt("%d %g", np, b.size() ? b.begin()->x() : 0)); c.nontrivial();
}
