// T06: a misaligned element acts as the aligned one seen from displaced coordinates.
#include "lattice.h"
#include "pose.h"
typedef pose::T T; typedef long double LD;
struct Node { LatticeFrame* f; int up; LD s0 = 0, len = 0; int a = 0, z = 0; T loc; T P; }; // P: actual pose of the origin
struct Leaf { ComponentFrame* f; int node; LD s0, len, h; };
struct W { std::unique_ptr<AM> m; std::vector<Node> n; std::vector<Leaf> l; };
static T path(const W& w, LD s) { T t; for(auto& x : w.l) { LD d = std::min(x.len, std::max<LD>(0, s - x.s0)); t = pose::arc(d, x.h) * t; } return t; } // ideal pose along the reference orbit
static W build(Case& c, double P0, int nc, bool driftonly)
{
	W w; AcceleratorModelConstructor mc; std::vector<int> st; LD s = 0; int cur = 0; auto close = [&] { w.n[st.back()].z = cur; w.n[st.back()].len = s - w.n[st.back()].s0; mc.EndFrame(); st.pop_back(); };
	struct Tmp { int up; LD s0, len, h; }; std::vector<Tmp> tmp; std::vector<bool> isnew;
	for(int i = 0; i < nc; i++)
	{
		while(st.size() < 3 && c.rng.chance(0.3)) { SequenceFrame* f = c.rng.chance(0.5) ? new SequenceFrame("S") : (SequenceFrame*) new GirderMount("G"); mc.NewFrame(f); Node n; n.f = f; n.up = st.empty() ? -1 : st.back(); n.s0 = s; n.a = i; w.n.push_back(n); st.push_back(w.n.size() - 1); c.ev("frames"); }
		int t = driftonly ? c.rng.pick({DRIFT, DRIFT, MARKER}) : c.rng.pick({DRIFT, DRIFT, MARKER, QUAD, QUAD, SKEWQUAD, SEXT, OCT, XCOR, YCOR, SBEND, SBEND, SOLENOID, MONITOR, COLL}); AcceleratorComponent* a = make(c, t, c.rng.pick({"A", "B", "Q1"}), c.rng.uni(0.05, 1.5), P0, 0.3); append(mc, t, a); LD h = 0; if(auto b = dynamic_cast<SectorBend*>(a)) { if(b->GetGeometry().GetTilt() != 0) b->GetGeometry().SetTilt(0); h = b->GetGeometry().GetCurvature(); c.ev("arcs"); }
		tmp.push_back({st.empty() ? -1 : st.back(), s, a->GetLength(), h}); s += a->GetLength(); cur = i; while(!st.empty() && c.rng.chance(0.35)) close();
	}
	while(!st.empty()) close(); w.m.reset(mc.GetModel()); AM::Beamline b = w.m->GetBeamline(); size_t k = 0; for(auto i = b.begin(); i != b.end(); i++, k++) { w.l.push_back({*i, -1, tmp[k].s0, tmp[k].len, tmp[k].h}); Node n; n.f = *i; n.up = tmp[k].up; n.s0 = tmp[k].s0; n.len = tmp[k].len; w.l.back().node = w.n.size(); w.n.push_back(n); } return w;
}
static void misalign(Case& c, W& w, double sc, bool flip)
{
	for(auto& n : w.n)
	{
		if(c.rng.chance(0.5)) continue; int k = c.rng.range(1, 4); for(int i = 0; i < k; i++) { double d = c.rng.sym(sc); switch(c.rng.range(0, 7)) { case 0: n.f->TranslateX(d); n.loc = pose::trans(d, 0, 0) * n.loc; break; case 1: n.f->TranslateY(d); n.loc = pose::trans(0, d, 0) * n.loc; break; case 2: n.f->TranslateZ(d); n.loc = pose::trans(0, 0, d) * n.loc; break; case 3: n.f->RotateX(d); n.loc = pose::rotT(0, d) * n.loc; break; case 4: n.f->RotateY(d); n.loc = pose::rotT(1, d) * n.loc; break; case 5: n.f->RotateZ(d); n.loc = pose::rotT(2, d) * n.loc; break; case 6: if(flip) { double a = c.rng.pick({M_PI / 2, -M_PI / 2, c.rng.sym(3)}); n.f->RotateZ(a); n.loc = pose::rotT(2, a) * n.loc; c.ev("rolled"); } break; default: { int z = c.rng.range(0, 2); if(z == 0) n.f->RotateX(0); else if(z == 1) n.f->RotateY(0); else n.f->RotateZ(0); } } } c.ev("misaligned");
	}
	for(auto& n : w.n) if(dynamic_cast<GirderMount*>(n.f)) n.loc = pose::of(n.f->GetLocalFrameTransform()); // supports: see G02
	for(auto& n : w.n) // parents come first within the frames; components follow
	{
		T up; LD so = 0; if(n.up >= 0) { up = w.n[n.up].P; so = w.n[n.up].s0 + w.n[n.up].len / 2; } else { LD tot = 0; for(auto& x : w.l) tot += x.len; so = 0; } // top frame: global pose along the reference orbit
		T from = path(w, so), to = path(w, n.s0 + n.len / 2); n.P = n.loc * (to * from.inv()) * (n.up >= 0 ? up : from);
	}
}
static PSvector ray(const T& t, PSvector p) { pose::V x = t(pose::V{{p.x(), p.y(), 0}}), v = t.A * pose::V{{p.xp(), p.yp(), 1}}; LD a = v[0] / v[2], b = v[1] / v[2]; p.x() = x[0] - x[2] * a; p.y() = x[1] - x[2] * b; p.xp() = a; p.yp() = b; return p; }
static void app(ParticleBunch& b, const T& t) { for(auto& p : b) p = ray(t, p); }
static double worst(const ParticleBunch& a, const ParticleBunch& b, int n) { double m = 0; auto j = b.begin(); for(auto i = a.begin(); i != a.end(); i++, j++) for(int k = 0; k < n; k++) { double d = std::fabs((*i)[k] - (*j)[k]); if(!(d <= m)) m = d; } return m; }
FAMILY(displaced, 5000, 80000)
{
	double P0 = c.rng.logu(0.5, 1000); W w = build(c, P0, c.rng.range(1, 10), false); double sc = c.rng.pick({1e-5, 1e-3, 1e-2}); misalign(c, w, sc, c.rng.chance(0.5)); size_t N = w.l.size(), i0 = c.rng.range(0, N - 1), i1 = c.rng.range(i0, N - 1); bool cut = false; for(size_t k = 0; k + N < w.n.size(); k++) { int a = w.n[k].a, z = w.n[k].z; cut = cut || (a < (int) i0 && (int) i0 <= z) || (a <= (int) i1 && (int) i1 < z); } if(cut) { i0 = 0; i1 = N - 1; } else if(N > 1) c.ev("sections"); int is = c.rng.range(0, 2); double q = 1; ParticleBunch b0(P0, q); for(int i = 0; i < 4; i++) b0.AddParticle(part(c, i));
	ParticleTracker t(w.m->GetBeamline(i0, i1), &b0); t.SetIntegratorSet(&iset(is)); Quiet qq; ParticleBunch& r = static_cast<ParticleBunch&>(t.Run()); ParticleBunch o(b0); ParticleComponentTracker ct(iset(is)); ct.SetBunch(o);
	for(size_t i = i0; i <= i1; i++) { auto& x = w.l[i]; T P = w.n[x.node].P, in = pose::arc(-x.len / 2, x.h) * P, out = pose::arc(x.len / 2, x.h) * P; app(o, in * path(w, x.s0).inv()); x.f->GetComponent().PrepareTracker(ct); ct.Track(); ct.Reset(); app(o, path(w, x.s0 + x.len) * out.inv()); }
	bool ok = true; for(auto& p : o) for(int k = 0; k < 6; k++) ok = ok && std::fabs(p[k]) < 0.5; if(!ok) return; // lost far off axis: rounding is amplified
	c.near(worst(r, o, 6), 0, 1e-9, 0, "displaced", "%zu..%zu of %zu set %d scale %g", i0, i1, N, is, sc); c.ev("compared"); c.note(P0); c.nontrivial();
}
// misaligned field-free regions
FAMILY(empty, 4000, 60000)
{
	double P0 = c.rng.logu(0.5, 1000); W w = build(c, P0, c.rng.range(1, 8), true); double sc = c.rng.pick({1e-4, 1e-2}); misalign(c, w, sc, true); LD tot = 0; for(auto& x : w.l) tot += x.len; int is = c.rng.range(0, 2); bool on = c.rng.chance(0.5); ParticleBunch b0(P0, 1); for(int i = 0; i < 4; i++) { PSvector p = part(c, i); if(is == 1) { if(on) p.dp() = 0; } b0.AddParticle(p); }
	ParticleTracker t(w.m->GetBeamline(), &b0); t.SetIntegratorSet(&iset(is)); Quiet qq; ParticleBunch& r = static_cast<ParticleBunch&>(t.Run()); auto j = b0.begin();
	for(auto& p : r) { double s = 1; if(is == 1) s = 1 / std::sqrt(std::pow(1 + j->dp(), 2) - j->xp() * j->xp() - j->yp() * j->yp()); double tol = is == 1 ? 1e-3 * sc * (1 + double(tot)) : 1e-10; const char* key = is == 1 ? on ? "empty-symplectic" : "empty-symplectic-off-momentum" : "empty"; if(is == 1 && !on) tol = 1e-5 * sc; c.near(p.x(), j->x() + double(tot) * s * j->xp(), tol, 1e-10, key, "x"); c.near(p.y(), j->y() + double(tot) * s * j->yp(), tol, 1e-10, key, "y"); c.near(p.xp(), j->xp(), tol, 1e-10, key, "xp"); c.near(p.yp(), j->yp(), tol, 1e-10, key, "yp"); c.check(p.dp() == j->dp(), key); j++; }
	c.ev("empty"); c.note(P0); c.nontrivial();
}
// zero is no rotation, and taking a misalignment back restores the aligned result exactly
FAMILY(undone, 2000, 30000)
{
	double P0 = c.rng.logu(0.5, 1000); W w = build(c, P0, c.rng.range(1, 8), false); int is = c.rng.range(0, 2); ParticleBunch b0(P0, 1); for(int i = 0; i < 4; i++) b0.AddParticle(part(c, i)); ParticleTracker t(w.m->GetBeamline(), &b0); t.SetIntegratorSet(&iset(is)); Quiet qq; ParticleBunch a(static_cast<ParticleBunch&>(t.Run()));
	for(auto& n : w.n) { n.f->RotateX(0); n.f->RotateY(0); n.f->RotateZ(0); n.f->TranslateX(0); n.f->TranslateY(0); n.f->TranslateZ(0); } c.near(worst(static_cast<ParticleBunch&>(t.Run()), a, 6), 0, 0, 0, "zero");
	misalign(c, w, 1e-3, true); t.Run(); for(auto& n : w.n) n.f->ClearLocalFrameTransform(); c.near(worst(static_cast<ParticleBunch&>(t.Run()), a, 6), 0, 0, 0, "cleared"); c.ev("restored"); c.note(P0); c.nontrivial();
}
