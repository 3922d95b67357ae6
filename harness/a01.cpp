// A01: ATL ground motion: covariance of the offsets against the law, reproducibility, vibration, reset, the machine it moves.
#include "coll.h"
#include <fstream>
#include <unistd.h>
#include "ATL2D.h"
#include "SimpleATL.h"
#include "SupportStructure.h"
#include "RandomNG.h"
using namespace coll;
typedef long double LD; typedef std::vector<double> Vd;
struct Ground // one of the two models behind one face
{
	std::unique_ptr<SimpleATL> s; std::unique_ptr<ATL2D> p;
	double step(double dt) { return s ? s->DoStep(dt) : p->DoStep(dt); } void reset() { s ? s->Reset() : p->Reset(); } double time() { return s ? s->GetTime() : p->GetTime(); }
	void seed(unsigned q) { s ? s->SetRandomSeed(q) : p->SetRandomSeed(q); } void reseed() { s ? s->ResetRandomSeed() : p->ResetRandomSeed(); } unsigned getseed() { return s ? s->GetRandomSeed() : p->GetRandomSeed(); } void record(std::ostream& o) { s ? s->RecordOffsets(o) : p->RecordOffsets(o); }
};
struct Site { std::vector<std::unique_ptr<AcceleratorSupport>> own; AcceleratorSupportList l; Vd s, x, z; double ref[2]; double dist(int i, int j) const { return hypot(x[i] - x[j], z[i] - z[j]); } double dref(int i) const { return hypot(x[i] - ref[0], z[i] - ref[1]); } };
static void site(vh::Case& c, Site& w, int n, bool negative) // supports along a curve; the list is in any order
{
	auto& r = c.rng; double s = negative ? -r.logu(0.1, 1000) : r.pick({0.0, 0.0, r.logu(0.1, 1000)}), sc = r.logu(0.1, 300), h = r.pick({0.0, r.sym(1) / (n * sc)}), th = r.sym(M_PI), x = r.pick({0.0, r.sym(100)}), z = r.pick({0.0, r.sym(100)}); w.ref[0] = r.pick({0.0, r.sym(50)}); w.ref[1] = r.pick({0.0, r.sym(50)});
	for(int i = 0; i < n; i++) { if(i) { double d = r.chance(0.1) ? 0 : sc * r.uni(0.2, 2); s += d; x += d * sin(th + h * s); z += d * cos(th + h * s); } w.own.emplace_back(new AcceleratorSupport); w.own.back()->SetPosition(s, x, z); }
	if(r.chance(0.3)) { int k = r.range(0, n - 1); auto q = w.own[k]->GetLocation(); w.ref[0] = q.x; w.ref[1] = q.y; c.ev("reference-at-a-support"); }
	std::vector<int> o(n); for(int i = 0; i < n; i++) o[i] = i; if(r.chance(0.6)) r.shuffle(o); for(int i : o) { w.l.push_back(w.own[i].get()); w.s.push_back(w.own[i]->GetArcPosition()); w.x.push_back(w.own[i]->GetLocation().x); w.z.push_back(w.own[i]->GetLocation().y); }
}
static void offsets(vh::Case& c, const Site& w, Vd& y) { y.resize(w.l.size()); for(size_t i = 0; i < y.size(); i++) { auto& o = w.l[i]->GetOffset(); y[i] = o.y; if(!(o.x == 0 && o.z == 0)) c.fail("other-directions", "motion in x or z"); if(!std::isfinite(o.y)) c.fail("not-finite", vh::fmt("support %zu of %zu: offset %g", i, y.size(), o.y)); } }
// whitening of relative displacements with the expected covariance; coincident supports are compared directly
struct White
{
	int n; std::vector<int> use; std::vector<std::vector<LD>> L; bool rel; std::vector<std::pair<int, int>> same;
	White(const Site& w, bool plane, bool relative, double at, double v2) : n(w.l.size()), rel(relative)
	{
		auto D = [&](int i, int j) { return plane ? w.dist(i, j) : fabs(w.s[i] - w.s[j]); }; auto R = [&](int i) { return rel ? D(i, 0) : plane ? w.dref(i) : fabs(w.s[i]); };
		std::vector<std::vector<LD>> K(n, std::vector<LD>(n)); LD big = 0; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { K[i][j] = at * ((LD) R(i) + R(j) - D(i, j)) / 2 + (rel ? v2 * ((i == j) + 1.0L) : v2 * (i == j)); big = std::max(big, K[i][j]); }
		L.assign(n, std::vector<LD>(n, 0)); for(int i = rel ? 1 : 0; i < n; i++)
		{
			std::vector<LD> row(n, 0); LD d = K[i][i]; for(size_t a = 0; a < use.size(); a++) { LD q = K[i][use[a]]; for(size_t b = 0; b < a; b++) q -= row[b] * L[use[a]][b]; row[a] = q / L[use[a]][a]; d -= row[a] * row[a]; }
			if(d > 1e-9L * big) { row[use.size()] = sqrtl(d); L[i] = row; use.push_back(i); } else if(!v2) { if(!rel && R(i) == 0) same.push_back({i, -1}); for(int j = 0; j < i; j++) if(D(i, j) == 0) same.push_back({i, j}); if(rel && D(i, 0) == 0) same.push_back({i, 0}); }
		}
	}
	void operator()(const Vd& y, Vd& u) const { u.assign(use.size(), 0); for(size_t a = 0; a < use.size(); a++) { LD q = y[use[a]] - (rel ? y[0] : 0); for(size_t b = 0; b < a; b++) q -= L[use[a]][b] * u[b]; u[a] = (double) (q / L[use[a]][a]); } }
};
struct Stat { std::vector<LD> m, q, f; std::vector<std::vector<LD>> x; long N = 0; void add(const Vd& u) { size_t k = u.size(); if(m.empty()) { m.assign(k, 0); q = f = m; x.assign(k, m); } for(size_t i = 0; i < k; i++) { m[i] += u[i]; q[i] += u[i] * u[i]; f[i] += u[i] * u[i] * u[i] * u[i]; for(size_t j = 0; j < i; j++) x[i][j] += u[i] * u[j]; } N++; } };
static void judge(vh::Case& c, const Stat& t, const char* key, const char* what)
{
	LD N = t.N; LD pool = 0; size_t k = t.m.size(); for(size_t i = 0; i < k; i++)
	{
		LD a = t.m[i] / sqrtl(N), b = (t.q[i] - N) / sqrtl(2 * N), d = (t.f[i] - 3 * N) / sqrtl(96 * N); pool += t.q[i] - N; c.check(fabsl(a) < 7, key, "%s: mean of direction %zu of %zu is %Lg sigma from zero", what, i, k, a); c.check(fabsl(b) < 7, key, "%s: variance of direction %zu of %zu is %Lg of the expected (%Lg sigma)", what, i, k, t.q[i] / N, b); c.check(fabsl(d) < 12, key, "%s: fourth moment of direction %zu is %Lg sigma from the normal one", what, i, d);
		for(size_t j = 0; j < i; j++) c.check(fabsl(t.x[i][j]) < 7 * sqrtl(N), key, "%s: correlation of directions %zu and %zu is %Lg sigma", what, i, j, t.x[i][j] / sqrtl(N));
	}
	if(k) c.check(fabsl(pool) < 7 * sqrtl(2 * N * k), key, "%s: pooled variance is %Lg of the expected", what, 1 + pool / (N * k));
}
FAMILY(law, 160, 1200)
{
	auto& r = c.rng; RandomNG::init((uint32_t) c.rng.next()); Site w; bool plane = r.chance(0.6), inc = plane && r.chance(0.5); site(c, w, r.range(2, 7), r.chance(0.3)); double A = r.logu(1e-20, 1e-3), v = r.chance(0.4) && !inc ? r.logu(0.1, 3) : 0; int K = r.range(1, 3); Vd dt; double T = 0; for(int i = 0; i < K; i++) { dt.push_back(r.logu(0.01, 1e5)); if(i && r.chance(0.5)) dt.back() = dt[0] * r.uni(0.3, 2); T += dt.back(); }
	double ext = 1e-9; for(size_t i = 0; i < w.s.size(); i++) ext = std::max(ext, plane ? w.dist(i, 0) : fabs(w.s[i] - w.s[0])); v *= sqrt(A * T * ext); Ground g; if(plane) { g.p.reset(new ATL2D(A, w.l, Point2D(w.ref[0], w.ref[1]))); c.check(g.p->SetATLMode(inc ? ATL2D::increment : ATL2D::absolute), "mode"); if(!inc) c.check(g.p->SetVibration(v), "vibration-accepted"); else c.check(!g.p->SetVibration(1), "vibration-accepted", "accepted where it is not applied"); } else g.s.reset(new SimpleATL(A, w.l, v));
	g.seed(r.range(0, 1000)); std::vector<White> rel, inr; double t = 0; for(int k = 0; k < K; k++) { t += dt[k]; rel.emplace_back(w, plane, true, A * t, v * v); inr.emplace_back(w, plane, true, A * dt[k], 0); } White refw(w, plane, false, A * T, v * v);
	std::vector<Stat> S(K), I(K), X(1); int M = 2500; Vd y, y0, u; for(int m = 0; m < M; m++)
	{
		g.reset(); offsets(c, w, y); for(double q : y) if(q != 0) c.fail("reset", vh::fmt("offset %g after Reset", q)); if(g.time() != 0) c.fail("reset", "time after Reset"); t = 0; Vd all; y0 = y; for(int k = 0; k < K; k++)
		{
			t += dt[k]; double tt = g.step(dt[k]); if(!(fabs(tt - t) <= 1e-13 * t && g.time() == tt)) c.fail("time", vh::fmt("time %g after steps adding to %g", tt, t)); offsets(c, w, y); rel[k](y, u); S[k].add(u); bool walk = !plane ? v == 0 : inc; if(walk) { Vd d(y.size()); for(size_t i = 0; i < y.size(); i++) d[i] = y[i] - y0[i]; inr[k](d, u); all.insert(all.end(), u.begin(), u.end()); y0 = y; }
			double far = ext; for(size_t i = 0; i < w.s.size(); i++) far = std::max(far, plane ? w.dref(i) : fabs(w.s[i])); double tol = 1e-6 * sqrt(A * t * far); for(auto& e : rel[k].same) if(fabs(y[e.first] - y[e.second]) > tol) c.fail("coincident", vh::fmt("supports at one place moved by %g and %g", y[e.first], y[e.second]));
		}
		if(!all.empty()) I[0].add(all); if(plane) { refw(y, u); X[0].add(u); double big = 0; for(size_t i = 0; i < w.s.size(); i++) big = std::max(big, w.dref(i)); for(auto& e : refw.same) if(e.second < 0 && fabs(y[e.first]) > 1e-6 * sqrt(A * T * big)) c.fail("reference", vh::fmt("support at the reference point moved by %g", y[e.first])); }
	}
	for(int k = 0; k < K; k++) judge(c, S[k], plane ? inc ? "law/plane-increments" : "law/plane-absolute" : "law/arc", "offsets"); if(I[0].N) { judge(c, I[0], plane ? "law/plane-independence" : "law/arc-independence", "increments of successive steps"); c.ev("increments", I[0].N); } if(X[0].N) judge(c, X[0], "law/reference", "offsets from the reference point");
	c.ev("trials", M); c.ev(plane ? inc ? "plane-increments" : "plane-absolute" : "arc"); if(v) c.ev("vibration"); for(auto& e : rel[0].same) (void) e, c.ev("coincident-supports"); c.note(A); c.note(T); c.note(y[0]); c.nontrivial();
}
FAMILY(operations, 1200, 20000)
{
	auto& r = c.rng; unsigned ms = c.rng.next(); Site w[2]; bool plane = r.chance(0.6); { uint64_t q = r.next(); for(int k = 0; k < 2; k++) { auto sv = c.rng; vh::Rng rr(q); c.rng = rr; site(c, w[k], 1 + q % 12, q & 64); c.rng = sv; } } double A = r.logu(1e-20, 1e-3), f = r.pick({1.0, 4.0, 0.25, r.logu(0.01, 100)}), v = r.chance(0.5) ? r.logu(1e-9, 1e-3) : 0, ft = r.pick({1.0, 4.0, r.logu(0.01, 100)});
	// two runs of one history from the same seed: the second with A, times and the vibration scaled so that every offset scales by g
	double g = sqrt(f * ft); std::vector<Vd> out[2]; std::vector<int> ops; int n = r.range(3, 25); for(int i = 0; i < n; i++) ops.push_back(r.range(0, 99)); uint64_t hist = r.next(); int other = r.range(0, 1); long steps = 0;
	for(int k = 0; k < 2; k++)
	{
		RandomNG::init(ms); vh::Rng h(hist); Site& s = w[k]; double a = k ? A * f : A, tf = k ? ft : 1, vf = k ? g : 1; Ground G; if(plane) { G.p.reset(new ATL2D(a, s.l, Point2D(s.ref[0], s.ref[1]))); if(!other) G.p->SetVibration(v * vf); } else G.s.reset(new SimpleATL(a, s.l, v * vf)); unsigned seed = h.range(0, 5); G.seed(seed); c.check(G.getseed() == seed, "seed"); double t = 0; bool inc = false, vib = plane && !other && v; Vd y; offsets(c, s, y); Vd prev = y; bool walk = !plane;
		for(int op : ops)
		{
			double dt = h.logu(1e-3, 1e7) * tf; int extra = h.range(0, 3);
			if(op < 60) { if(op < 6) dt = 0; double q = G.step(dt); t += dt; steps++; c.check(fabs(q - t) <= 1e-12 * t && q == G.time(), "time", "%g for %g", q, t); offsets(c, s, y); if(dt == 0 && (inc || (walk && !v))) for(size_t i = 0; i < y.size(); i++) c.check(y[i] == prev[i], "no-time-no-motion", "%g -> %g in a step of no time", prev[i], y[i]); prev = y; out[k].push_back(y); if(dt == 0) c.ev("zero-steps"); }
			else if(op < 70) { G.reset(); t = 0; offsets(c, s, y); for(double q : y) c.check(q == 0, "reset", "offset %g after Reset", q); c.check(G.time() == 0, "reset", "time %g", G.time()); prev = y; c.ev("resets"); }
			else if(op < 75) { G.seed(seed = extra); c.check(G.getseed() == seed, "seed"); } else if(op < 80) G.reseed();
			else if(op < 88 && plane) { bool want = extra & 1; if(!(vib && want) && !(inc && vib)) { c.check(G.p->SetATLMode(want ? ATL2D::increment : ATL2D::absolute), "mode"); inc = want; c.ev(want ? "to-increments" : "to-absolute"); } }
			else if(op < 94 && plane) { double x = extra ? v : 0; bool ok = G.p->SetVibration(x * vf); c.check(ok == !inc, "vibration-accepted", "%d in increment mode %d", ok, inc); if(ok) vib = x > 0; }
			else { std::ostringstream o; o << std::setprecision(9); auto fl = o.flags(); auto pr = o.precision(); G.record(o); c.check(o.flags() == fl && o.precision() == pr, "record", "stream settings changed"); std::istringstream in(o.str()); size_t i = 0; double q[5]; std::vector<std::pair<double, double>> got, exp; while(plane ? bool(in >> q[0] >> q[1] >> q[2] >> q[3] >> q[4]) : bool(in >> q[0] >> q[1] >> q[2])) { got.push_back({plane ? q[1] : i, plane ? q[4] : q[1]}); if(plane) { c.near(q[0], G.time(), 0, 1e-4, "record", "time"); if(i < s.l.size()) { c.near(q[2], s.x[i], 0, 1e-4, "record", "x"); c.near(q[3], s.z[i], 0, 1e-4, "record", "z"); } } else c.check(q[0] == 0 && q[2] == 0, "record", "other directions"); i++; } c.check(i == s.l.size(), "record", "%zu lines for %zu supports", i, s.l.size()); // arc model: in order of arc position
				std::vector<int> ord(s.l.size()); for(size_t j = 0; j < ord.size(); j++) ord[j] = j; bool tie = false; if(!plane) { std::sort(ord.begin(), ord.end(), [&](int p, int q2) { return s.s[p] < s.s[q2]; }); for(size_t j = 1; j < ord.size(); j++) tie = tie || s.s[ord[j]] == s.s[ord[j - 1]]; } if(i == s.l.size() && !(tie && v)) for(size_t j = 0; j < i; j++) c.near(got[j].second, s.l[ord[j]]->GetOffset().y, 1e-300, 1e-4, "record", "offset"); c.ev("records"); }
		}
		std::vector<Vd> tr[2]; for(int rep = 0; rep < 2; rep++) { G.reset(); G.seed(17); Vd z; for(int i = 0; i < 3; i++) { G.step((1 + i) * tf); offsets(c, s, z); tr[rep].push_back(z); } } c.check(tr[0] == tr[1], "reproducible", "the same seed gave different offsets"); tr[1].clear(); G.reset(); G.reseed(); { Vd z; for(int i = 0; i < 3; i++) { G.step((1 + i) * tf); offsets(c, s, z); tr[1].push_back(z); } } c.check(tr[0] == tr[1], "reproducible", "resetting to the seed gave different offsets"); bool same = true; for(auto& q : tr[0]) for(double z : q) if(z) same = false; { G.reset(); G.seed(18); Vd z; bool eq = true; for(int i = 0; i < 3; i++) { G.step((1 + i) * tf); offsets(c, s, z); if(z != tr[0][i]) eq = false; } c.check(!eq || same, "seed-has-effect"); }
	}
	for(size_t i = 0; i < out[0].size(); i++) { double m = 0; for(double q : out[0][i]) m = std::max(m, fabs(q)); for(size_t j = 0; j < out[0][i].size(); j++) c.near(out[1][i][j], g * out[0][i][j], 1e-9 * g * m, 1e-9, "scaling", "A*%g t*%g: step %zu support %zu", f, ft, i, j); }
	c.ev("steps", steps); c.note((double) steps); c.note(A); c.nontrivial();
}
FAMILY(machine, 300, 4000)
{
	auto& r = c.rng; RandomNG::init((uint32_t) r.next()); AcceleratorModelConstructor mc; struct Sup { SupportStructure* f; double len; }; std::vector<Sup> fr; int n = r.range(1, 6); double P0 = r.logu(1, 1000);
	for(int i = 0; i < n; i++) { if(r.chance(0.5)) mc.AppendComponent(*new Drift("D", r.uni(0.1, 3))); SupportStructure* s = r.chance(0.5) ? (SupportStructure*) new GirderMount("G") : new SimpleMount("S"); mc.NewFrame(s); int m = r.range(1, 3); double len = 0; for(int k = 0; k < m; k++) { double L = r.uni(0.2, 1.5); len += L; if(r.chance(0.7)) mc.AppendComponent(*new Quadrupole("Q", L, r.sgn() * r.uni(0.05, 0.4) * P0 * 1e9 / PhysicalConstants::SpeedOfLight)); else mc.AppendComponent(*new Drift("DD", L)); } mc.EndFrame(); fr.push_back({s, len}); }
	mc.AppendComponent(*new Drift("E", r.uni(0.1, 3))); std::unique_ptr<AcceleratorModel> m(mc.GetModel()); AcceleratorSupportList l; m->GetAcceleratorSupports(l); bool plane = r.chance(0.5); Ground g; double A = r.logu(1e-14, 1e-9); if(plane) { g.p.reset(new ATL2D(A, l)); if(r.chance(0.5)) g.p->SetATLMode(ATL2D::increment); } else g.s.reset(new SimpleATL(A, l, r.pick({0.0, 1e-6}))); g.seed(r.range(0, 99));
	auto track = [&]() { ParticleBunch b(P0, 1); Vd o; for(int i = 0; i < 5; i++) { PSvector p(0); if(i) p.x() = i == 1 ? 1e-3 : 0, p.xp() = i == 2 ? 1e-4 : 0, p.y() = i == 3 ? 1e-3 : 0, p.dp() = i == 4 ? 1e-3 : 0; b.push_back(p); } ParticleTracker t(m->GetBeamline(), &b, false); t.Run(); for(auto& p : t.GetTrackedBunch()) for(int k = 0; k < 6; k++) o.push_back(p[k]); return o; };
	auto frames = [&]() { Vd o; for(auto& f : fr) { Transform3D t = f.f->GetLocalFrameTransform(); o.push_back(t.X().x); o.push_back(t.X().y); o.push_back(t.X().z); Vector3D e = t.R()(Vector3D(0, 0, 1)); o.push_back(e.x); o.push_back(e.y); o.push_back(e.z); } return o; };
	Vd b0 = track(), f0 = frames(); int N = r.range(1, 6); bool moved = false; for(int k = 0; k < N; k++)
	{
		g.step(r.logu(1, 1e6)); Vd f1 = frames(); size_t q = 0; double top = 0; for(auto s : l) top = std::max(top, fabs(s->GetOffset().y)); for(size_t i = 0; i < fr.size(); i++) // height of each support as the frame places it
		{
			Transform3D t = fr[i].f->GetLocalFrameTransform(); double y1 = l[q]->GetOffset().y, y2 = dynamic_cast<GirderMount*>(fr[i].f) ? l[q + 1]->GetOffset().y : y1, h = fr[i].len / 2; auto& X = t.X(); double e = fabs(y1) + fabs(y2); Vector3D ez = t.R()(Vector3D(0, 1, 0)); (void) ez; double slope = (y2 - y1) / fr[i].len; c.near(X.y, (y1 + y2) / 2, 1e-9 * e + 4 * e * e / h, 0, "frame-follows", "centre"); Vector3D dir = t.R().inv()(Vector3D(0, 0, 1)); c.near(dir.y, slope, 1e-9 * e / h + 4 * e * e / h / h + 1e-15, 0, "frame-follows", "slope"); c.near(X.x, 0, 1e-18, 0, "frame-follows", "x"); q += dynamic_cast<GirderMount*>(fr[i].f) ? 2 : 1; if(e > 0) moved = true;
		}
		(void) f1; if(r.chance(0.3)) { g.reset(); c.check(frames() == f0, "machine-restored", "frames differ after Reset"); Vd b = track(); c.check(b == b0, "machine-restored", "tracking differs after Reset"); c.ev("resets"); } else if(r.chance(0.3)) track();
	}
	g.reset(); c.check(frames() == f0, "machine-restored", "frames differ after Reset"); Vd b = track(); c.check(b == b0, "machine-restored", "tracking differs after Reset"); if(moved) c.ev("moved"); c.note(b0[0]); c.note((double) N); c.note(A); c.nontrivial();
}
FAMILY(eigensystems, 250, 3000) // recorded and read back
{
	auto& r = c.rng; RandomNG::init((uint32_t) r.next()); Site w; site(c, w, r.range(1, 10), r.chance(0.3)); double A = r.logu(1e-20, 1e-3); Point2D ref(w.ref[0], w.ref[1]); ATL2D a(A, w.l, ref); std::string p1 = vh::scratch() + "/evec", p2 = vh::scratch() + "/eval"; { std::ofstream o1(p1), o2(p2); a.RecordEigenSystem(&o1, &o2); } std::ifstream i1(p1), i2(p2); ATL2D b(A, w.l, ref, &i1, &i2); c.check(bool(i1) && bool(i2), "eigensystem-read");
	bool inc = r.chance(0.5); if(inc) a.SetATLMode(ATL2D::increment), b.SetATLMode(ATL2D::increment); std::vector<Vd> o[2]; Vd y; double big = 0; for(int k = 0; k < 2; k++) { ATL2D& g = k ? b : a; g.Reset(); g.SetRandomSeed(3); for(int i = 0; i < 4; i++) { g.DoStep(1 + i); offsets(c, w, y); o[k].push_back(y); for(double q : y) big = std::max(big, fabs(q)); } }
	// a vanishing eigenvalue whose sign is lost to rounding would shift the random stream: compare where all agree in number of draws
	for(int i = 0; i < 4; i++) for(size_t j = 0; j < y.size(); j++) c.near(o[1][i][j], o[0][i][j], 1e-9 * big, 0, "eigensystem-read", "step %d support %zu of %zu", i, j, y.size()); c.ev("supports", y.size()); unlink(p1.c_str()); unlink(p2.c_str()); c.note(A); c.note(big); c.nontrivial();
}
