// L03: random alignment errors: which elements, which degrees of freedom, with what distribution; seeds; clearing.
#include "coll.h"
#include "machine.h"
#include "AcceleratorErrors.h"
#include "RandomNG.h"
using namespace coll;
typedef long double LD;
static bool glob(const char* p, const char* s) { if(!*p) return !*s; if(*p == '*') { while(*p == '*') p++; if(!*p) return true; for(; ; s++) { if(glob(p, s)) return true; if(!*s) return false; } } return *s == *p && glob(p + 1, s + 1); }
static bool named(const std::string& pat, const std::string& s) { size_t i = 0; while(true) { size_t j = pat.find('|', i); std::string p = pat.substr(i, j == std::string::npos ? j : j - i); if(glob(p.c_str(), s.c_str())) return true; if(j == std::string::npos) return false; i = j + 1; } }
struct Node { LatticeFrame* f; std::string q; int at; Transform3D T; std::vector<double> geo; };
static std::vector<double> flat(const Transform3D& t) { std::vector<double> o{t.X().x, t.X().y, t.X().z}; RealMatrix m(3, 3); for(int i = 0; i < 3; i++) { Vector3D e = t.R()(Vector3D(i == 0, i == 1, i == 2)); o.push_back(e.x); o.push_back(e.y); o.push_back(e.z); } return o; }
static std::unique_ptr<AcceleratorModel> build(Rng r, std::vector<Node>& v)
{
	AcceleratorModelConstructor mc; int n = r.range(3, 40), open = 0; std::vector<SequenceFrame*> fr; auto nm = [&]() { return r.pick<std::string>({"A", "B", "QF", "QF.1", "QF.2", "QD.1", "BX", "A.B"}); };
	for(int i = 0; i < n; i++)
	{
		if(r.chance(0.15) && open < 2) { SequenceFrame* f = r.chance(0.5) ? new SequenceFrame("Quadrupole." + nm()) : (SequenceFrame*) new GirderMount(nm()); mc.NewFrame(f); fr.push_back(f); open++; Node k; k.f = f; k.at = -1; v.push_back(k); }
		double L = r.uni(0.1, 2); std::string s = nm(); AcceleratorComponent* a; switch(r.range(0, 5)) { case 0: case 1: a = new Quadrupole(s, L, 1); break; case 2: a = new Sextupole(s, L, 1); break; case 3: a = new Drift(s, L); break; case 4: a = new SectorBend(s, L, r.sym(0.1), 1); break; default: a = new BPM(s, 0); } if(auto q = dynamic_cast<Quadrupole*>(a)) mc.AppendComponent(*q); else if(auto q = dynamic_cast<Sextupole*>(a)) mc.AppendComponent(*q); else if(auto q = dynamic_cast<Drift*>(a)) mc.AppendComponent(*q); else if(auto q = dynamic_cast<SectorBend*>(a)) mc.AppendComponent(*q); else mc.AppendComponent(*static_cast<BPM*>(a));
		Node k; k.f = nullptr; k.at = i; k.q = a->GetType() + "." + a->GetName(); v.push_back(k); if(open && r.chance(0.3)) { mc.EndFrame(); open--; }
	}
	while(open--) mc.EndFrame(); std::unique_ptr<AcceleratorModel> m(mc.GetModel()); auto b = m->GetBeamline(); std::vector<ComponentFrame*> fs(b.begin(), b.end()); for(auto& k : v) if(k.at >= 0) k.f = fs.at(k.at); for(auto& k : v) { if(r.chance(0.3)) { k.f->Translate(r.sym(1e-3), r.sym(1e-3), r.sym(1e-3)); k.f->RotateZ(r.sym(0.1)); } k.T = k.f->GetLocalFrameTransform(); } return m;
}
struct Acc { LD s[3] = {0}, q[3] = {0}, f[3] = {0}, x[3] = {0}, lag[3] = {0}, prev[3] = {0}; long n[3] = {0}, N = 0, nx[3] = {0}; void add(const double* z, const bool* on) { for(int i = 0; i < 3; i++) if(on[i]) { s[i] += z[i]; q[i] += (LD) z[i] * z[i]; f[i] += (LD) z[i] * z[i] * z[i] * z[i]; lag[i] += prev[i] * z[i]; prev[i] = z[i]; n[i]++; } for(int i = 0; i < 3; i++) { int j = (i + 1) % 3; if(on[i] && on[j]) x[i] += z[i] * z[j], nx[i]++; } } };
static void judge(Case& c, const Acc& a) { for(int i = 0; i < 3; i++) if(a.n[i] > 200) { LD N = a.n[i]; c.check(fabsl(a.s[i]) < 7 * sqrtl(N), "distribution/mean", "direction %d: %Lg sigma", i, a.s[i] / sqrtl(N)); c.check(fabsl(a.q[i] - N) < 7 * sqrtl(2 * N), "distribution/spread", "direction %d: variance %Lg of the requested, %Lg sigma", i, a.q[i] / N, (a.q[i] - N) / sqrtl(2 * N)); c.check(fabsl(a.f[i] - 3 * N) < 12 * sqrtl(96 * N), "distribution/shape", "direction %d: fourth moment %Lg", i, a.f[i] / N); c.check(fabsl(a.lag[i]) < 7 * sqrtl(N), "distribution/independent", "successive elements"); if(a.nx[i] > 200) c.check(fabsl(a.x[i]) < 7 * sqrtl((LD) a.nx[i]), "distribution/independent", "directions"); c.ev("judged", a.n[i]); } }
struct Plan { bool shift, set, sub, log; std::string pat; double rms[3], mean[3]; int i0, i1; };
static Plan plan(Rng& r, int n) { Plan p; p.shift = r.chance(0.5); p.set = r.chance(0.5); p.sub = r.chance(0.3); p.log = r.chance(0.5); p.pat = r.pick<std::string>({"Quadrupole.*", "*", "*.QF*", "Quadrupole.QF.1", "SectorBend.*", "Quadrupole.*|Sextupole.*", "*.A|*.B", "Quadrupole.QF*|Drift.*|BPM.A", "*.QF.*", "Q*.*1", "NONE.*", "QF", "Quadrupole.Q*.1"}); for(int i = 0; i < 3; i++) { p.rms[i] = r.pick({0.0, r.logu(1e-10, 1e-3), r.logu(1e-6, 1e-3)}); p.mean[i] = r.pick({0.0, 0.0, r.sym(1) * r.logu(1e-8, 1e-2)}); } p.i0 = r.range(0, n - 1); p.i1 = r.range(p.i0, n - 1); return p; }
FAMILY(errors, 500, 8000)
{
	auto& r = c.rng; uint64_t bs = r.next(); std::vector<Node> v; auto m = build(Rng(bs), v); int nc = 0; for(auto& k : v) nc += k.at >= 0; uint32_t seed = r.next(); RandomNG::init(seed); AcceleratorErrors err; std::ostringstream os; os << std::setprecision(17); int n = r.range(1, 12); std::vector<Plan> ps; for(int i = 0; i < n; i++) ps.push_back(plan(r, nc)); bool stats = r.chance(0.3); if(stats) { ps[0].rms[0] = 1e-4; ps[0].rms[1] = r.logu(1e-10, 1e-3); ps[0].pat = "*"; ps[0].sub = false; ps.assign(150, ps[0]); for(size_t i = 0; i < ps.size(); i++) ps[i].set = i % 3 == 0 || ps[0].set, ps[i].shift = i & 1, ps[i].log = ps[i].log || !ps[i].set; } Acc acc; long hit = 0;
	for(auto& p : ps)
	{
		auto b = p.sub ? m->GetBeamline(p.i0, p.i1) : m->GetBeamline(); os.str(""); err.Report(p.log ? &os : nullptr); if(p.set) err.SetErrors(p.rms[0], p.rms[1], p.rms[2], p.mean[0], p.mean[1], p.mean[2]); else err.AddErrors(p.rms[0], p.rms[1], p.rms[2], p.mean[0], p.mean[1], p.mean[2]); if(p.shift) err.ApplyShifts(b, p.pat); else err.ApplyRotations(b, p.pat);
		std::istringstream in(os.str()); std::string line; for(auto& k : v)
		{
			bool sel = k.at >= 0 && (!p.sub || (k.at >= p.i0 && k.at <= p.i1)) && named(p.pat.find('|') == std::string::npos ? "*." + p.pat : [&] { std::string o = "*."; for(char q : p.pat) { o += q; if(q == '|') o += "*."; } return o; }(), "ComponentFrame." + k.q); Transform3D T = k.f->GetLocalFrameTransform();
			if(!sel) { c.check(flat(T) == flat(k.T), "others-unchanged", "%s moved by errors for %s", k.q.c_str(), p.pat.c_str()); continue; } hit++;
			double e[3]; bool have = false; if(p.log) { bool g = bool(std::getline(in, line)); std::string exp = "ComponentFrame." + k.q + (p.shift ? " translate: " : " rotate: "); c.check(g && line.compare(0, exp.size(), exp) == 0, "log", "\"%s\" for %s", line.c_str(), exp.c_str()); if(g) { std::istringstream t(line.substr(std::min(line.size(), exp.size()))); have = bool(t >> e[0] >> e[1] >> e[2]); c.check(have, "log", "\"%s\"", line.c_str()); } }
			if(!have && p.set && p.shift) { e[0] = T.X().x; e[1] = T.X().y; e[2] = T.X().z; have = true; }
			if(have) { Transform3D w = p.set ? Transform3D() : k.T; if(p.shift) w *= Transform3D::translation(e[0], e[1], e[2]); else { w *= Transform3D::rotationX(e[0]); w *= Transform3D::rotationY(e[1]); w *= Transform3D::rotationZ(e[2]); } auto a = flat(T), bb = flat(w); double sc = 0; for(int i = 0; i < 3; i++) sc = std::max(sc, fabs(bb[i])); for(int i = 0; i < 12; i++) c.near(a[i], bb[i], i < 3 ? 1e-14 * (sc + 1e-6) : 1e-13, 0, "applied", "%s: component %d of the transform (%s)", k.q.c_str(), i, p.shift ? "shift" : "rotation");
				double z[3]; bool on[3]; for(int i = 0; i < 3; i++) { on[i] = p.rms[i] > 0; z[i] = on[i] ? (e[i] - p.mean[i]) / p.rms[i] : 0; if(!on[i]) c.near(e[i], p.mean[i], 0, 1e-15, "no-spread", "direction %d", i); else { c.check(fabs(z[i]) < 9, "distribution/mean", "an error of %g sigma", z[i]); if(fabs(p.mean[i]) > 1e5 * p.rms[i]) on[i] = false; if(on[i] && e[i] == p.mean[i]) c.fail("distribution/spread", vh::fmt("direction %d: no error for a spread of %g", i, p.rms[i])); } } acc.add(z, on); c.ev(p.shift ? "shifts" : "rotations"); }
			else if(p.set) { // rotations without a log
				auto a = flat(T); for(int i = 0; i < 3; i++) c.check(a[i] == 0, "degrees-of-freedom", "rotation errors moved %s by %g", k.q.c_str(), a[i]); }
			if(p.shift) { auto a = flat(T), bb = flat(p.set ? Transform3D() : k.T); for(int i = 3; i < 12; i++) c.near(a[i], bb[i], 1e-14, 0, "degrees-of-freedom", "shift turned %s", k.q.c_str()); } for(int i = 0; i < 3; i++) if(p.set && p.shift && p.rms[i] == 0) c.near(flat(T)[i], p.mean[i], 0, 1e-15, "degrees-of-freedom", "direction %d", i);
			k.T = T;
		}
		if(p.log) c.check(!std::getline(in, line), "log", "extra line \"%s\"", line.c_str()); c.ev(p.set ? "set" : "added"); if(p.sub) c.ev("sub-beamlines"); if(p.pat.find('|') != std::string::npos) c.ev("alternatives");
	}
	if(stats) judge(c, acc);
	// the same seed gives the same machine
	{ std::vector<Node> v2; auto m2 = build(Rng(bs), v2); RandomNG::init(seed); AcceleratorErrors e2; for(auto& p : ps) { auto b = p.sub ? m2->GetBeamline(p.i0, p.i1) : m2->GetBeamline(); if(p.set) e2.SetErrors(p.rms[0], p.rms[1], p.rms[2], p.mean[0], p.mean[1], p.mean[2]); else e2.AddErrors(p.rms[0], p.rms[1], p.rms[2], p.mean[0], p.mean[1], p.mean[2]); if(p.shift) e2.ApplyShifts(b, p.pat); else e2.ApplyRotations(b, p.pat); } for(size_t i = 0; i < v.size(); i++) c.check(flat(v2[i].f->GetLocalFrameTransform()) == flat(v[i].T), "same-seed", "%s differs", v[i].q.c_str()); }
	// clearing
	auto b = m->GetBeamline(); err.Report(nullptr); err.SetErrors(); r.chance(0.5) ? err.ApplyShifts(b, "*") : err.ApplyRotations(b, "*"); for(auto& k : v) if(k.at >= 0) { c.check(flat(k.f->GetLocalFrameTransform()) == flat(Transform3D()), "cleared", "%s still displaced", k.q.c_str()); c.check(!k.f->IsTransformed(), "cleared", "%s", k.q.c_str()); } else c.check(flat(k.f->GetLocalFrameTransform()) == flat(k.T), "others-unchanged", "an enclosing frame was cleared");
	c.ev("hits", hit); c.note((double) hit); c.note((uint64_t) seed); c.nontrivial();
}
