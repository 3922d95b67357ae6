// B03: bunch files read back as the bunch that was written.
#include "vh.h"
#include "ParticleBunch.h"
#include "ProtonBunch.h"
#include "SMPBunch.h"
#include "MerlinException.h"
#include <fstream>
using namespace vh; using namespace ParticleTracking; using namespace SMPTracking;
static double val(Case& c)
{
	switch(c.rng.range(0, 9)) { case 0: return 0; case 1: return -0.0; case 2: return c.rng.sgn() * c.rng.logu(1e-300, 1e-290); case 3: return c.rng.sgn() * c.rng.logu(1e290, 1e300); case 4: return c.rng.range(-5, 5); case 5: return 1.0 / 3; case 6: return c.rng.sgn() * std::nextafter(1.0, 2.0); default: return c.rng.sgn() * c.rng.logu(1e-12, 10); }
}
static bool close16(double a, double b) { return a == b || fabs(a - b) <= 1e-16 * fabs(b) * 1.01 || std::nextafter(b, a) == a; }
static bool close10(double a, double b) { return a == b || fabs(a - b) <= 6e-11 * fabs(b); } // ten digits are printed
static std::vector<std::string> words(const std::string& s) { std::istringstream i(s); std::vector<std::string> w; std::string x; while(i >> x) w.push_back(x); return w; }
struct Quiet { std::ostringstream s; std::streambuf* o; Quiet() : o(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); } };
FAMILY(roundtrip, 8000, 300000)
{
	int n = c.rng.pick({0, 1, 2, c.rng.range(3, 60)}); double P0 = c.rng.logu(1e-3, 1e5), T0 = c.rng.pick({0.0, c.rng.sym(1e5)}), Q = c.rng.sgn() * c.rng.logu(1e-3, 1e12); std::unique_ptr<ParticleBunch> b(c.rng.chance(0.5) ? new ParticleBunch(P0, Q) : new ProtonBunch(P0, Q)); b->SetReferenceTime(T0); std::vector<PSvector> o;
	for(int i = 0; i < n; i++) { Particle p(0); for(int k = 0; k < 6; k++) p[k] = val(c); p.id() = c.rng.range(0, 100000); b->push_back(p); o.push_back(p); }
	std::ostringstream os; os << std::setprecision(3) << std::fixed; auto fl = os.flags(); bool hdr = true; if(c.rng.chance(0.5)) b->Output(os); else { hdr = c.rng.chance(0.5); b->Output(os, hdr); } c.check(os.precision() == 3, "stream-precision-restored"); (void) fl;
	std::string text = os.str(); std::istringstream lines(text); std::string ln; long nl = 0; bool header = false;
	while(std::getline(lines, ln)) { if(!ln.empty() && ln[0] == '#') { header = true; c.check(words(ln.substr(1)) == std::vector<std::string>({"T", "P0", "X", "XP", "Y", "YP", "CT", "DP"}), "header"); c.check(nl == 0, "header-first"); continue; } auto w = words(ln); if(!c.check(w.size() == 8 && nl < n, "columns", "%zu", w.size())) return; c.check(close16(strtod(w[0].c_str(), 0), T0) && close16(strtod(w[1].c_str(), 0), P0), "column-reference"); for(int k = 0; k < 6; k++) c.check(close16(strtod(w[2 + k].c_str(), 0), o[nl][k]), "column-value", "%d", k); nl++; }
	c.check(header == hdr && nl == n, "lines", "%ld of %d", nl, n);
	if(n && c.rng.chance(0.3)) { int i = c.rng.range(0, n - 1); std::ostringstream s1; b->OutputIndexParticle(s1, i); auto w = words(s1.str()); if(c.check(w.size() == 6, "index-columns")) for(int k = 0; k < 6; k++) c.check(close16(strtod(w[k].c_str(), 0), o[i][k]), "index-value"); c.ev("indexed"); }
	// read back: blank lines and comments do not matter, and reading appends
	std::string in; { std::istringstream l2(text); while(std::getline(l2, ln)) { if(c.rng.chance(0.05)) in += c.rng.pick({std::string("\n"), std::string("# comment 1 2 3\n"), std::string("   \n")}); in += ln + (c.rng.chance(0.1) ? "\r\n" : "\n"); } if(c.rng.chance(0.2) && !in.empty()) in.pop_back(); }
	ParticleBunch r(3.25, 1); int pre = c.rng.chance(0.2) ? 2 : 0; for(int i = 0; i < pre; i++) r.push_back(Particle(0)); double Q2 = c.rng.logu(1, 1e10); std::string fn; if(c.rng.chance(0.3)) { fn = scratch() + "/bunch.txt"; { std::ofstream f(fn, std::ios::binary); f << in; } std::ifstream f(fn, std::ios::binary); r.Input(Q2, f); c.ev("file"); } else { std::istringstream is(in); r.Input(Q2, is); }
	if(!c.check(r.size() == size_t(n + pre), "read-count", "%zu of %d", r.size(), n + pre)) return; if(n) { c.check(close16(r.GetReferenceMomentum(), P0) && close16(r.GetReferenceTime(), T0), "read-reference"); } else c.check(r.GetReferenceMomentum() == 3.25, "read-reference-kept");
	for(int i = 0; i < n; i++) { auto& p = *(r.begin() + pre + i); for(int k = 0; k < 6; k++) c.check(close16(p[k], o[i][k]), "read-value", "particle %d coordinate %d: %.17g was %.17g", i, k, p[k], o[i][k]); c.check(p.id() == 0, "read-id"); } if(n) c.near(r.GetTotalCharge(), Q2, 0, 1e-13, "read-charge");
	// phase-space vectors through streams
	if(n) { const PSvector& p = o[0]; std::ostringstream s1; s1 << std::setprecision(17) << p; std::istringstream s2(s1.str()); PSvector q(0); if(c.check(bool(s2 >> q), "vector-read")) for(int k = 0; k < 6; k++) c.check(close10(q[k], p[k]), "vector-round-trip", "%.17g was %.17g", q[k], p[k]); c.ev("vectors"); }
	if(n) { std::ostringstream s1; s1 << std::setprecision(17); for(auto& p : o) s1 << p; std::istringstream s2(s1.str()); ParticleBunch q(P0, Q, s2); if(c.check(q.size() == size_t(n), "stream-count", "%zu of %d", q.size(), n)) for(int i = 0; i < n; i++) { auto& p = *(q.begin() + i); for(int k = 0; k < 6; k++) c.check(close10(p[k], o[i][k]), "stream-value"); c.check(p.id() == o[i].id(), "stream-id"); } c.near(q.GetTotalCharge(), Q, 0, 1e-13, "stream-charge"); c.ev("streams"); }
	c.ev("round-trips"); c.note(P0); c.note((uint64_t) n); if(n) c.note(o[0][0]); c.nontrivial();
}
FAMILY(corrupted, 8000, 300000)
{
	int n = c.rng.range(1, 20); double P0 = c.rng.logu(1e-3, 1e5); ParticleBunch b(P0, 1); std::vector<PSvector> o; for(int i = 0; i < n; i++) { Particle p(0); for(int k = 0; k < 6; k++) p[k] = c.rng.sym(1); b.push_back(p); o.push_back(p); } std::ostringstream os; b.Output(os); std::string t = os.str(); int kind = c.rng.range(0, 4); std::string m = t;
	if(kind == 0) m = t.substr(0, c.rng.range(0, int(t.size()))); else if(kind == 1) { int e = c.rng.range(1, 5); for(int i = 0; i < e; i++) m[c.rng.range(0, int(m.size()) - 1)] = c.rng.pick({'x', '#', '\n', ' ', '-', '.', 'e', '\0', char(200), '9'}); } else if(kind == 2) { size_t p = c.rng.range(0, int(m.size())); m.insert(p, c.rng.pick({std::string("abc"), std::string("1.0 2.0"), std::string("\n\n"), std::string(200, 'z'), std::string("nan"), std::string("1e999")})); } else if(kind == 3) { size_t p = c.rng.range(0, int(m.size()) - 1); m.erase(p, c.rng.range(1, 300)); } else { m.clear(); int e = c.rng.range(0, 400); for(int i = 0; i < e; i++) m += char(c.rng.range(0, 255)); }
	// own strict reading: every non-comment line needs eight leading numbers
	std::vector<std::array<double, 6> > good; bool bad = false; { std::istringstream is(m); std::string ln; while(std::getline(is, ln)) { if(ln.find_first_not_of(" \t\r") == std::string::npos || ln[0] == '#') continue; std::istringstream ls(ln); double v[8]; int k = 0; while(k < 8 && (ls >> v[k])) k++; if(k < 8 || !(v[1] > 0)) { bad = true; break; } std::array<double, 6> a; std::copy(v + 2, v + 8, a.begin()); good.push_back(a); } }
	ParticleBunch r(1, 1); std::istringstream is(m); bool thrown = false; try { r.Input(1, is); } catch(std::exception&) { thrown = true; }
	c.check(thrown == bad, bad ? "malformed-accepted" : "good-refused", "%s", m.substr(0, 200).c_str()); size_t k = 0; if(c.check(r.size() <= good.size() && (thrown || r.size() == good.size()), "invented-particles", "%zu of %zu", r.size(), good.size())) for(auto& p : r) { for(int i = 0; i < 6; i++) c.check(dbits(p[i]) == dbits(good[k][i]), "invented-values"); k++; }
	c.ev(bad ? "refused" : "accepted"); c.note(m); c.nontrivial();
	// the stream constructor stops at the first malformed particle
	std::ostringstream s1; s1 << std::setprecision(17); for(auto& p : o) s1 << p; std::string u = s1.str(); u = u.substr(0, c.rng.range(0, int(u.size()))); std::istringstream s2(u); ParticleBunch q(P0, 1, s2); if(c.check(q.size() <= o.size(), "stream-invented")) { size_t i = 0; for(auto& p : q) { bool last = i + 1 == q.size(); for(int a = 0; a < 6; a++) c.check(close10(p[a], o[i][a]) || last, "stream-values"); i++; } } c.ev("truncated-streams");
}
FAMILY(macroparticles, 2000, 40000)
{
	int n = c.rng.range(1, 30); double P0 = c.rng.logu(1e-2, 1e4), T0 = c.rng.pick({0.0, c.rng.sym(100)}); SMPBunch b(P0, 1); b.SetReferenceTime(T0); std::vector<SliceMacroParticle> o; for(int i = 0; i < n; i++) { PSmoments S; double s[4]; for(int k = 0; k < 4; k++) { S[k] = c.rng.sym(1e-3); s[k] = c.rng.logu(1e-6, 1e-3); S(k, k) = s[k] * s[k]; } for(int k = 0; k < 4; k++) for(int j = 0; j < k; j++) S(k, j) = c.rng.sym(0.3) * s[k] * s[j]; SliceMacroParticle m(S, c.rng.sym(0.1), c.rng.sym(0.1), c.rng.logu(1e-3, 1e10)); b.AddParticle(m); o.push_back(m); }
	std::string fn = scratch() + "/smp.txt"; { std::ofstream f(fn); b.Output(f); } std::ifstream chk(fn); std::string ln; std::getline(chk, ln); c.check(words(ln).size() == 3 && atoi(words(ln)[2].c_str()) == n, "smp-header", "%s", ln.c_str()); int rows = 0; while(std::getline(chk, ln)) { auto w = words(ln); if(c.check(w.size() == 17 && rows < n, "smp-columns", "%zu", w.size())) { c.near(strtod(w[0].c_str(), 0), o[rows].Q(), 0, 6e-7, "smp-column-charge"); c.near(strtod(w[1].c_str(), 0), o[rows].ct(), 0, 6e-7, "smp-column-ct"); c.near(strtod(w[2].c_str(), 0), o[rows].dp(), 0, 6e-7, "smp-column-dp"); c.near(strtod(w[8].c_str(), 0), o[rows].std(1), 0, 6e-7, "smp-column-std"); } rows++; } c.check(rows == n, "smp-rows");
	SMPBunch r(fn); c.near(r.GetReferenceMomentum(), P0, 0, 6e-6, "smp-reference"); c.near(r.GetReferenceTime(), T0, 0, 6e-6, "smp-reference"); if(!c.check(r.Size() == size_t(n), "smp-count")) return; std::stable_sort(o.begin(), o.end(), [](const SliceMacroParticle& a, const SliceMacroParticle& d) { return a.ct() < d.ct(); }); long double Q = 0;
	for(int i = 0; i < n; i++) { auto& p = r.Get(i); Q += o[i].Q(); c.near(p.Q(), o[i].Q(), 0, 6e-7, "smp-charge"); for(int k = 0; k < 6; k++) c.near(p[k], o[i][k], 0, 6e-7, "smp-mean", "%d", k); for(int k = 0; k < 4; k++) for(int j = 0; j <= k; j++) c.near(p.sig(k, j), o[i].sig(k, j), 0, 1.3e-6, "smp-sigma", "%d %d", k, j); } c.near(r.GetTotalCharge(), Q, 0, 1e-6, "smp-total"); c.ev("smp"); c.note(P0); c.note(o[0].Q()); c.nontrivial();
}
