// R01: random number generation: distributions, ranges, reproducibility, independence of the streams.
#include "vh.h"
#include "RandomNG.h"
#include <iostream>
#include <sstream>
#include <functional>
using namespace vh;
typedef std::vector<uint32_t> Seed; typedef std::vector<double> DV;
static bool seeded = false;
struct QuietErr { std::ostringstream s; std::streambuf* o; QuietErr() : o(std::cerr.rdbuf(s.rdbuf())) {} ~QuietErr() { std::cerr.rdbuf(o); } };
FAMILY(automatic, 8, 8)
{
	if(seeded) { c.nontrivial(); return; } QuietErr q; size_t how = c.idx % 4; if(how == 0) RandomNG::getGenerator()(); else if(how == 1) RandomNG::normal(0, 1); else if(how == 2) RandomNG::getLocalGenerator(3)(); else RandomNG::resetLocalGenerator(5);
	c.check(q.s.str().find("WARN") != std::string::npos, "warning", "automatic seeding without a warning"); auto a = RandomNG::getSeed(); c.check(a.size() >= 1, "seed", "no seed"); double x = 0; RandomNG::reset(); x = RandomNG::uniform(0, 1); RandomNG::reset(a); c.check(RandomNG::uniform(0, 1) == x, "replay", "automatic seed cannot be replayed"); seeded = true; c.ev("automatic"); c.note((uint64_t) how); c.nontrivial();
}
static Seed seed(Case& c) { int n = c.rng.pick({1, 1, 2, 5, 0}); Seed s; for(int i = 0; i < n; i++) s.push_back((uint32_t) c.rng.next()); return s; }
static void start(Case& c, const Seed& s) { seeded = true; if(s.size() == 1 && c.rng.chance(0.5)) c.rng.chance(0.5) ? RandomNG::init(s[0]) : RandomNG::reset(s[0]); else c.rng.chance(0.5) ? RandomNG::init(s) : RandomNG::reset(s); }
struct Call { int k; double a, b, cut; };
static double draw(const Call& q) { switch(q.k) { case 0: return RandomNG::uniform(q.a, q.b); case 1: return RandomNG::normal(q.a, q.b); case 2: return RandomNG::normal(q.a, q.b, q.cut); case 3: return RandomNG::poisson(q.b); default: return RandomNG::landau(); } }
static Call call(Case& c) { Call q; q.k = c.rng.range(0, 4); q.a = c.rng.pick({0.0, c.rng.sym(1e3), c.rng.sgn() * c.rng.logu(1e-6, 1e6)}); if(q.k == 0) q.b = q.a + c.rng.pick({0.0, c.rng.logu(1e-9, 1e6)}); else if(q.k == 3) q.b = c.rng.pick({c.rng.logu(1e-3, 50), c.rng.logu(1, 3000)}); else q.b = c.rng.pick({0.0, c.rng.logu(1e-12, 1e6), 1.0}); q.cut = c.rng.sgn() * c.rng.pick({0.0, 1.0, 3.0, c.rng.logu(0.05, 8)}); return q; }
FAMILY(sequences, 1200, 20000)
{
	Seed s = seed(c); start(c, s); c.check(RandomNG::getSeed() == s, "get-seed", "seed not returned"); int n = c.rng.range(1, 200); std::vector<Call> q; DV v; for(int i = 0; i < n; i++) { q.push_back(call(c)); v.push_back(draw(q[i])); }
	// ranges
	for(int i = 0; i < n; i++) { auto& k = q[i]; double x = v[i]; c.check(std::isfinite(x), "finite", "kind %d gave %g", k.k, x); if(k.k == 0) c.check(x >= k.a && x <= k.b, "uniform-range", "%.17g outside [%.17g, %.17g]", x, k.a, k.b); if(k.k == 1 && k.b == 0) c.check(x == k.a, "no-spread", "zero variance"); if(k.k == 2 && (k.b == 0 || k.cut != 0)) { double h = std::fabs(k.cut) * std::sqrt(k.b); c.check(std::fabs(x - k.a) <= h * (1 + 1e-12), "cut", "%.17g sigma, cut %.17g", (x - k.a) / std::sqrt(k.b), k.cut); c.ev("cut"); } if(k.k == 3) c.check(x >= 0 && x == std::floor(x), "poisson-integer", "%g", x); if(k.k == 4) c.check(x > -20, "landau-range", "%g", x); }
	// the same seed gives the same sequence, whatever the local streams do in between, and whatever happened before
	std::vector<size_t> hs; int nl = c.rng.range(1, 6); for(int i = 0; i < nl; i++) hs.push_back(c.rng.pick({(size_t) c.rng.range(0, 5), (size_t) hash_string("P" + std::to_string(c.rng.range(0, 9))), (size_t) c.rng.next(), (size_t) 1 << 40}));
	std::map<size_t, std::vector<uint64_t>> first;
	for(int rep = 0; rep < 3; rep++)
	{
		for(int i = c.rng.range(0, 5); i--;) draw(call(c)); if(rep == 1) start(c, s); else if(rep == 2) { start(c, {123, 4}); draw(call(c)); for(auto h : hs) RandomNG::getLocalGenerator(h)(); start(c, s); } else RandomNG::reset();
		std::map<size_t, std::vector<uint64_t>> loc; std::map<size_t, std::mt19937_64*> adr;
		for(int i = 0; i < n; i++) { while(c.rng.chance(0.4)) { size_t h = c.rng.pick(hs); auto& g = RandomNG::getLocalGenerator(h); if(adr.count(h)) c.check(adr[h] == &g, "local-reference", "local generator moved"); adr[h] = &g; loc[h].push_back(g()); c.ev("local"); } double x = draw(q[i]); c.check(dbits(x) == dbits(v[i]), "replay", "call %d of kind %d: %.17g, before %.17g (seed of %zu words)", i, q[i].k, x, v[i], s.size()); }
		for(auto& l : loc) { auto& f = first[l.first]; size_t m = std::min(f.size(), l.second.size()); for(size_t i = 0; i < m; i++) if(!c.check(f[i] == l.second[i], "local-replay", "stream %zx differs at draw %zu after restarting with the same seed", l.first, i)) break; if(l.second.size() > f.size()) f = l.second; if(m) c.ev("local-replays"); }
	}
	for(auto h : hs) if(first.count(h)) { RandomNG::resetLocalGenerator(h); auto& f = first[h]; auto& g = RandomNG::getLocalGenerator(h); for(size_t i = 0; i < f.size(); i++) if(!c.check(g() == f[i], "local-reset", "stream %zx after resetting it", h)) break; }
	c.note(s.size() ? (uint64_t) s[0] : 0); c.note(v[0]); c.nontrivial();
}
FAMILY(streams, 150, 1500)
{
	Seed s = seed(c); start(c, s); int n = c.rng.range(2, 8), N = 2000; std::vector<size_t> hs; for(int i = 0; i < n; i++) hs.push_back(c.rng.pick({(size_t) i, (size_t) hash_string(fmt("Process%d", i)), (size_t) c.rng.next(), ((size_t) (i + 1) << 32) + 7})); std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
	std::map<uint64_t, int> seen; std::vector<DV> u; int k = 0; auto add = [&](std::mt19937_64& g) { DV x; for(int i = 0; i < N; i++) { uint64_t r = g(); if(!seen.emplace(r, k).second) { c.check(false, "repeated", "streams %d and %d give the same number (hash %zx)", seen[r], k, k ? hs[k - 1] : (size_t) 0); break; } x.push_back((r >> 11) * 0x1p-53 - 0.5); } u.push_back(x); k++; };
	add(RandomNG::getGenerator()); for(auto h : hs) add(RandomNG::getLocalGenerator(h)); for(size_t a = 0; a < u.size(); a++) for(size_t b = 0; b < a; b++) if(u[a].size() == (size_t) N && u[b].size() == (size_t) N) { double r = 0; for(int i = 0; i < N; i++) r += u[a][i] * u[b][i]; r *= 12 / std::sqrt((double) N); c.check(std::fabs(r) < 7, "correlated", "streams correlated by %g sigma", r); c.ev("pairs"); }
	// other seeds give other sequences
	auto t = s; t.push_back(1000 + c.rng.range(0, 9)); start(c, t); for(auto h : hs) { uint64_t r = RandomNG::getLocalGenerator(h)(); c.check(!seen.count(r), "seed-ignored", "stream %zx continues or repeats after a new seed", h); } c.check(!seen.count(RandomNG::getGenerator()()), "seed-ignored", "master generator"); c.note((uint64_t) hs[0]); c.note((uint64_t) t[0]); c.nontrivial();
}
// distributions: moments at 7 sigma and the largest distance between empirical and exact distribution function at a level of 1e-12
static double Phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
static void ks(Case& c, DV& v, const std::function<double(double)>& F, const char* key)
{
	std::sort(v.begin(), v.end()); double d = 0, n = v.size(); for(size_t i = 0; i < v.size(); i++) { double f = F(v[i]); d = std::max({d, f - i / n, (i + 1) / n - f}); } c.check(d < std::sqrt(std::log(2e12) / (2 * n)), key, "distribution function off by %g with %g samples", d, n); c.ev("distributions");
	// exponentially weighted tails
	double l = 0, r = 0; int m = 0; for(double x : v) { double f = std::min(std::max(F(x), 1e-300), 1 - 1e-16); l += -std::log(f) - 1; r += -std::log1p(-f) - 1; m++; } c.check(std::fabs(l) < 9 * std::sqrt((double) m) && std::fabs(r) < 9 * std::sqrt((double) m), key, "tails off by %g, %g sigma", l / std::sqrt((double) m), r / std::sqrt((double) m));
}
static void mom(Case& c, const DV& v, double mu, double var, double kurt, const char* key) { double s = 0, q = 0, n = v.size(); for(double x : v) { s += x - mu; } s /= n; for(double x : v) q += (x - mu) * (x - mu); q /= n; c.check(std::fabs(s) <= 7 * std::sqrt(var / n) + 1e-14 * std::fabs(mu), key, "mean off by %g sigma", s / std::sqrt(var / n)); c.check(std::fabs(q - var) <= 7 * var * std::sqrt((kurt - 1 + 0.1) / n) + 1e-13 * mu * mu, key, "variance %g, expected %g", q, var); }
FAMILY(uniform, 40, 500) { start(c, seed(c)); double a = c.rng.sym(10), b = a + c.rng.logu(1e-3, 1e3); DV v(40000); for(auto& x : v) x = RandomNG::uniform(a, b); mom(c, v, (a + b) / 2, (b - a) * (b - a) / 12, 1.8, "moments"); double corr = 0; for(size_t i = 1; i < v.size(); i++) corr += (v[i] - (a + b) / 2) * (v[i - 1] - (a + b) / 2); c.check(std::fabs(corr) * 12 / (b - a) / (b - a) < 7 * std::sqrt((double) v.size()), "serial", "serial correlation"); ks(c, v, [&](double x) { return (x - a) / (b - a); }, "shape"); c.note(a); c.nontrivial(); }
FAMILY(normal, 60, 800) { start(c, seed(c)); double m = c.rng.pick({0.0, c.rng.sym(100)}), var = c.rng.logu(1e-6, 1e6), s = std::sqrt(var); DV v(40000); bool z = c.rng.chance(0.3); for(auto& x : v) x = z ? RandomNG::normal(m, var, 0) : RandomNG::normal(m, var); mom(c, v, m, var, 3, "moments"); ks(c, v, [&](double x) { return Phi((x - m) / s); }, "shape"); c.note(m); c.note(var); c.nontrivial(); }
FAMILY(truncated, 80, 1000) { start(c, seed(c)); double m = c.rng.pick({0.0, c.rng.sym(100)}), var = c.rng.logu(1e-6, 1e6), s = std::sqrt(var), k = c.rng.pick({1.0, 2.0, 3.0, c.rng.logu(0.2, 5)}), sg = c.rng.sgn(); DV v(30000); for(auto& x : v) { x = RandomNG::normal(m, var, sg * k); c.check(std::fabs(x - m) <= k * s * (1 + 1e-12), "cut", "outside the cut"); } double lo = Phi(-k), w = 1 - 2 * lo, ph = std::exp(-k * k / 2) / std::sqrt(2 * M_PI), tv = var * (1 - 2 * k * ph / w); mom(c, v, m, tv, 3, "moments"); ks(c, v, [&](double x) { return (Phi((x - m) / s) - lo) / w; }, "shape"); double mx = 0; for(double x : v) mx = std::max(mx, std::fabs(x - m) / s); c.check(mx > k * (k < 2.5 ? 0.98 : 0.8), "reach", "largest sample at %g of a cut of %g sigma", mx, k); c.note(m); c.note(k); c.nontrivial(); }
FAMILY(poisson, 60, 800) { start(c, seed(c)); double u = c.rng.pick({c.rng.logu(0.01, 3), c.rng.logu(1, 1000)}); int N = 30000; DV v(N); for(auto& x : v) x = RandomNG::poisson(u); mom(c, v, u, u, 3 + 1 / u, "moments"); std::sort(v.begin(), v.end()); double F = 0, p = std::exp(-u), d = 0; int K = (int) (u + 12 * std::sqrt(u) + 20); for(int k = 0; k <= K; k++) { F += std::exp(-u + k * std::log(u) - std::lgamma(k + 1.0)); double e = (std::upper_bound(v.begin(), v.end(), (double) k) - v.begin()) / (double) N; d = std::max(d, std::fabs(e - F)); } (void) p; c.check(d < std::sqrt(std::log(2e12) / (2.0 * N)), "shape", "distribution function off by %g at mean %g", d, u); c.ev("distributions"); c.note(u); c.nontrivial(); }
static double landauCDF(double l) { auto f = [&](double t) { return t == 0 ? M_PI : std::exp(-t * std::log(t) - l * t) * std::sin(M_PI * t) / t; }; double s = 0, h = 0.0025; int n = 12000; for(int i = 0; i <= n; i++) s += f(i * h) * (i == 0 || i == n ? 1 : i % 2 ? 4 : 2); return 1 - s * h / 3 / M_PI; }
FAMILY(landau, 60, 400)
{
	start(c, seed(c)); int N = 40000; DV v(N); for(auto& x : v) x = RandomNG::landau(); std::sort(v.begin(), v.end()); double d = 0; for(double l : {-2.9, -2.6, -2.3, -2.2, -2.0, -1.5, -1.0, -0.7, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 2.7, 3.5, 5.0, 5.8, 7.0, 10.0, 15.0, 25.0, 40.0, 55.0, 60.0, 100.0, 300.0, 1000.0, 3000.0}) { static std::map<double, double> memo; if(!memo.count(l)) memo[l] = landauCDF(l); double F = memo[l], e = (std::upper_bound(v.begin(), v.end(), l) - v.begin()) / (double) N; d = std::fabs(e - F); c.check(d < 7 * std::sqrt(F * (1 - F) / N) + 12.0 / N, "shape", "distribution function at %g is %g, expected %g", l, e, F); } c.ev("distributions"); c.note(v[0]); c.nontrivial();
}
FAMILY(hash, 200, 2000) { std::map<uint32_t, std::string> m; int coll = 0; for(int i = 0; i < 200; i++) { std::string s; int n = c.rng.range(0, 20); while(n--) s += (char) c.rng.range(32, 126); uint32_t h = hash_string(s); c.check(h == hash_string(std::string(s)), "deterministic", "hash"); auto r = m.emplace(h, s); if(!r.second && r.first->second != s) coll++; } c.check(coll < 3, "collision", "%d collisions", coll); c.note(c.rng.u()); c.nontrivial(); }
