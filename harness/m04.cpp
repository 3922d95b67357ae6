// M04: interpolation, histogram, name patterns, ranges, gamma function.
#include "vh.h"
#include "Interpolation.h"
#include "Histogram.h"
#include "StringPattern.h"
#include "Range.h"
#include "utils.h"
using namespace vh;
typedef long double L;
static double yv(Case& c) { return c.rng.pick({c.rng.sym(3), (double) c.rng.range(-3, 3), c.rng.sgn() * c.rng.logu(1e-6, 1e6)}); }
FAMILY(equal_spaced, 20000, 400000)
{
	int n = c.rng.range(2, c.rng.pick({2, 4, 50})); double x0 = c.rng.pick({0.0, c.rng.sym(10), c.rng.sym(1e4)}), dx = c.rng.pick({1.0, 0.1, c.rng.logu(1e-3, 1e3)});
	std::vector<double> y(n); L mx = 0; for(auto& v : y) { v = yv(c); mx = std::max(mx, fabsl((L) v)); }
	Interpolation I(y, x0, dx); double xm = x0 + (n - 1) * dx;
	L xe = (fabs(x0) + fabs(xm)) * 4e-16 / dx; // rounding of the abscissa in units of the step
	auto exp = [&](double x, L& slope) { L u = ((L) x - x0) / dx; int k = (int) floorl(u); if(k < 0) k = 0; if(k > n - 2) k = n - 2; slope = 0; for(int j = std::max(0, k - 1); j <= std::min(n - 2, k + 1); j++) slope = std::max(slope, fabsl((L) y[j + 1] - y[j])); return y[k] + ((L) y[k + 1] - y[k]) * (u - k); };
	auto probe = [&](double x, const char* key) { L s; L e = exp(x, s); c.near(I(x), e, 1e-12 * (fabsl(e) + s) + 4 * s * xe + 1e-14 * mx * (1 + fabsl((L) x - x0) / dx / n), 1e-12, key, "x=%.17g n=%d x0=%g dx=%g", x, n, x0, dx); c.ev(key); };
	for(int i = 0; i < n; i++) { double x = x0 + i * dx; probe(x, "node"); if(c.rng.chance(0.3)) { probe(nextafter(x, 1e300), "neighbour"); probe(nextafter(x, -1e300), "neighbour"); } }
	probe(xm, "last"); probe(x0, "first");
	for(int i = 0; i < 10; i++) probe(c.rng.uni(x0, xm), "between");
	for(int i = 0; i < 3; i++) { probe(x0 - dx * c.rng.logu(1e-3, 3), "extrapolated"); probe(xm + dx * c.rng.logu(1e-3, 3), "extrapolated"); }
	c.note(x0); c.note(y[0]); c.note(uint64_t(n)); c.nontrivial();
}
FAMILY(arbitrary, 20000, 400000)
{
	int n = c.rng.range(2, c.rng.pick({2, 4, 12, 50})), order = c.rng.pick({1, 1, 2, 3, 4, n, 5}); 
	std::vector<double> x, y; double p = c.rng.sym(2); for(int i = 0; i < n; i++) { x.push_back(p); p += c.rng.uni(0.3, 1.0); y.push_back(yv(c)); }
	int eff = std::min(order, n - 1); bool poly = order > 1 && c.rng.chance(0.5); std::vector<double> co; L mx = 1;
	if(order > 1) { if(order > 6) order = eff = std::min(6, n - 1); for(auto& v : x) v = v / (p + 2) * 2; for(auto& v : y) v = c.rng.sym(1); }
	if(poly) { for(int i = 0; i <= eff; i++) co.push_back(c.rng.sym(2)); for(int i = 0; i < n; i++) { L s = 0; for(int k = eff; k >= 0; k--) s = s * x[i] + co[k]; y[i] = s; } }
	for(double v : y) mx = std::max(mx, fabsl((L) v));
	std::vector<std::pair<double, double> > shuf; for(int i = 0; i < n; i++) shuf.push_back({x[i], y[i]}); if(c.rng.chance(0.5)) c.rng.shuffle(shuf);
	std::vector<double> sx, sy; for(auto& q : shuf) { sx.push_back(q.first); sy.push_back(q.second); }
	std::streambuf* old = std::cout.rdbuf(nullptr); std::unique_ptr<Interpolation> I(c.rng.chance(0.5) ? new Interpolation(sx, sy, order) : new Interpolation(sx.data(), sy.data(), n, order)); std::cout.rdbuf(old); std::cout.clear();
	// conditioning of the monomial form used for high orders
	double gap = 1e9; for(int i = 1; i < n; i++) gap = std::min(gap, x[i] - x[i - 1]); double tol = eff <= 1 ? 1e-13 : 1e-13 * pow(4 / gap, eff);
	std::vector<int> ord; for(int i = 0; i < n; i++) ord.push_back(i); c.rng.shuffle(ord);
	if(tol < 1e-3) for(int i : ord) { c.near((*I)(x[i]), y[i], tol * mx, 1e-13, "node", "node %d of %d, order %d", i, n, order); c.ev("nodes"); if(eff > 1) c.ev("high-order-nodes"); }
	for(int i = 0; i < 12; i++)
	{
		int k = c.rng.range(0, n - 2); double t = c.rng.pick({c.rng.u(), 1e-9, 1 - 1e-9}), u = x[k] + t * (x[k + 1] - x[k]); if(u > x[n - 1]) u = x[n - 1]; double v = (*I)(u);
		if(eff == 1) { L e = y[k] + ((L) y[k + 1] - y[k]) * (((L) u - x[k]) / ((L) x[k + 1] - x[k])); c.near(v, e, 1e-12 * (fabs(y[k]) + fabs(y[k + 1])), 1e-12, "linear-between"); c.ev("between"); }
		else if(poly && tol < 1e-3) { L s = 0; for(int q = eff; q >= 0; q--) s = s * u + co[q]; c.near(v, s, 10 * tol * mx, 0, "polynomial-reproduced", "n=%d order=%d", n, eff); c.ev("polynomial"); }
		else if(tol < 1e-6 && (t == 1e-9 || t == 1 - 1e-9)) { c.near(v, t < 0.5 ? y[k] : y[k + 1], 1e-6 * mx + 1e-9 * mx * pow(4 / gap, eff), 0, "continuous-at-node"); }
	}
	for(double u : {nextafter(x[0], -1e9), nextafter(x[n - 1], 1e9), x[0] - c.rng.logu(1e-3, 10), x[n - 1] + c.rng.logu(1e-3, 10)})
		{ bool th = false; try { (*I)(u); } catch(Interpolation::BadRange& e) { th = std::string(e.what()).size() > 10; } c.check(th, "outside-refused", "x=%.17g", u); c.ev("refused"); }
	c.near((*I)(x[0]), y[0], tol * mx, 1e-13, "after-refusal");
	c.note(x[0]); c.note(y[0]); c.note(uint64_t(n * 10 + order)); c.nontrivial();
}
FAMILY(histogram, 20000, 400000)
{
	double x1 = c.rng.sym(10), dx = c.rng.logu(0.01, 3), x2 = x1 + dx * c.rng.uni(0.1, 40); std::vector<double> d(c.rng.range(0, 60));
	int mode = c.rng.range(0, 2);
	if(mode == 0) { x1 = c.rng.range(-5, 5); dx = c.rng.pick({0.5, 1.0, 0.25}); x2 = x1 + dx * c.rng.range(1, 20); }
	for(auto& v : d) v = mode == 0 ? x1 + dx * c.rng.range(-3, 24) : c.rng.uni(x1 - 3 * dx, x2 + 4 * dx);
	size_t nb = size_t((x2 - x1) / dx) + 1; std::vector<double> d0(d), h(c.rng.range(0, 3), 7.0), e(nb, 0.0); size_t lost = 0;
	for(double v : d) { L u = ((L) v - x1) / dx; if(v < x1) lost++; else if(u >= nb) lost++; else e[(size_t) ((v - x1) / dx)]++; }
	size_t r = Hist(d, x1, x2, dx, h);
	c.check(h.size() == nb, "bins", "%zu of %zu", h.size(), nb); c.check(d == d0, "data-unchanged");
	double tot = r; for(double v : h) tot += v; c.check(tot == d.size(), "each-entry-counted-once", "%g of %zu", tot, d.size());
	if(h.size() == nb) for(size_t i = 0; i < nb; i++) c.check(h[i] == e[i], "bin-content", "bin %zu: %g, expected %g", i, h[i], e[i]);
	c.check(r == lost, "lost", "%zu of %zu", r, lost); c.ev("entries", d.size()); c.note(x1); c.note(dx); c.note(uint64_t(d.size())); if(!d.empty()) c.nontrivial();
}
static bool glob(const char* p, const char* s) // reference matcher
{
	if(!*p) return !*s;
	if(*p == '*') return glob(p + 1, s) || (*s && glob(p, s + 1));
	return *p == *s && glob(p + 1, s + 1);
}
FAMILY(patterns, 60000, 1500000)
{
	const char* al = c.rng.chance(0.5) ? "ab" : "aB.1"; int na = strlen(al);
	auto word = [&](int mn, int mx, double star) { std::string s; for(int n = c.rng.range(mn, mx); n > 0; n--) s += c.rng.chance(star) ? '*' : al[c.rng.range(0, na - 1)]; return s; };
	std::vector<std::string> alt; int na2 = c.rng.pick({1, 1, 1, 2, 3}); for(int i = 0; i < na2; i++) alt.push_back(word(1, 6, 0.4));
	std::string pat = alt[0]; for(int i = 1; i < na2; i++) pat += "|" + alt[i];
	StringPattern P(pat), Q(P); c.check((std::string) P == pat, "text");
	for(int k = 0; k < 8; k++)
	{
		std::string s = word(0, 8, 0);
		if(c.rng.chance(0.6)) { s.clear(); for(char ch : c.rng.pick(alt)) { if(ch == '*') s += word(0, 3, 0); else s += ch; } } // likely match
		bool e = false; for(auto& a : alt) e = e || glob(a.c_str(), s.c_str());
		c.check(P.Match(s) == e, "match", "pattern '%s' name '%s': %d", pat.c_str(), s.c_str(), (int) P.Match(s)); c.check(Q(s) == e, "match"); c.ev(e ? "matching" : "not-matching");
	}
	c.check(StringPattern("*").Match(""), "star-empty"); c.check(StringPattern("*").Match("x"), "star"); std::string w = word(1, 5, 0.4); c.check((StringPattern(w) == P) == (w == pat) && (StringPattern(w) < P) == (w < pat), "order");
	c.note(pat); c.nontrivial(); if(na2 > 1) c.ev("alternatives"); c.sample("pattern " + pat);
}
FAMILY(ranges, 20000, 400000)
{
	double a = c.rng.pick({c.rng.sym(5), (double) c.rng.range(-2, 2)}), b = c.rng.pick({c.rng.sym(5), a, (double) c.rng.range(-2, 2)}), x = c.rng.pick({a, b, c.rng.sym(6), nextafter(a, 9), nextafter(b, -9)});
	FloatRange r(a, b); double lo = std::min(a, b), hi = std::max(a, b); bool in = x >= lo && x <= hi;
	c.check(r.lower == lo && r.upper == hi && !r.IsUnbounded(), "range-ends"); c.check(r(x) == in && (r.Check(x) == RangeBase::ok) == in, "range-member"); if(!in) c.check(r.Check(x) == (x < lo ? RangeBase::belowlower : RangeBase::aboveupper), "range-side");
	FloatRange u{UnboundedRange()}; c.check(u.IsUnbounded() && u(x) && u.Check(x * 1e9) == RangeBase::ok && u != r && u == FloatRange(UnboundedRange()), "unbounded"); FloatRange f(a); c.check(f.IsFixedPoint() && f(a) && f(b) == (a == b), "fixed-point"); c.check(r == FloatRange(b, a), "range-equal");
	double t = c.rng.logu(1e-9, 1), y = a + t * c.rng.pick({0.5, 1.5}) * c.rng.sgn(); c.check(fequal(a, y, t) == (fabs(a - y) <= t), "fequal");
	double g = c.rng.uni(0.5, 20); c.near(LogGamma(g), lgammal(g), 1e-9, 1e-9, "log-gamma"); c.near(Gamma(g), tgammal(g), 0, 1e-8, "gamma");
	L s = 1 / sqrtl(2); double n1 = c.rng.sym(3), n2 = n1 + c.rng.uni(0, 3); c.near(NormalBin(n1, n2), (erfl(n2 * s) - erfl(n1 * s)) / 2, 1e-6, 1e-6, "normal-bin");
	c.note(a); c.note(b); c.note(x); c.nontrivial();
}
