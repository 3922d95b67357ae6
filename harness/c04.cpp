// C04: interpolated and tapered apertures follow their profile.
#include "aper.h"
#include "InterpolatedApertures.h"
#include "CollimatorAperture.h"
#include "DataTable.h"
using namespace vh; using namespace aper;
FAMILY(profile, 30000, 1000000)
{
	int k = c.rng.pick({(int) CIRCLE, (int) ELLIPSE, (int) RECTELLIPSE, (int) OCTAGON}); int n = c.rng.range(2, c.rng.pick({2, 3, 8}));
	std::vector<double> s; std::vector<std::array<double, 4> > p; double pos = c.rng.pick({0.0, -c.rng.logu(1e-3, 10)});
	double base[4]; randomShape(c, k, base);
	for(int i = 0; i < n; i++)
	{
		std::array<double, 4> q; for(int j = 0; j < 4; j++) q[j] = base[j] * c.rng.pick({1.0, c.rng.uni(0.5, 2), c.rng.uni(0.9, 1.1)});
		if(k == OCTAGON) { double d = atan2(q[1], q[0]); q[2] = std::min(base[2], d * 0.9) * c.rng.uni(0.5, 1); q[3] = std::max(base[3], d + (M_PI / 2 - d) * 0.1); q[3] += (M_PI / 2 - q[3]) * c.rng.uni(0, 0.5); }
		s.push_back(pos); p.push_back(q); if(!(c.rng.chance(0.25) && i + 2 < n)) pos += c.rng.logu(1e-3, 10); else c.ev("step-in-profile");
	}
	if(s.back() <= 0) { double sh = 0.1 - s.back(); for(auto& v : s) v += s.back() > 0 ? 0 : 0; s.push_back(sh); p.push_back(p.back()); n++; }
	DataTable t; t.AddColumn("APERTYPE", 's'); t.AddColumn("S", 'd'); for(const char* m : {"APER_1", "APER_2", "APER_3", "APER_4"}) t.AddColumn(m, 'd');
	for(int i = 0; i < n; i++) t.AddRow(std::string(kname[k]), s[i], p[i][0], p[i][1], p[i][2], p[i][3]);
	std::unique_ptr<Aperture> ap(InterpolatorFactory::GetInstance(t)); if(!c.check(ap.get() != nullptr, "constructed")) return;
	c.check(ap->GetType() == std::string(kname[k]) + "-interpolated", "type");
	for(int i = 0; i < 60; i++)
	{
		double z; int how = c.rng.range(0, 5);
		if(how == 0) { z = s[c.rng.range(0, n - 1)]; c.ev("at-entry"); } else if(how == 1) { z = s.back() * (1 + c.rng.logu(1e-16, 1e-3)); c.ev("beyond-end"); } else if(how == 2) { z = -c.rng.logu(1e-12, 1); } else if(how == 3) { int q = c.rng.range(0, n - 1); z = s[q] + c.rng.sgn() * c.rng.logu(1e-12, 1e-3); } else z = c.rng.uni(std::max(0.0, s[0]), s.back());
		double zc = std::min(std::max(z, 0.0), s.back());
		// all interpolations consistent with the position (several at a step)
		std::vector<std::array<L, 4> > cand;
		for(int q = 1; q < n; q++) if(s[q] > s[q - 1] && zc >= s[q - 1] && zc <= s[q]) { std::array<L, 4> a; L f = ((L) zc - s[q - 1]) / ((L) s[q] - s[q - 1]); for(int j = 0; j < 4; j++) a[j] = p[q - 1][j] + f * ((L) p[q][j] - p[q - 1][j]); cand.push_back(a); }
		if(cand.empty()) continue; // first entry above z=0 cannot be
		if(cand.size() > 1 ) c.ev("at-joint");
		double x, y; probe(c, k, cand[0].data(), x, y); bool yes = false, no = false, close = false;
		// conditioning of the linear interpolation near a short segment
		for(auto& a : cand) { L m = margin(k, a.data(), x, y); (m > 0 ? yes : no) = true; if(fabsl(m) < 1e-9L) close = true; }
		for(int q = 0; q < n; q++) if(s[q] != zc && fabs(s[q] - zc) < 1e-11 * (fabs(s[q]) + fabs(s.back()) + 1)) close = true;
		if(close) continue;
		bool in = ap->CheckWithinApertureBoundaries(x, y, z);
		c.check(in ? yes : no, "profile-membership", "%s z=%.17g of [%g,%g] n=%d point (%.17g,%.17g) accepted %d, margin %Lg", kname[k], z, s[0], s.back(), n, x, y, in, margin(k, cand[0].data(), x, y));
		c.ev(in ? "inside" : "outside"); for(int q = 1; q < 4; q++) c.check(ap->CheckWithinApertureBoundaries(q & 1 ? -x : x, q & 2 ? -y : y, z) == in, "quadrants");
		if(cand.size() == 1) for(int j = 0; j < 2; j++) if(p[0][j] != p[1][j]) c.ev("tapered");
	}
	c.note(p[0][0]); c.note(s.back()); c.note(uint64_t(k * 100 + n)); c.nontrivial();
}
FAMILY(tapered_jaws, 30000, 1000000)
{
	double w = c.rng.uni(1e-3, 0.05), h = c.rng.pick({w, w * c.rng.uni(0.2, 5), 1.0}), w2 = w * c.rng.pick({1.0, c.rng.uni(0.3, 2), c.rng.uni(0.95, 1.05)}), h2 = h * c.rng.pick({1.0, c.rng.uni(0.3, 2)}), t = c.rng.pick({0.0, M_PI / 2, M_PI / 4, c.rng.sym(3.2)}), len = c.rng.logu(0.01, 3);
	bool off = c.rng.chance(0.5); double xo = off ? c.rng.sym(w) : 0, yo = off ? c.rng.sym(h) : 0, xo2 = off ? c.rng.sym(w) : 0, yo2 = off ? c.rng.sym(h) : 0;
	CollimatorAperture A(w, h, t, len, xo, yo); A.SetExitWidth(w2); A.SetExitHeight(h2); A.SetExitXOffset(xo2); A.SetExitYOffset(yo2);
	c.near(A.GetFullExitWidth(), w2, 0, 1e-15, "exit-width"); c.near(A.GetFullExitHeight(), h2, 0, 1e-15, "exit-height"); c.check(A.GetExitXOffset() == xo2 && A.GetExitYOffset() == yo2, "exit-offsets");
	const Aperture* base = &A;
	for(int i = 0; i < 40; i++)
	{
		double z = c.rng.pick({0.0, len, c.rng.uni(0, len), c.rng.uni(0, len)}); L f = (L) z / len, a[4] = {(w + f * ((L) w2 - w)) / 2, (h + f * ((L) h2 - h)) / 2, 0, 0}, ox = xo + f * ((L) xo2 - xo), oy = yo + f * ((L) yo2 - yo);
		double u, v; probe(c, RECTANGLE, a, u, v); double x = ox + u * cosl(t) - v * sinl(t), y = oy + u * sinl(t) + v * cosl(t);
		L ur = ((L) x - ox) * cosl(t) + ((L) y - oy) * sinl(t), vr = -((L) x - ox) * sinl(t) + ((L) y - oy) * cosl(t), m = margin(RECTANGLE, a, ur, vr);
		if(fabsl(m) < 1e-10L + 1e-15L * (fabsl((L) x) + fabsl((L) y)) / std::min(a[0], a[1])) continue;
		c.check(base->CheckWithinApertureBoundaries(x, y, z) == (m > 0), "jaw-membership", "w %g->%g h %g->%g tilt %g off %d z/len %g point (%.17g,%.17g) margin %Lg", w, w2, h, h2, t, off, z / len, x, y, m);
		c.ev(off ? "offset" : "centred"); if(w2 < w) c.ev("closing"); if(w2 > w) c.ev("opening");
	}
	c.note(w); c.note(w2); c.note(t); c.nontrivial();
}
