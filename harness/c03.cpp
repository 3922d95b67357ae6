// C03: aperture shapes accept exactly the points of their shape.
#include "aper.h"
#include "Aperture.h"
#include "CollimatorAperture.h"
#include "DataTable.h"
using namespace vh; using namespace aper;
static DataTable table() { DataTable t; t.AddColumn("APERTYPE", 's'); t.AddColumn("S", 'd'); for(const char* n : {"APER_1", "APER_2", "APER_3", "APER_4"}) t.AddColumn(n, 'd'); return t; }
static void judge(Case& c, const Aperture* ap, int k, const L* a, double x, double y, double z, const char* key)
{
	L m = margin(k, a, x, y); if(fabsl(m) < 1e-11L) { c.ev("too-close"); return; }
	bool in = ap->CheckWithinApertureBoundaries(x, y, z); c.check(in == (m > 0), key, "%s(%Lg,%Lg,%Lg,%Lg) at (%.17g, %.17g): margin %Lg, accepted %d", kname[k], a[0], a[1], a[2], a[3], x, y, m, in);
	c.ev(m > 0 ? "inside" : "outside"); if(fabsl(m) < 1e-3L) c.ev("close");
}
FAMILY(shapes, 40000, 1500000)
{
	int k = c.rng.range(0, NKIND - 1); double d[4]; randomShape(c, k, d); L a[4]; for(int i = 0; i < 4; i++) a[i] = d[i];
	double s = c.rng.uni(0, 27000); std::unique_ptr<Aperture> ap; int how = c.rng.range(0, 2); DataTable t = table();
	if(how == 0) // through the factory
	{
		std::string tp = kname[k]; bool alt = (k == CIRCLE || k == ELLIPSE) && c.rng.chance(0.5);
		if(alt && k == CIRCLE) t.AddRow(tp, s, c.rng.pick({0.0, d[0] * 2}), 0.0, d[0], 0.0); else if(alt) t.AddRow(tp, s, c.rng.pick({0.0, d[0] * 2}), 0.0, d[0], d[1]); else t.AddRow(tp, s, d[0], d[1], d[2], d[3]);
		if(c.rng.chance(0.3)) { t.AddRow(std::string("NONE"), s, 1.0, 1.0, 1.0, 1.0); c.check(ApertureFactory::GetInstance(*(t.begin() + 1)) == nullptr, "unknown-type"); c.ev("unknown-type"); }
		ap.reset(ApertureFactory::GetInstance(*t.begin())); c.ev("factory");
	}
	else if(how == 1 && (k == CIRCLE || k == RECTANGLE)) { if(k == CIRCLE) ap.reset(new CircularAperture(d[0])); else ap.reset(new RectangularAperture(d[0], d[1])); ap->SetLatticeLocation(s); ap->SetType(kname[k]); }
	else switch(k)
		{
		case CIRCLE: ap.reset(new CircularAperture(kname[k], s, d[0])); break;
		case RECTANGLE: ap.reset(new RectangularAperture(kname[k], s, d[0], d[1])); break;
		case ELLIPSE: ap.reset(new EllipticalAperture(kname[k], s, d[0], d[1])); break;
		case RECTELLIPSE: ap.reset(new RectEllipseAperture(kname[k], s, d[0], d[1], d[2], d[3])); break;
		default: ap.reset(new OctagonalAperture(kname[k], s, d[0], d[1], d[2], d[3]));
		}
	if(!c.check(ap.get() != nullptr, "constructed")) return;
	c.check(ap->GetType() == kname[k], "type", "%s", ap->GetType().c_str()); c.check(ap->GetLatticeLocation() == s, "location");
	for(int i = 0; i < 30; i++)
	{
		double x, y; probe(c, k, a, x, y); double z = c.rng.pick({0.0, c.rng.sym(10)}); judge(c, ap.get(), k, a, x, y, z, "membership");
		// symmetries: four quadrants and z must agree exactly
		bool in = ap->CheckWithinApertureBoundaries(x, y, z);
		for(int q = 1; q < 4; q++) c.check(ap->CheckWithinApertureBoundaries(q & 1 ? -x : x, q & 2 ? -y : y, c.rng.sym(5)) == in, "quadrants", "%s (%.17g,%.17g)", kname[k], x, y);
	}
	judge(c, ap.get(), k, a, 0, 0, 0, "axis");
	// points exactly on the axes' end are not accepted (touching the wall is a loss), just inside are
	if(k == CIRCLE || k == RECTANGLE || k == ELLIPSE) { double hy = k == CIRCLE ? d[0] : d[1]; if(k != ELLIPSE) { c.check(!ap->CheckWithinApertureBoundaries(d[0], 0, 0), "on-boundary-x"); c.check(!ap->CheckWithinApertureBoundaries(0, -hy, 0), "on-boundary-y"); } c.check(ap->CheckWithinApertureBoundaries(d[0] * (1 - 1e-12), 0, 0), "just-inside"); c.check(!ap->CheckWithinApertureBoundaries(0, hy * (1 + 1e-12), 0), "just-outside"); }
	c.note(d[0]); c.note(d[1]); c.note(uint64_t(k)); c.nontrivial();
}
// straight (equal-ended) collimator jaws: rectangle rotated and displaced
FAMILY(jaws, 25000, 800000)
{
	int k = c.rng.range(0, 3); double w = c.rng.pick({c.rng.uni(1e-3, 0.05), c.rng.logu(1e-4, 2)}), h = c.rng.pick({w, w * c.rng.uni(0.2, 5), 1.0}), t = c.rng.pick({0.0, M_PI / 2, M_PI / 4, c.rng.sym(3.2)}), len = c.rng.logu(0.01, 3), xo = c.rng.pick({0.0, c.rng.sym(w)}), yo = c.rng.pick({0.0, c.rng.sym(h)});
	std::unique_ptr<CollimatorAperture> ap; bool side = c.rng.chance(0.5);
	if(k == 0) { ap.reset(new CollimatorAperture(w, h, t, len, xo, yo)); ap->SetExitWidth(w); ap->SetExitHeight(h); ap->SetExitXOffset(xo); ap->SetExitYOffset(yo); }
	else if(k == 1) ap.reset(new UnalignedCollimatorAperture(w, h, t, len, xo, yo));
	else { auto* o = new OneSidedUnalignedCollimatorAperture(w, h, t, len, xo, yo, side); if(c.rng.chance(0.3)) { side = !side; o->SetJawSide(side); } c.check(o->GetJawSide() == side, "side"); ap.reset(o); }
	if(c.rng.chance(0.3)) { double w2 = w * c.rng.uni(0.3, 3), h2 = h * c.rng.uni(0.3, 3); ap->SetEntranceWidth(w2); ap->SetEntranceHeight(h2); if(k == 0) { ap->SetExitWidth(w2); ap->SetExitHeight(h2); } w = w2; h = h2; c.ev("resized"); }
	c.near(ap->GetFullEntranceWidth(), w, 0, 1e-15, "entrance-width"); c.near(ap->GetFullEntranceHeight(), h, 0, 1e-15, "entrance-height"); c.check(ap->GetCollimatorTilt() == t && ap->GetCollimatorLength() == len && ap->GetEntranceXOffset() == xo && ap->GetEntranceYOffset() == yo, "settings");
	L a[4] = {w / 2.0L, h / 2.0L, 0, 0}; const Aperture* base = ap.get();
	for(int i = 0; i < 30; i++)
	{
		double u, v; probe(c, RECTANGLE, a, u, v); if(k >= 2 && c.rng.chance(0.5)) u = -(side ? 1 : -1) * c.rng.uni(0, 20 * w); // far on the open side
		double x = xo + u * cosl(t) - v * sinl(t), y = yo + u * sinl(t) + v * cosl(t), z = c.rng.pick({0.0, len, c.rng.uni(0, len)});
		L ur = ((L) x - xo) * cosl(t) + ((L) y - yo) * sinl(t), vr = -((L) x - xo) * sinl(t) + ((L) y - yo) * cosl(t);
		L mx = k >= 2 ? 1 - (side ? ur : -ur) / a[0] : 1 - fabsl(ur) / a[0], my = 1 - fabsl(vr) / a[1], m = std::min(mx, my);
		L tol = 1e-11L + 1e-15L * (fabsl(xo) + fabsl(yo) + fabsl((L) u) + fabsl((L) v)) / std::min(a[0], a[1]); if(fabsl(m) < tol) { c.ev("too-close"); continue; }
		c.check(base->CheckWithinApertureBoundaries(x, y, z) == (m > 0), "jaw-membership", "kind %d w=%g h=%g tilt=%g off (%g,%g) side %d point (%.17g,%.17g) margin %Lg", k, w, h, t, xo, yo, side, x, y, m);
		c.ev(k >= 2 ? "one-sided" : "two-sided");
	}
	c.note(w); c.note(h); c.note(t); c.nontrivial();
}
