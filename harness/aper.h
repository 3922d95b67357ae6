// Independent aperture shapes: signed margin (>0 inside), in long double.
#pragma once
#include "vh.h"
#include <limits>
namespace aper
{
typedef long double L;
enum Kind { CIRCLE, RECTANGLE, ELLIPSE, RECTELLIPSE, OCTAGON, NKIND };
static const char* kname[] = {"CIRCLE", "RECTANGLE", "ELLIPSE", "RECTELLIPSE", "OCTAGON"};
// relative margin of the point: positive inside, negative outside, |m| ~ relative distance to the boundary
inline L margin(int k, const L* a, L x, L y)
{
	x = fabsl(x); y = fabsl(y);
	auto rect = [&]() { return std::min(1 - x / a[0], 1 - y / a[1]); };
	auto ell = [&](L p, L q) { return 1 - sqrtl(x / p * (x / p) + y / q * (y / q)); };
	switch(k)
	{
	case CIRCLE: return 1 - hypotl(x, y) / a[0];
	case RECTANGLE: return rect();
	case ELLIPSE: return ell(a[0], a[1]);
	case RECTELLIPSE: return std::min(rect(), ell(a[2], a[3]));
	case OCTAGON:
	{
		// corner cut along the line from (hx, hx tan a1) to (hy / tan a2, hy)
		L px = a[0], py = a[0] * tanl(a[2]), qx = a[1] / tanl(a[3]), qy = a[1];
		L nx = qy - py, ny = px - qx, d = hypotl(nx, ny); // outward normal
		if(d <= 1e-12L * (a[0] + a[1])) return rect();
		L dist = (nx * (px - x) + ny * (py - y)) / d;
		return std::min(rect(), dist / (a[0] + a[1]));
	}
	}
	return 0;
}
inline void randomShape(vh::Case& c, int k, double* a)
{
	auto dim = [&] { return c.rng.pick({c.rng.uni(1e-3, 0.1), c.rng.logu(1e-5, 2.0), 0.02}); };
	for(int i = 0; i < 4; i++) a[i] = 0;
	switch(k)
	{
	case CIRCLE: a[0] = dim(); break;
	case RECTANGLE: case ELLIPSE: a[0] = dim(); a[1] = c.rng.chance(0.3) ? a[0] : c.rng.chance(0.5) ? dim() : a[0] * c.rng.uni(0.3, 3); break;
	case RECTELLIPSE: a[0] = dim(); a[1] = a[0] * c.rng.uni(0.3, 3); a[2] = a[0] * c.rng.uni(0.6, 2); a[3] = a[1] * c.rng.uni(0.6, 2); break;
	case OCTAGON:
	{
		a[0] = dim(); a[1] = a[0] * c.rng.uni(0.3, 3); double d = atan2(a[1], a[0]);
		a[2] = d * c.rng.pick({c.rng.uni(0.01, 0.99), c.rng.uni(0.5, 0.95)}); a[3] = d + (M_PI / 2 - d) * c.rng.pick({c.rng.uni(0.01, 0.99), c.rng.uni(0.05, 0.5)});
		break;
	}
	}
}
// a point near (or anywhere around) the boundary of the shape
inline void probe(vh::Case& c, int k, const L* a, double& x, double& y)
{
	L th; switch(c.rng.range(0, 4)) { case 0: th = c.rng.range(0, 7) * M_PIl / 4; break; case 1: th = c.rng.range(0, 3) * M_PIl / 2 + c.rng.sgn() * c.rng.logu(1e-9, 0.1); break; case 2: th = (c.rng.chance(0.5) ? 0 : M_PIl) + c.rng.sgn() * atan2l(a[1] ? a[1] : 1, a[0]) * (1 + c.rng.sgn() * c.rng.logu(1e-6, 0.2)); break; default: th = c.rng.uni(0, 2 * M_PI); }
	// radius of the boundary in that direction by bisection
	L lo = 0, hi = 4 * (fabsl(a[0]) + fabsl(a[1]) + fabsl(a[2]));
	for(int i = 0; i < 80; i++) { L m = (lo + hi) / 2; (margin(k, a, m * cosl(th), m * sinl(th)) > 0 ? lo : hi) = m; }
	L r = lo; switch(c.rng.range(0, 4)) { case 0: r *= c.rng.uni(0, 1); break; case 1: r *= 1 + c.rng.sgn() * c.rng.logu(1e-9, 1e-3); break; case 2: r *= c.rng.uni(0.8, 1.2); break; case 3: r *= 1 + c.rng.sgn() * c.rng.logu(1e-3, 0.3); break; default: r *= c.rng.uni(0, 3); }
	x = r * cosl(th); y = r * sinl(th);
}
}
