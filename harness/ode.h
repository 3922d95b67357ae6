// Reference trajectories: exact equations of motion (v = c) of a charged particle in a 2-D multipole
// plus longitudinal field, in the curvilinear frame of curvature h, integrated with RK4.
#pragma once
#include "vh.h"
#include <functional>
namespace ode
{
typedef std::array<double, 6> V; // x, px/P0, y, py/P0, ct (positive = early), dp/P0
typedef std::complex<double> C;
struct Field { double h = 0, b = 0 /* q/brho(P0) */; std::vector<C> e; /* By+iBx = sum e_n z^n */ double Bs = 0; bool maxwell = false; /* curvilinear correction of By in second order */ };
inline C at(const Field& f, double x, double y)
{
	C B(0), z(1), w(x, y); for(auto& c : f.e) { B += c * z; z *= w; }
	if(f.maxwell && f.e.size() > 1) B -= C(0.5 * f.h * f.e[1].real() * y * y, 0); // By = B0 + G x - (hG/2) y^2, Bx = G y
	return B;
}
inline V deriv(const Field& f, const V& v)
{
	double d = 1 + v[5], pz = std::sqrt(d * d - v[1] * v[1] - v[3] * v[3]), g = 1 + f.h * v[0]; C B = at(f, v[0], v[2]);
	return V{g * v[1] / pz, f.h * pz + g / pz * f.b * (v[3] * f.Bs - pz * B.real()), g * v[3] / pz, g / pz * f.b * (pz * B.imag() - v[1] * f.Bs), 1 - g * d / pz, 0};
}
inline V track(const Field& f, V v, double len, int n)
{
	double s = len / n; auto add = [](const V& a, const V& b, double k) { V r; for(int i = 0; i < 6; i++) r[i] = a[i] + k * b[i]; return r; };
	for(int i = 0; i < n; i++) { V k1 = deriv(f, v), k2 = deriv(f, add(v, k1, s / 2)), k3 = deriv(f, add(v, k2, s / 2)), k4 = deriv(f, add(v, k3, s)); for(int j = 0; j < 6; j++) v[j] += s / 6 * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]); }
	return v;
}
inline V toP(V v) { double k = (1 + v[5]) / std::sqrt(1 + v[1] * v[1] + v[3] * v[3]); v[1] *= k; v[3] *= k; return v; } // slopes -> px/P0
inline V toS(V v) { double d = 1 + v[5], k = 1 / std::sqrt(d * d - v[1] * v[1] - v[3] * v[3]); v[1] *= k; v[3] *= k; return v; }
inline V rot(V v, double a) { C z(v[0], v[2]), p(v[1], v[3]); z *= std::polar(1.0, a); p *= std::polar(1.0, a); v[0] = z.real(); v[2] = z.imag(); v[1] = p.real(); v[3] = p.imag(); return v; }
}
