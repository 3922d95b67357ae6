// Long-double rigid-body model used as oracle for geometry.
#pragma once
#include <vector>
#include <cmath>
#include "Transform3D.h"
namespace pose
{
typedef long double L;
struct V { L a[3]; L& operator[](int i) { return a[i]; } L operator[](int i) const { return a[i]; } };
inline V operator+(const V& p, const V& q) { return {{p[0] + q[0], p[1] + q[1], p[2] + q[2]}}; }
inline V operator-(const V& p, const V& q) { return {{p[0] - q[0], p[1] - q[1], p[2] - q[2]}}; }
struct M
{
	L m[3][3];
	V operator*(const V& v) const { V r; for(int i = 0; i < 3; i++) { r[i] = 0; for(int k = 0; k < 3; k++) r[i] += m[i][k] * v[k]; } return r; }
	M operator*(const M& o) const { M r; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) { r.m[i][j] = 0; for(int k = 0; k < 3; k++) r.m[i][j] += m[i][k] * o.m[k][j]; } return r; }
	M t() const { M r; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) r.m[i][j] = m[j][i]; return r; }
};
inline M I() { return {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; }
// passive rotations: coordinates of a fixed point seen from axes turned by a about an axis (right handed)
inline M rot(int ax, L a)
{
	M r = I(); int i = (ax + 1) % 3, j = (ax + 2) % 3; r.m[i][i] = r.m[j][j] = cosl(a); r.m[i][j] = sinl(a); r.m[j][i] = -sinl(a); return r;
}
// local coordinates of point p:  A (p - o)
struct T
{
	M A = I(); V o{{0, 0, 0}};
	V operator()(const V& p) const { return A * (p - o); }
	// (*this) after t
	T operator*(const T& t) const { T r; r.A = A * t.A; r.o = t.o + t.A.t() * o; return r; }
	T inv() const { T r; r.A = A.t(); V z = A * o; r.o = V{{-z[0], -z[1], -z[2]}}; return r; }
};
inline T trans(L x, L y, L z) { T t; t.o = V{{x, y, z}}; return t; }
inline T rotT(int ax, L a) { T t; t.A = rot(ax, a); return t; }
inline T arc(L s, L h)
{
	if(h == 0) return trans(0, 0, s);
	L p = s * h; T t; t.A = rot(1, -p); L q = sinl(p / 2); t.o = V{{-2 * q * q / h, 0, sinl(p) / h}}; return t;
}
inline T of(const Transform3D& t)
{
	T r; r.o = V{{t.X().x, t.X().y, t.X().z}};
	for(int j = 0; j < 3; j++) { Vector3D v = t.R()(Vector3D(j == 0, j == 1, j == 2)); r.A.m[0][j] = v.x; r.A.m[1][j] = v.y; r.A.m[2][j] = v.z; }
	return r;
}
inline L diff(const T& a, const T& b, L scale)
{
	L d = 0; for(int i = 0; i < 3; i++) { d = std::max(d, fabsl(a.o[i] - b.o[i]) / scale); for(int j = 0; j < 3; j++) d = std::max(d, fabsl(a.A.m[i][j] - b.A.m[i][j])); }
	for(int i = 0; i < 3; i++) if(std::isnan((double) a.o[i]) || std::isnan((double) a.A.m[i][i])) return 1e9;
	return d;
}
}
