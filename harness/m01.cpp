// M01: rotation / transform algebra against an independent 3x3 long-double oracle.
#include "vh.h"
#include "Rotation3D.h"
#include "Transform3D.h"
#include "Transform2D.h"
#include "Transformable.h"
#include "PSvectorTransform3D.h"
#include "Space3D.h"
#include "TMatrixLib.h"
#include "LinearAlgebra.h"
using namespace vh;
typedef long double L;
struct M3
{
	L a[3][3];
	static M3 id() { M3 m; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) m.a[i][j] = i == j; return m; }
	M3 operator*(const M3& o) const { M3 r; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) { r.a[i][j] = 0; for(int k = 0; k < 3; k++) r.a[i][j] += a[i][k] * o.a[k][j]; } return r; }
	M3 t() const { M3 r; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) r.a[i][j] = a[j][i]; return r; }
};
struct V3 { L x, y, z; };
static V3 operator*(const M3& m, const V3& v) { return {m.a[0][0]*v.x+m.a[0][1]*v.y+m.a[0][2]*v.z, m.a[1][0]*v.x+m.a[1][1]*v.y+m.a[1][2]*v.z, m.a[2][0]*v.x+m.a[2][1]*v.y+m.a[2][2]*v.z}; }
static V3 operator-(V3 a, V3 b) { return {a.x-b.x, a.y-b.y, a.z-b.z}; }
static V3 operator+(V3 a, V3 b) { return {a.x+b.x, a.y+b.y, a.z+b.z}; }
// passive rotations (coordinates of a fixed point in the rotated frame)
static M3 RX(L p) { M3 m = M3::id(); m.a[1][1] = m.a[2][2] = cosl(p); m.a[1][2] = sinl(p); m.a[2][1] = -sinl(p); return m; }
static M3 RY(L p) { M3 m = M3::id(); m.a[0][0] = m.a[2][2] = cosl(p); m.a[0][2] = -sinl(p); m.a[2][0] = sinl(p); return m; }
static M3 RZ(L p) { M3 m = M3::id(); m.a[0][0] = m.a[1][1] = cosl(p); m.a[0][1] = sinl(p); m.a[1][0] = -sinl(p); return m; }
static M3 diag(L a, L b, L c) { M3 m = M3::id(); m.a[0][0] = a; m.a[1][1] = b; m.a[2][2] = c; return m; }

static double angle(Case& c)
{
	switch(c.rng.range(0, 9))
	{
	case 0: return 0;
	case 1: return c.rng.pick({1.5707963267948966, -1.5707963267948966, 3.141592653589793, -3.141592653589793, 0.7853981633974483});
	case 2: return c.rng.sgn() * c.rng.logu(1e-10, 1e-6);
	case 3: return c.rng.sgn() * c.rng.logu(1e-6, 1e-2);
	default: return c.rng.sym(3.5);
	}
}
struct Both { Rotation3D r; M3 m; std::string s; };
static Both axis(Case& c)
{
	double p = angle(c);
	switch(c.rng.range(0, 3))
	{
	case 0: return {Rotation3D::rotationX(p), RX(p), fmt("X(%.3g)", p)};
	case 1: return {Rotation3D::rotationY(p), RY(p), fmt("Y(%.3g)", p)};
	case 2: return {Rotation3D::rotationZ(p), RZ(p), fmt("Z(%.3g)", p)};
	default: return {Rotation3D::identity(), M3::id(), "I"};
	}
}
static Both word(Case& c, int n)
{
	Both b = axis(c);
	for(int i = 0; i < n; i++)
	{
		switch(c.rng.range(0, 7))
		{
		case 0: b.r = b.r.inv(); b.m = b.m.t(); b.s = "inv(" + b.s + ")"; break;
		case 1: b.r = b.r.rotXbyPI(); b.m = diag(1, -1, -1) * b.m * diag(1, -1, -1); b.s = "Xpi(" + b.s + ")"; break;
		case 2: b.r = b.r.rotYbyPI(); b.m = diag(-1, 1, -1) * b.m * diag(-1, 1, -1); b.s = "Ypi(" + b.s + ")"; break;
		case 3: b.r = b.r.rotZbyPI(); b.m = diag(-1, -1, 1) * b.m * diag(-1, -1, 1); b.s = "Zpi(" + b.s + ")"; break;
		case 4: { Both o = axis(c); b.r = b.r * o.r; b.m = b.m * o.m; b.s = b.s + "*" + o.s; break; }
		case 5: { Both o = axis(c); b.r = o.r * b.r; b.m = o.m * b.m; b.s = o.s + "*" + b.s; break; }
		case 6: { Rotation3D q(b.r); q = b.r; b.r = q; break; }
		case 7: { Both o = word(c, 2); b.r = b.r * o.r; b.m = b.m * o.m; b.s = b.s + "*(" + o.s + ")"; break; }
		}
	}
	return b;
}
static void cmp(Case& c, const Point3D& p, const V3& v, const char* key, double tol, const std::string& s)
{
	c.near(p.x, (double) v.x, tol, 1e-12, key, "x %s", s.c_str());
	c.near(p.y, (double) v.y, tol, 1e-12, key, "y %s", s.c_str());
	c.near(p.z, (double) v.z, tol, 1e-12, key, "z %s", s.c_str());
}
FAMILY(rotation, 60000, 3000000)
{
	Both b = word(c, c.rng.range(0, 6));
	for(int k = 0; k < 2; k++)
	{
		V3 v{(L) c.rng.sym(2), (L) c.rng.sym(2), (L) c.rng.sym(2)};
		Point3D p(v.x, v.y, v.z);
		Vector3D w(v.x, v.y, v.z);
		cmp(c, b.r * p, b.m * v, "rotate-point", 2e-13, b.s);
		cmp(c, b.r(p), b.m * v, "rotate-point-call", 2e-13, b.s);
		Vector3D o = b.r * w, o2 = b.r(w);
		cmp(c, Point3D(o.x, o.y, o.z), b.m * v, "rotate-vector", 2e-13, b.s);
		cmp(c, Point3D(o2.x, o2.y, o2.z), b.m * v, "rotate-vector-call", 2e-13, b.s);
		c.near(o.dot(o), (double) (v.x * v.x + v.y * v.y + v.z * v.z), 0, 1e-12, "norm-preserved", "%s", b.s.c_str());
		cmp(c, b.r.inv() * (b.r * p), v, "inverse-undoes", 2e-13, b.s);
		cmp(c, (b.r.inv() * b.r) * p, v, "inverse-product", 2e-13, b.s);
	}
	RealMatrix m;
	b.r.getMatrix(m);
	if(c.check(m.nrows() == 3 && m.ncols() == 3, "matrix-shape"))
		for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++)
				c.near(m(i, j), (double) b.m.a[i][j], 2e-13, 0, "matrix", "%d%d %s", i, j, b.s.c_str());
	// classification must never claim a symmetry the rotation does not have
	auto off = [&](int i, int j) { return fabsl(b.m.a[i][j] - (i == j)); };
	if(b.r.isIdentity()) { c.ev("identity"); for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) c.check(off(i, j) < 1e-11, "false-identity", "%s", b.s.c_str()); }
	if(b.r.isXrot()) { c.ev("xrot"); c.check(off(0, 0) + off(0, 1) + off(0, 2) < 1e-11, "false-xrot", "%s", b.s.c_str()); }
	if(b.r.isYrot()) c.check(off(1, 0) + off(1, 1) + off(1, 2) < 1e-11, "false-yrot", "%s", b.s.c_str());
	if(b.r.isZrot()) c.check(off(2, 0) + off(2, 1) + off(2, 2) < 1e-11, "false-zrot", "%s", b.s.c_str());
	c.note(b.s); c.nontrivial();
	c.sample(b.s);
}
// many references to few representations: value semantics of the shared representation
FAMILY(rotation_sharing, 4000, 100000)
{
	std::vector<Both> pool;
	for(int i = 0; i < 6; i++) pool.push_back(axis(c));
	for(int step = 0; step < 60; step++)
	{
		int i = c.rng.range(0, 5), j = c.rng.range(0, 5), k = c.rng.range(0, 5);
		switch(c.rng.range(0, 4))
		{
		case 0: pool[i] = pool[j]; break;
		case 1: { Both t{pool[j].r * pool[k].r, pool[j].m * pool[k].m, ""}; pool[i] = t; break; }
		case 2: { Both t{pool[j].r.inv(), pool[j].m.t(), ""}; pool[i] = t; break; }
		case 3: { Both t{pool[j].r.rotYbyPI(), diag(-1, 1, -1) * pool[j].m * diag(-1, 1, -1), ""}; pool[i] = t; break; }
		case 4: pool[i] = axis(c); break;
		}
		V3 v{(L) c.rng.sym(1), (L) c.rng.sym(1), (L) c.rng.sym(1)};
		for(int q = 0; q < 6; q++) cmp(c, pool[q].r * Point3D(v.x, v.y, v.z), pool[q].m * v, "shared-value", 1e-11, "");
	}
	c.ev("assignments", 60); c.note(uint64_t(c.idx)); c.nontrivial();
}
struct TB { Transform3D t; M3 m; V3 x; std::string s; };
static V3 app(const TB& t, V3 p) { return t.m * (p - t.x); }
static TB prim(Case& c)
{
	if(c.rng.chance(0.35))
	{
		double a = c.rng.sym(1), b = c.rng.sym(1), d = c.rng.sym(3);
		return {Transform3D::translation(a, b, d), M3::id(), {a, b, d}, "T"};
	}
	if(c.rng.chance(0.3))
	{
		double p = angle(c);
		switch(c.rng.range(0, 2))
		{
		case 0: return {Transform3D::rotationX(p), RX(p), {0, 0, 0}, fmt("X(%.3g)", p)};
		case 1: return {Transform3D::rotationY(p), RY(p), {0, 0, 0}, fmt("Y(%.3g)", p)};
		default: return {Transform3D::rotationZ(p), RZ(p), {0, 0, 0}, fmt("Z(%.3g)", p)};
		}
	}
	Both b = word(c, c.rng.range(0, 2));
	double x = c.rng.sym(1), y = c.rng.sym(1), z = c.rng.sym(2);
	return {Transform3D(Point3D(x, y, z), b.r), b.m, {x, y, z}, "TR[" + b.s + "]"};
}
static TB mul(const TB& a, const TB& b, const Transform3D& t) // a*b : first b then a
{
	TB r{t, a.m * b.m, b.x + b.m.t() * a.x, a.s + "*" + b.s};
	return r;
}
FAMILY(transform, 60000, 2000000)
{
	TB t = prim(c);
	int n = c.rng.range(0, 5);
	for(int i = 0; i < n; i++)
	{
		switch(c.rng.range(0, 6))
		{
		case 0: case 1: { TB o = prim(c); t = mul(o, t, o.t * t.t); break; }
		case 2: { TB o = prim(c); TB k = mul(o, t, Transform3D()); t.t *= o.t; k.t = t.t; t = k; break; }
		case 3: { V3 nx = t.m * t.x; t.x = {-nx.x, -nx.y, -nx.z}; t.m = t.m.t(); t.t = t.t.inv(); t.s = "inv(" + t.s + ")"; break; }
		case 4: { V3 nx = t.m * t.x; t.x = {-nx.x, -nx.y, -nx.z}; t.m = t.m.t(); t.t.invert(); t.s = "invert(" + t.s + ")"; break; }
		case 5:
		{
			M3 d; int w = c.rng.range(0, 2);
			if(w == 0) { d = diag(1, -1, -1); t.t.rotXbyPI(); }
			if(w == 1) { d = diag(-1, 1, -1); t.t.rotYbyPI(); }
			if(w == 2) { d = diag(-1, -1, 1); t.t.rotZbyPI(); }
			t.m = d * t.m * d; t.x = d * t.x; t.s = fmt("pi%d(", w) + t.s + ")";
			break;
		}
		case 6: { TB o = prim(c); t = mul(t, o, t.t * o.t); break; }
		}
	}
	V3 p{(L) c.rng.sym(2), (L) c.rng.sym(2), (L) c.rng.sym(2)};
	Point3D q(p.x, p.y, p.z);
	cmp(c, t.t * q, app(t, p), "transform-point", 1e-12, t.s);
	cmp(c, t.t(q), app(t, p), "transform-point-call", 1e-12, t.s);
	Vector3D w = t.t(Vector3D(p.x, p.y, p.z)), w2 = t.t * Vector3D(p.x, p.y, p.z);
	cmp(c, Point3D(w.x, w.y, w.z), t.m * p, "transform-vector", 1e-12, t.s);
	cmp(c, Point3D(w2.x, w2.y, w2.z), t.m * p, "transform-vector", 1e-12, t.s);
	cmp(c, t.t.inv() * (t.t * q), p, "inverse", 1e-12, t.s);
	cmp(c, (t.t.inv() * t.t) * q, p, "inverse-product", 1e-12, t.s);
	cmp(c, t.t.X(), t.x, "origin", 1e-12, t.s);
	if(t.t.isIdentity()) cmp(c, q, app(t, p), "false-identity", 1e-11, t.s);
	// associativity of the library's own product
	TB a = prim(c), b = prim(c);
	cmp(c, (a.t * (b.t * t.t)) * q, app(a, app(b, app(t, p))), "compose-is-application-order", 2e-12, t.s);
	cmp(c, ((a.t * b.t) * t.t) * q, app(a, app(b, app(t, p))), "associative", 2e-12, t.s);
	// a phase space vector is moved as the ray it stands for, re-evaluated on the new z=0 plane
	TB k = prim(c);
	while(fabsl(k.m.a[2][2]) < 0.5) k = prim(c);
	PSvector v(0); v.x() = c.rng.sym(1e-2); v.xp() = c.rng.sym(1e-2); v.y() = c.rng.sym(1e-2); v.yp() = c.rng.sym(1e-2); v.ct() = c.rng.sym(1); v.dp() = c.rng.sym(0.1);
	PSvector v0(v);
	if(c.rng.chance(0.3)) { PSvectorArray pa(1, v); PSvectorTransform3D(k.t).Apply(pa); v = pa[0]; }
	else PSvectorTransform3D(k.t).Apply(v);
	V3 X = app(k, {v0.x(), v0.y(), 0}), D = k.m * V3{v0.xp(), v0.yp(), 1};
	L xp = D.x / D.z, yp = D.y / D.z;
	c.near(v.x(), X.x - X.z * xp, 1e-11, 1e-10, "ray-x", "%s", k.s.c_str());
	c.near(v.y(), X.y - X.z * yp, 1e-11, 1e-10, "ray-y", "%s", k.s.c_str());
	c.near(v.xp(), xp, 1e-12, 1e-10, "ray-xp", "%s", k.s.c_str());
	c.near(v.yp(), yp, 1e-12, 1e-10, "ray-yp", "%s", k.s.c_str());
	c.check(v.dp() == v0.dp() && v.ct() == v0.ct(), "ray-longitudinal-untouched");
	PSvectorTransform3D(k.t.inv()).Apply(v);
	c.near(v.x(), v0.x(), 1e-10, 1e-9, "ray-roundtrip"); c.near(v.y(), v0.y(), 1e-10, 1e-9, "ray-roundtrip");
	c.near(v.xp(), v0.xp(), 1e-11, 1e-9, "ray-roundtrip"); c.near(v.yp(), v0.yp(), 1e-11, 1e-9, "ray-roundtrip");
	c.note(t.s + k.s); c.nontrivial(); c.sample(t.s);
}
FAMILY(transform2d, 20000, 500000)
{
	// value semantics: q = R p - x0
	struct T2 { Transform2D t; L cs, sn, x, y; };
	auto mk = [&]() { double a = angle(c), x = c.rng.sym(1), y = c.rng.sym(1);
		T2 t{Transform2D(x, y, a), cosl(a), sinl(a), x, y}; return t; };
	auto ap = [&](const T2& t, L x, L y, L& ox, L& oy) { ox = t.cs * x - t.sn * y - t.x; oy = t.sn * x + t.cs * y - t.y; };
	T2 a = mk(), b = mk();
	double x = c.rng.sym(1), y = c.rng.sym(1); L ox, oy, px, py;
	Point2D p = a.t(Point2D(x, y)); ap(a, x, y, ox, oy);
	c.near(p.x, ox, 1e-13, 1e-12, "apply"); c.near(p.y, oy, 1e-13, 1e-12, "apply");
	p = (b.t * a.t)(Point2D(x, y)); ap(a, x, y, px, py); ap(b, px, py, ox, oy);
	c.near(p.x, ox, 1e-13, 1e-12, "compose"); c.near(p.y, oy, 1e-13, 1e-12, "compose");
	Transform2D d(a.t); d *= b.t; p = d(Point2D(x, y));
	c.near(p.x, ox, 1e-13, 1e-12, "compose-assign"); c.near(p.y, oy, 1e-13, 1e-12, "compose-assign");
	p = a.t.inv()(a.t(Point2D(x, y)));
	c.near(p.x, x, 1e-13, 1e-12, "inverse"); c.near(p.y, y, 1e-13, 1e-12, "inverse");
	if(a.t.isIdentity()) { ap(a, x, y, ox, oy); c.near(ox, x, 1e-12, 0, "false-identity"); c.near(oy, y, 1e-12, 0, "false-identity"); }
	if(c.rng.chance(0.2))
	{
		T2 z = mk(); z.t = Transform2D(0, 0, c.rng.pick({3.141592653589793, -3.141592653589793, 0.0, 1.0}));
		if(z.t.isIdentity()) { Point2D q = z.t(Point2D(x, y)); c.near(q.x, x, 1e-12, 0, "false-identity-pi"); c.near(q.y, y, 1e-12, 0, "false-identity-pi"); }
	}
	Transform3D t3(a.t);
	c.note(a.t.rotationAngle()); c.note(x); c.nontrivial();
}
struct Tr : public Transformable {};
FAMILY(transformable, 30000, 600000)
{
	// successive displacements accumulate in the order in which they are made
	Tr* t = new Tr; M3 m = M3::id(); V3 X{0, 0, 0}; std::string s;
	int n = c.rng.range(0, 6);
	auto accum = [&](const M3& r, const V3& x) { // new = (r,x) o old
		X = X + m.t() * x; m = r * m; };
	for(int i = 0; i < n; i++)
	{
		double p = angle(c), x = c.rng.sym(1), y = c.rng.sym(1), z = c.rng.sym(1);
		switch(c.rng.range(0, 8))
		{
		case 0: t->RotateX(p); accum(RX(p), {0, 0, 0}); s += "X"; break;
		case 1: t->RotateY(p); accum(RY(p), {0, 0, 0}); s += "Y"; break;
		case 2: t->RotateZ(p); accum(RZ(p), {0, 0, 0}); s += "Z"; break;
		case 3: t->Translate(x, y, z); accum(M3::id(), {x, y, z}); s += "t"; break;
		case 4: t->TranslateX(x); accum(M3::id(), {x, 0, 0}); s += "x"; break;
		case 5: t->TranslateY(x); accum(M3::id(), {0, x, 0}); s += "y"; break;
		case 6: t->TranslateZ(x); accum(M3::id(), {0, 0, x}); s += "z"; break;
		case 7: if(c.rng.chance(0.3)) { t->ClearTransform(); m = M3::id(); X = {0, 0, 0}; s += "C"; c.check(!t->IsTransformed(), "clear"); } break;
		case 8: { Tr* u = new Tr(*t); delete t; t = u; s += "c"; Tr v; v.TranslateX(1); v = *t; *t = v; Tr& self = *t; *t = self; break; }
		}
	}
	V3 p{(L) c.rng.sym(1), (L) c.rng.sym(1), (L) c.rng.sym(1)};
	V3 e = m * (p - X);
	const Transform3D* T = t->GetTransformation();
	Point3D q(p.x, p.y, p.z); if(T) q = (*T)(q);
	cmp(c, q, e, "accumulated-displacement", 1e-12, s);
	bool moved = fabsl(e.x - p.x) + fabsl(e.y - p.y) + fabsl(e.z - p.z) > 1e-9;
	if(moved) c.check(t->IsTransformed(), "is-transformed", "%s", s.c_str());
	delete t;
	c.note(s); c.note((double) e.x); c.nontrivial();
}
