// T08: macro-particle bunches: tracking against particles and propagated moments, bunch moments, construction and conversion.
#include "lattice.h"
#include "RectMultipole.h"
#include "SMPTracker.h"
#include "SMPComponentTracker.h"
#include "SMPBunch.h"
#include "SMPBunchConstructor.h"
#include "SMPTransform3D.h"
#include "BunchConverter.h"
#include "BeamData.h"
#include "RandomNG.h"
#include "MerlinIO.h"
#include "PSmoments.h"
#include <complex>
#include <fstream>
using namespace SMPTracking;
typedef SMPTracking::SMPBunch MB; typedef SliceMacroParticle MP; typedef long double LD;
typedef std::array<double, 6> V; typedef std::vector<V> VV;
static const char* CN[] = {"x", "xp", "y", "yp", "ct", "dp"};
static std::unique_ptr<MB> macro(double P0, double q, const VV& in) { auto b = std::make_unique<MB>(P0, q); for(auto& v : in) { MP m(q / in.size()); for(int i = 0; i < 6; i++) m[i] = v[i]; b->AddParticle(m); } return b; }
static std::unique_ptr<ParticleBunch> parts(double P0, double q, const VV& in) { auto b = std::make_unique<ParticleBunch>(P0, q); for(auto& v : in) { PSvector p(0); for(int i = 0; i < 6; i++) p[i] = v[i]; b->AddParticle(p); } return b; }
template<class B> static VV coords(const B& b) { VV o; for(auto& p : b) { V v; for(int i = 0; i < 6; i++) v[i] = p[i]; o.push_back(v); } return o; }
// a positive matrix for the second moments
static void sigma(Rng& r, MP& m, double s)
{
	double a[4][4]; for(auto& w : a) for(auto& x : w) x = s * r.sym(1); if(r.chance(0.3)) for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) if(i / 2 != j / 2) a[i][j] = 0;
	for(int i = 0; i < 4; i++) for(int j = 0; j <= i; j++) { double t = 0; for(int k = 0; k < 4; k++) t += a[i][k] * a[j][k]; m.sig(i, j) = t; }
}
static double sg(const MP& m, int i, int j) { const TCovMtrx<double, 4>& t = m; return t.sig(std::max(i, j), std::min(i, j)); }
// slices: the probe vectors base, base +- A e_i, and then ones with an extent; out = centroids
struct Lin { V f0; double J[6][6]; };
static VV probes(double A, const V& base) { VV in{base}; for(int i = 0; i < 6; i++) for(double s : {1.0, -1.0}) { V v = base; v[i] += s * A; in.push_back(v); } return in; }
static Lin lin(const VV& o, double A) { Lin l; l.f0 = o[0]; for(int i = 0; i < 6; i++) for(int k = 0; k < 6; k++) l.J[k][i] = (o[1 + 2 * i][k] - o[2 + 2 * i][k]) / (2 * A); return l; }
// second moments of a slice tracked next to points of the same ct and dp
static void moments(Case& c, const std::function<void(MB&)>& go, double P0, double q, double ct, double dp, const char* key, bool ordered = true)
{
	auto& r = c.rng; MB b(P0, q); double s = r.logu(1e-7, 1e-4), big = 0; auto pt = [&](int i, double a) { MP m(0.1 * q); m.ct() = ct; m.dp() = dp; if(i >= 0) m[i] = a; b.AddParticle(m); };
	pt(-1, 0); for(int i = 0; i < 4; i++) pt(i, 1); MP m(0.5 * q); m.ct() = ct; m.dp() = dp; for(int i = 0; i < 4; i++) m[i] = r.sym(1); sigma(r, m, s); b.AddParticle(m); MP m0 = m; double Q = b.GetTotalCharge(); (void) ordered;
	go(b); if(!c.check(b.Size() == 6, key, "%zu slices of 6", b.Size())) return; c.near(b.GetTotalCharge(), Q, 0, 1e-15, (std::string(key) + "-charge").c_str(), "total charge"); for(auto& p : b) c.check(p.Q() == 0.1 * q || p.Q() == 0.5 * q, (std::string(key) + "-charge").c_str(), "charge of a slice %g", p.Q());
	LD A[4][4], z[4]; for(int i = 0; i < 4; i++) { z[i] = b.Get(0)[i]; for(int k = 0; k < 4; k++) { A[i][k] = (LD) b.Get(1 + k)[i] - z[i]; big = std::max(big, (double) fabsl(A[i][k])); } }
	const MP& o = b.Get(5);
	for(int i = 0; i < 4; i++) { LD e = z[i]; for(int k = 0; k < 4; k++) e += A[i][k] * (LD) m0[k]; c.near(o[i], (double) e, 1e-12 * (1 + big) * (1 + fabsl(z[i])), 0, (std::string(key) + "-affine").c_str(), "%s of a slice at unit distance", CN[i]); }
	double det = 1; (void) det;
	for(int i = 0; i < 4; i++) for(int j = 0; j <= i; j++) { LD e = 0; for(int k = 0; k < 4; k++) for(int l = 0; l < 4; l++) e += A[i][k] * (LD) sg(m0, k, l) * A[j][l]; c.near(sg(o, i, j), (double) e, 1e-11 * s * s * (1 + big) * (1 + big) * (1 + (double) fabsl(z[0])), 0, (std::string(key) + "-moments").c_str(), "<%s %s>, spread %g", CN[i], CN[j], s); }
	c.ev("moments");
}
template<class B, class T> static void through(B& b, T& t, AcceleratorComponent& a, int steps) { t.SetBunch(b); a.PrepareTracker(t); double L = a.GetLength(); if(steps == 1) t.Track(); else { double rem = L; for(int i = 0; i < steps; i++) rem = t.TrackStep(i == steps - 1 ? rem : L / steps); } t.Reset(); }
FAMILY(element, 6000, 100000)
{
	Quiet quiet; auto& r = c.rng; double P0 = r.logu(0.1, 7000), q = r.sgn(), L = r.pick({r.logu(0.05, 10), r.uni(0.1, 3)}), R = P0 / 0.299792458; int kind = r.range(0, 9); std::unique_ptr<AcceleratorComponent> a; std::string key; double Pm = 1, d0 = r.pick({0.0, r.sym(0.05)}), ct0 = 0; bool bend = false; int steps = r.pick({1, 1, r.range(2, 5)}); double tol = 2e-6, chr = 6 * d0 * d0; MerlinIO::std_warn = &quiet.s;
	typedef std::complex<double> C; auto k1 = [&] { return r.sgn() * r.logu(1e-4, 2 / L / L); };
	if(kind == 0) { if(r.chance(0.5)) a.reset(new Drift("D", L)); else if(r.chance(0.5)) a.reset(new Marker("D")); else { double m = r.pick({0.0, r.sym(0.5)}); if(r.chance(0.2)) { L = 0; m = 0; } a.reset(new Monitor("D", L, m * L)); if(!L) steps = 1; } if(!a->GetLength()) steps = 1; key = "drift"; }
	else if(kind == 1) { a.reset(new Quadrupole("Q", L, k1() * R)); key = "quadrupole"; }
	else if(kind == 2) { a.reset(new SkewQuadrupole("Q", L, k1() * R)); key = "skew-quadrupole"; }
	else if(kind == 3 || kind == 4)
	{
		// any direction of the gradient, with dipole kicks and fields which have no linear part
		bool thin = kind == 4; double len = thin ? 1 : L, k = thin ? r.logu(1e-4, 2) : r.logu(1e-4, 2 / L / L); C g = std::polar(k * R, r.pick({r.sym(3.14159), r.sym(3.14159), 0.0, 3.141592653589793, 1.5707963267948966})); if(r.chance(0.15)) g = 0;
		RectMultipole* m = thin ? new Quadrupole("M", 0, k * R) : new Quadrupole("M", L, k * R); m->GetField().SetComponent(1, g.real(), g.imag()); key = thin ? "thin-quadrupole" : "rotated-quadrupole";
		if(r.chance(0.6)) { C b = std::polar(1e-5 * R / len, r.sym(3.14159)); if(r.chance(0.2)) b = b.real(); m->GetField().SetComponent(0, b.real(), b.imag()); key += "-dipole"; tol = 1e-5; }
		else if(r.chance(0.4)) { m->GetField().SetComponent(2, r.sym(1) * R, r.sym(1) * R); c.ev("nonlinear"); }
		a.reset(m); if(thin) { L = 0; steps = 1; }
	}
	else if(kind == 5) { if(r.chance(0.3)) { L = 0; steps = 1; } double B = r.sgn() * r.logu(1e-7, 1e-5) * R / (L ? L : 1); if(r.chance(0.5)) a.reset(new XCor("X", L, B)); else a.reset(new YCor("Y", L, B)); key = "corrector"; }
	else if(kind == 6) { double Bs = r.sgn() * r.logu(1e-3, 2) / L * R; a.reset(new Solenoid("S", L, Bs)); key = "solenoid"; }
	else if(kind == 7) { double w = 2 * M_PI * 1.3e9 / 299792458.0, u = r.pick({r.sym(1e-3), r.sym(0.5), r.uni(0, 8)}); ct0 = r.pick({0.0, r.sym(0.2)}); d0 = r.pick({0.0, r.sym(0.02)}); chr = 0; double ph = r.sym(3.2); if(1 + d0 + u * std::min(std::cos(ph), std::cos(ph - w * ct0)) < 0.2) return; a.reset(new TWRFStructure("T", L, 1.3e9, u * P0 / L, ph)); key = "accelerating"; }
	else if(kind == 8) { if(r.chance(0.5)) a.reset(new Sextupole("S", L, r.sym(10) * R)); else a.reset(new Octupole("S", L, r.sym(10) * R)); key = "sextupole"; }
	else
	{
		bend = true; d0 = 0; q = 1; double h = r.sgn() * r.logu(1e-4, std::min(1.5, 2 * L)) / L; Pm = r.chance(0.7) ? 1 : 1 + r.sgn() * r.logu(2e-5, 1e-3); auto s = new SectorBend("B", L, h, h * R * Pm); a.reset(s); key = "bend";
		if(r.chance(0.4)) { s->SetB1(k1() * R); key += "-gradient"; }
		if(r.chance(0.4)) { s->GetGeometry().SetTilt(r.pick({r.sym(3), M_PI / 2, -M_PI / 2})); key += "-tilt"; }
		if(r.chance(0.5)) { double fi = r.chance(0.5) ? 0 : r.uni(0.2, 0.7), hg = r.uni(0, 0.05); int w = r.range(0, 2); auto pf = [&] { return new SectorBend::PoleFace(r.sym(0.5), fi, hg); }; if(w == 0) s->SetPoleFaceInfo(pf()); else if(w == 1) { auto p1 = pf(); s->SetPoleFaceInfo(p1, pf()); } else s->SetPoleFaceInfo(pf(), nullptr); key += "-face"; c.ev("pole-faces"); }
		if(Pm != 1) key += "-mismatched";
	}
	double A = 1e-6, l2 = a->GetLength(); V base{{0, 0, 0, 0, ct0, d0}}; if(bend) { for(int i = 0; i < 4; i++) base[i] = 0; } VV in = probes(A, base);
	auto mb = macro(P0, q, in); auto pb = parts(P0, q, in); SMPComponentTracker st; ParticleComponentTracker pt(iset(0)); through(*mb, st, *a, steps); through(*pb, pt, *a, steps);
	c.near(mb->GetReferenceMomentum(), pb->GetReferenceMomentum(), 0, 1e-12, (key + "-reference").c_str(), "reference momentum"); c.near(mb->GetReferenceTime(), pb->GetReferenceTime(), 1e-12, 0, (key + "-reference").c_str(), "reference time");
	Lin m = lin(coords(*mb), A), p = lin(coords(*pb), A); double big = 1; for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) big = std::max(big, std::fabs(p.J[i][j]));
	for(int i = 0; i < 6; i++)
	{
		if(i == 4 && !bend) { c.check(m.f0[4] == ct0, (key + "-ct").c_str(), "ct %g from %g", m.f0[4], ct0); continue; }
		c.near(m.f0[i], p.f0[i], 1e-12 * (1 + l2) * big + (Pm != 1 ? 4 * (Pm - 1) * (Pm - 1) * (1 + l2) * big : 0) + (tol + chr) * std::max({std::fabs(p.f0[i]), std::hypot(p.f0[0], p.f0[2]), std::hypot(p.f0[1], p.f0[3]) * (1 + l2)}) * (i < 4), 0, (key + "-orbit").c_str(), "%s steps %d", CN[i], steps);
		for(int j = 0; j < 6; j++) if(bend || (j < 4 && i < 4)) c.near(m.J[i][j], p.J[i][j], (tol + chr) * (std::sqrt(std::fabs(p.J[i][i] * p.J[j][j])) + std::fabs(p.J[i][j]) + 1e-3) + 5 * std::fabs(Pm - 1) * big * (1 + l2) + 1e-8 * (1 + l2) * big, 0, key.c_str(), "d%s/d%s L=%g P0=%g q=%g steps %d", CN[i], CN[j], l2, P0, q, steps);
	}
	moments(c, [&](MB& b) { SMPComponentTracker t; through(b, t, *a, steps); }, P0, q, ct0, d0, key.c_str());
	c.ev(key.substr(0, key.find('-')).c_str()); if(steps > 1) c.ev("steps"); c.note(L); c.nontrivial(); MerlinIO::std_warn = &std::cerr;
}
// beamlines, misaligned
FAMILY(beamline, 1500, 25000)
{
	Quiet quiet; MerlinIO::std_warn = &quiet.s; auto& r = c.rng; double P0 = r.logu(0.5, 500), q = 1; int n = r.range(1, 12); bool rf = r.chance(0.4); AcceleratorModelConstructor mc; std::vector<LatticeFrame*> fr; int depth = 0; double eps = 1e-6;
	for(int i = 0; i < n; i++)
	{
		if(depth < 2 && r.chance(0.2)) { auto f = r.chance(0.5) ? new SequenceFrame("S") : (SequenceFrame*) new GirderMount("G"); mc.NewFrame(f); fr.push_back(f); depth++; }
		if(r.chance(0.1)) { auto g = new GeometryPatch; g->TranslateX(eps * r.sym(1)); g->RotateY(eps * r.sym(1)); if(r.chance(0.5)) g->RotateZ(r.sym(1)); mc.AppendComponentFrame(new PatchFrame(g, "PATCH")); c.ev("patches"); }
		int t = r.pick({DRIFT, DRIFT, MARKER, QUAD, QUAD, SKEWQUAD, XCOR, YCOR, rf ? TWRF : SBEND, rf ? TWRF : SBEND, SOLENOID, MONITOR, SEXT}); double l = r.uni(0.05, 1.5);
		if(t == XCOR || t == YCOR) { double B = eps * r.sym(1) * P0 / 0.299792458 / l; append(mc, t, t == XCOR ? (AcceleratorComponent*) new XCor("C", l, B) : new YCor("C", l, B)); } else append(mc, t, make(c, t, r.pick({"A", "B", "Q1", "Q2"}), l, P0, t == SEXT ? 0 : t == TWRF ? 30 : 1));
		if(depth && r.chance(0.3)) { mc.EndFrame(); depth--; }
	}
	while(depth--) mc.EndFrame(); std::unique_ptr<AcceleratorModel> m(mc.GetModel()); auto bl = m->GetBeamline(); for(auto i = bl.begin(); i != bl.end(); i++) if(r.chance(0.4)) fr.push_back(*i); bool mis = r.chance(0.8);
	if(mis) for(auto f : fr) { f->TranslateX(eps * r.sym(1)); f->TranslateY(eps * r.sym(1)); if(r.chance(0.5)) f->RotateX(eps * r.sym(1)); if(r.chance(0.5)) f->RotateY(eps * r.sym(1)); if(r.chance(0.7)) f->RotateZ(r.pick({1e-4, 1e-3, 0.1}) * r.sym(1)); }
	VV in; for(int i = 0; i < 6; i++) { V v; for(int k = 0; k < 4; k++) v[k] = eps * r.sym(1); v[4] = rf ? r.sym(0.003) : eps * r.sym(1); v[5] = rf ? r.sym(0.003) : eps * r.sym(1); in.push_back(v); } V z{{0, 0, 0, 0, 0, 0}}; in.push_back(z);
	auto mb = macro(P0, q, in); auto pb = parts(P0, q, in); { SMPTracker t(m->GetBeamline(), mb.get()); t.Track(mb.get()); } auto run = [&](ParticleBunch& b) { ParticleTracker t(m->GetBeamline(), &b); t.SetIntegratorSet(new TRANSPORT::StdISet); t.Track(&b); };
	run(*pb); VV a = coords(*mb), b = coords(*pb); double g = 0; for(auto& v : b) for(int k = 0; k < 4; k++) g = std::max(g, std::fabs(v[k])); if(!(g < 200 * eps)) return;
	c.near(mb->GetReferenceMomentum(), pb->GetReferenceMomentum(), 0, 1e-12, "beamline-reference", "reference momentum");
	for(size_t i = 0; i < in.size(); i++) for(int k = 0; k < 6; k++) if(k != 4 || !rf) c.near(a[i][k], b[i][k], k == 5 ? 1e-11 + 100 * g * g : k == 4 ? 1e-3 * g : (rf ? 2e-3 : 1e-4) * g + g * g * 20 , 0, rf ? "beamline-rf" : "beamline", "%s of slice %zu of a line of %d (effect %g)", CN[k], i, n, g);
	moments(c, [&](MB& s) { SMPTracker t(m->GetBeamline(), &s); t.Track(&s); }, P0, q, rf ? r.sym(0.01) : 0, rf ? r.sym(0.01) : 0, "beamline");
	c.ev(mis ? "misaligned" : "aligned"); c.note(g); c.nontrivial(); MerlinIO::std_warn = &std::cerr;
}
FAMILY(transform, 4000, 60000)
{
	auto& r = c.rng; Transform3D t; bool any = r.chance(0.5); double eps = 1e-5; int n = any ? r.range(1, 3) : r.range(1, 5); double rz = 0;
	for(int i = 0; i < n; i++) switch(r.range(any ? 1 : 0, any ? 2 : 5)) { case 1: { double s = any ? r.pick({r.sym(3.2), r.logu(1e-6, 3) * r.sgn(), M_PI, M_PI / 2}) : r.logu(1e-6, 0.1) * r.sgn(); t = Transform3D::rotationZ(s) * t; rz += s; c.ev("rolled"); } break; case 2: case 0: t = Transform3D::translation(any ? r.sym(1) : eps * r.sym(1), any ? r.sym(1) : eps * r.sym(1), 0) * t; break; case 3: t = Transform3D::rotationX(eps * r.sym(1)) * t; break; default: t = Transform3D::rotationY(eps * r.sym(1)) * t; }
	double A = any ? 1 : 1e-4; VV in; for(int i = 0; i < 5; i++) { V v; for(int k = 0; k < 4; k++) v[k] = (k & 1 && any ? 1e-3 : 1) * A * r.sym(1); v[4] = r.sym(1e-3); v[5] = r.sym(1e-2); in.push_back(v); }
	auto mb = macro(10, 1, in); auto pb = parts(10, 1, in); mb->ApplyTransformation(t); pb->ApplyTransformation(t); VV a = coords(*mb), b = coords(*pb);
	for(size_t i = 0; i < in.size(); i++) for(int k = 0; k < 6; k++) if(k != 4) c.near(a[i][k], b[i][k], any ? 3e-12 : 1e-3 * A * eps * 10 + 1e-9 * A, 0, any ? "transform-plane" : "transform-small", "%s after a roll of %g", CN[k], rz); else c.check(a[i][4] == in[i][4], "transform-ct");
	moments(c, [&](MB& s) { s.ApplyTransformation(t); }, 10, 1, 0, 0, "transform"); SMPTransform3D x(t); MP m(1); for(int k = 0; k < 6; k++) m[k] = in[0][k]; x.Apply(m); for(int k = 0; k < 6; k++) c.check(m[k] == a[0][k], "transform-one"); c.note(rz); c.nontrivial();
}
static void stats(Case& c, const MB& b, const char* key)
{
	LD q = 0, z[6] = {}, s[6][6] = {}; double sc[6] = {}; for(auto& p : b) { q += p.Q(); for(int i = 0; i < 6; i++) { z[i] += (LD) p.Q() * (LD) p[i]; sc[i] = std::max(sc[i], std::fabs(p[i])); if(i < 4) sc[i] = std::max(sc[i], std::sqrt(sg(p, i, i))); } } for(auto& x : z) x /= q;
	for(auto& p : b) for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) s[i][j] += (LD) p.Q() / q * (((LD) p[i] - z[i]) * ((LD) p[j] - z[j]) + (i < 4 && j < 4 ? (LD) sg(p, i, j) : 0));
	c.near(b.GetTotalCharge(), (double) q, 0, 1e-12, key, "total charge of %zu slices", b.Size()); PSmoments S; b.GetMoments(S); PSvector g; b.GetCentroid(g);
	for(int i = 0; i < 6; i++) { c.near(S[i], (double) z[i], 1e-12 * sc[i], 0, key, "mean %s", CN[i]); c.near(g[i], (double) z[i], 1e-12 * sc[i], 0, key, "centroid %s", CN[i]); for(int j = 0; j <= i; j++) c.near(S(i, j), (double) s[i][j], 1e-12 * sc[i] * sc[j], 0, key, "<%s %s>", CN[i], CN[j]); }
	int u = c.rng.range(0, 5), v = c.rng.range(0, 5); if(u == v) v = (u + 1) % 6; PSmoments2D P; P[0] = 7; P(0, 0) = 3; P(0, 1) = 5; b.GetProjectedMoments(u, v, P); Point2D pc = b.GetProjectedCentroid(u, v);
	c.near(pc.x, (double) z[u], 1e-12 * sc[u], 0, key, "projected centroid %s", CN[u]); c.near(pc.y, (double) z[v], 1e-12 * sc[v], 0, key, "projected centroid %s", CN[v]);
	c.near(P[0], (double) z[u], 1e-12 * sc[u], 0, key, "projected mean %s", CN[u]); c.near(P[1], (double) z[v], 1e-12 * sc[v], 0, key, "projected mean %s", CN[v]); c.near(P(0, 0), (double) s[u][u], 1e-12 * sc[u] * sc[u], 0, key, "projected <%s %s>", CN[u], CN[u]); c.near(P(0, 1), (double) s[u][v], 1e-12 * sc[u] * sc[v], 0, key, "projected <%s %s>", CN[u], CN[v]); c.near(P(1, 1), (double) s[v][v], 1e-12 * sc[v] * sc[v], 0, key, "projected <%s %s>", CN[v], CN[v]); c.ev("statistics");
}
static MP slice(Rng& r, double q) { MP m(q * r.uni(0.1, 1)); double s = r.logu(1e-7, 1e-3); for(int i = 0; i < 4; i++) m[i] = r.pick({r.sym(1e-3), r.sym(10 * s), 0.0}); m.ct() = r.sym(1e-2); m.dp() = r.sym(0.1); if(!r.chance(0.1)) sigma(r, m, s); return m; }
FAMILY(bunch, 2000, 30000)
{
	auto& r = c.rng; double q = r.sgn() * r.logu(1e-2, 1e10), P0 = r.logu(0.1, 1000); MB b(P0, q); int n = r.pick({1, 2, 3, r.range(4, 60)}); for(int i = 0; i < n; i++) b.AddParticle(slice(r, q), r.chance(0.2)); b.SetReferenceTime(r.sym(10)); stats(c, b, "moments"); c.check(b.GetChargeSign() == (q > 0 ? 1 : -1), "charge-sign"); c.check((int) b.Size() == n, "size");
	for(int k = r.range(1, 6); k--; )
	{
		VV o = coords(b); std::vector<MP> keep(b.begin(), b.end()); PSvector g; b.GetCentroid(g); double p0 = b.GetReferenceMomentum(), t0 = b.GetReferenceTime();
		switch(r.range(0, 6))
		{
		case 0: { double p = b.AdjustRefMomentumToMean(); c.near(p, p0 * (1 + g.dp()), 0, 1e-12, "reference-momentum"); c.check(p == b.GetReferenceMomentum(), "reference-momentum"); int i = 0; for(auto& m : b) { c.near((1 + m.dp()) * p, (1 + o[i][5]) * p0, 0, 1e-12, "reference-momentum", "momentum of a slice"); for(int j = 0; j < 5; j++) c.check(m[j] == o[i][j], "reference-momentum", "%s changed", CN[j]); i++; } PSvector h; b.GetCentroid(h); c.near(h.dp(), 0, 1e-13, 0, "reference-momentum"); c.ev("reference"); break; }
		case 1: { double t = b.AdjustRefTimeToMean(); c.near(t, t0 - g.ct(), 1e-13 * (1 + std::fabs(t0)), 0, "reference-time", "new reference time"); c.check(t == b.GetReferenceTime(), "reference-time"); int i = 0; for(auto& m : b) { c.near(m.ct(), o[i][4] - g.ct(), 1e-15, 0, "reference-time", "ct of a slice"); i++; } c.ev("reference"); break; }
		case 2: { PSvector d(0); for(int i = 0; i < 6; i++) d[i] = r.sym(1e-3); b.AdjustCentroid(d); int i = 0; for(auto& m : b) { for(int j = 0; j < 6; j++) c.near(m[j], o[i][j] + d[j], 1e-15, 0, "adjust-centroid"); i++; } break; }
		case 3: { b.SortByCT(); bool ok = true; for(size_t i = 1; i < b.Size(); i++) ok = ok && b.Get(i - 1).ct() <= b.Get(i).ct(); c.check(ok, "sorted"); std::vector<double> x, y; for(auto& m : b) x.push_back(m.Q()); for(auto& m : keep) y.push_back(m.Q()); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); c.check(x == y, "sorted", "the slices are not the same"); c.ev("sorted"); break; }
		case 4: { b.AddParticle(slice(r, q), r.chance(0.5)); break; }
		case 5: { MB d(b); std::unique_ptr<MB> e(b.Clone()); for(MB* x : {&d, e.get()}) { c.check(coords(*x) == o && x->GetTotalCharge() == b.GetTotalCharge() && x->GetReferenceMomentum() == p0 && x->GetReferenceTime() == t0 && x->GetChargeSign() == b.GetChargeSign(), "copy"); } break; }
		default: { std::string fn = vh::scratch() + "/smp.dat"; { std::ofstream f(fn); b.Output(f); } MB d(fn); if(!c.check(d.Size() == b.Size(), "file", "%zu slices of %zu", d.Size(), b.Size())) break; c.near(d.GetReferenceMomentum(), p0, 0, 1e-5, "file", "reference momentum"); c.near(d.GetReferenceTime(), t0, 1e-5 * (1 + std::fabs(t0)), 0, "file", "reference time"); c.near(d.GetTotalCharge(), b.GetTotalCharge(), 0, 2e-6, "file", "charge"); c.check(d.GetChargeSign() == b.GetChargeSign(), "file", "charge sign"); std::sort(keep.begin(), keep.end()); // read back in the order of ct
			for(size_t i = 0; i < keep.size(); i++) { bool near = (i && keep[i].ct() - keep[i - 1].ct() < 1e-7) || (i + 1 < keep.size() && keep[i + 1].ct() - keep[i].ct() < 1e-7); if(near) continue; for(int j = 0; j < 6; j++) c.near(d.Get(i)[j], keep[i][j], 0, 1e-6, "file", "%s of slice %zu", CN[j], i); c.near(d.Get(i).Q(), keep[i].Q(), 0, 1e-6, "file", "charge"); for(int j = 0; j < 4; j++) for(int l = 0; l <= j; l++) c.near(sg(d.Get(i), j, l), sg(keep[i], j, l), 2e-6 * std::sqrt(sg(keep[i], j, j) * sg(keep[i], l, l)), 0, "file", "<%s %s>", CN[j], CN[l]); } c.ev("files"); break; }
		}
	}
	stats(c, b, "moments"); c.note((double) n); c.note(q); c.nontrivial();
}
static BeamData beam(Rng& r, double& q)
{
	BeamData d; d.p0 = r.logu(0.1, 1000); q = r.sgn() * r.logu(1, 1e10); d.charge = q; d.beta_x = r.logu(0.1, 100); d.beta_y = r.logu(0.1, 100); d.alpha_x = r.sym(3); d.alpha_y = r.sym(3); d.emit_x = r.logu(1e-12, 1e-6); d.emit_y = r.logu(1e-12, 1e-6); d.sig_z = r.logu(1e-5, 1e-2); d.sig_dp = r.logu(1e-5, 1e-2);
	if(r.chance(0.5)) { d.x0 = r.sym(1e-3); d.xp0 = r.sym(1e-4); d.y0 = r.sym(1e-3); d.yp0 = r.sym(1e-4); d.ct0 = r.sym(0.1); } if(r.chance(0.5)) { d.Dx = r.sym(1); d.Dxp = r.sym(0.1); d.Dy = r.sym(1); d.Dyp = r.sym(0.1); } return d;
}
FAMILY(constructor, 800, 10000)
{
	auto& r = c.rng; double q; BeamData d = beam(r, q); int ns = r.range(1, 40), np = r.range(1, 20); SMPBunchConstructor k(d, ns, np); std::unique_ptr<MB> b(k.ConstructSMPBunch()); if(!c.check((int) b->Size() == ns * np, "constructor-size")) return; c.near(b->GetReferenceMomentum(), d.p0, 0, 0, "constructor-momentum"); c.check(b->GetChargeSign() == (q > 0 ? 1 : -1), "constructor-sign");
	auto w = [](int i, int n) { LD a = -3 + 6.0L * i / n, e = a + 6.0L / n; return 0.5L * (erfl(e / sqrtl(2)) - erfl(a / sqrtl(2))); }; LD tot = erfl(3 / sqrtl(2)); c.near(b->GetTotalCharge(), (double) (q * tot * tot), 0, 1e-6, "constructor-charge");
	double sx[4] = {d.emit_x * d.beta_x, d.emit_x * (1 + d.alpha_x * d.alpha_x) / d.beta_x, d.emit_y * d.beta_y, d.emit_y * (1 + d.alpha_y * d.alpha_y) / d.beta_y}, o[4] = {d.x0, d.xp0, d.y0, d.yp0}, D[4] = {d.Dx, d.Dxp, d.Dy, d.Dyp};
	for(int i = 0; i < ns; i++) for(int j = 0; j < np; j++)
	{
		const MP& m = b->Get(i * np + j); LD z = d.ct0 + d.sig_z * (-3 + 6 * (i + 0.5L) / ns), p = d.sig_dp * (-3 + 6 * (j + 0.5L) / np); c.near(m.ct(), (double) z, 1e-11 * (d.sig_z + std::fabs(d.ct0)), 0, "constructor-slices", "ct"); c.near(m.dp(), (double) p, 1e-11 * d.sig_dp, 0, "constructor-slices", "dp"); c.near(m.Q(), (double) (q * w(i, ns) * w(j, np)), 1e-6 * std::fabs(q) / ns / np, 0, "constructor-slices", "charge");
		for(int l = 0; l < 4; l++) { c.near(m[l], (double) (o[l] + D[l] * p), 1e-11 * (std::fabs(o[l]) + std::fabs(D[l]) * d.sig_dp), 0, "constructor-centroid", "%s", CN[l]); c.near(sg(m, l, l), sx[l], 0, 1e-11, "constructor-moments", "<%s %s>", CN[l], CN[l]); }
		c.near(sg(m, 0, 1), -d.alpha_x * d.emit_x, 1e-11 * d.emit_x, 0, "constructor-moments"); c.near(sg(m, 2, 3), -d.alpha_y * d.emit_y, 1e-11 * d.emit_y, 0, "constructor-moments"); for(int l = 0; l < 2; l++) for(int n = 2; n < 4; n++) c.check(sg(m, l, n) == 0, "constructor-moments", "coupling");
	}
	c.ev("constructed"); c.note((double) ns); c.note((double) np); c.note(d.emit_x); c.nontrivial();
}
FAMILY(convert, 150, 2000)
{
	Quiet quiet; auto& r = c.rng; RandomNG::init((uint32_t) r.next()); double q; BeamData d = beam(r, q); int ns = r.range(1, 8), np = r.range(1, 5); std::unique_ptr<MB> s(SMPBunchConstructor(d, ns, np).ConstructSMPBunch()); s->SetReferenceTime(r.sym(3)); bool adj = r.chance(0.7), flat = r.chance(0.1); if(flat) for(auto& m : *s) for(int i = 0; i < 4; i++) for(int j = 0; j <= i; j++) m.sig(i, j) = 0;
	int N = r.range(1000, 6000); std::unique_ptr<ParticleBunch> b(SMPBunchConverter(s.get(), N, adj)); long n = 0; for(auto& m : *s) n += (long) (N * (m.Q() / s->GetTotalCharge()) + 0.5); c.check(std::labs(n - (long) b->size()) <= 2, "to-particles-count", "%zu particles, expected %ld", b->size(), n); c.near(b->GetTotalCharge(), s->GetTotalCharge(), 0, 1e-12, "to-particles-charge"); c.near(b->GetReferenceMomentum(), d.p0, 0, 1e-15, "to-particles-momentum"); c.near(b->GetReferenceTime(), s->GetReferenceTime(), 0, 1e-15, "to-particles-time"); c.check(b->GetChargeSign() == s->GetChargeSign(), "to-particles-charge", "sign");
	PSvector g, h; s->GetCentroid(g); b->GetCentroid(h); PSmoments S, P; s->GetMoments(S); b->GetMoments(P); double bins = 1.0 / std::sqrt((double) b->size());
	for(int i = 0; i < 6; i++) { double sd = S.std(i), bin = i == 4 ? 6 * d.sig_z / ns : i == 5 ? 6 * d.sig_dp / np : 0; if((i == 4 && ns == 1) || (i == 5 && np == 1)) bin = 0; bin = bin + (i < 4 ? std::fabs((i == 0 ? d.Dx : i == 1 ? d.Dxp : i == 2 ? d.Dy : d.Dyp)) * 6 * d.sig_dp / np : 0); c.near(h[i], g[i], adj ? 1e-10 * (sd + bin + std::fabs(g[i]) + 1e-12) : 6 * bins * (sd + bin) + 0.02 * (sd + bin) + 1e-9 * std::fabs(g[i]), 0, adj ? "to-particles-centroid" : "to-particles-mean", "%s", CN[i]);
		if(i < 4) c.near(P.std(i) * P.std(i), sd * sd, (8 * bins + 0.06) * sd * sd + 1e-20, 0, "to-particles-spread", "%s", CN[i]); else if(bin) { double e = sd * sd + bin * bin / 4; c.near(P.std(i) * P.std(i), e, (8 * bins + 0.08) * e, 0, "to-particles-spread", "%s of %d", CN[i], i == 4 ? ns : np); } else c.near(P.std(i), 0, 1e-10 * (1e-3 + std::fabs(g[i])), 0, "to-particles-spread", "%s", CN[i]); }
	// and slices from particles
	ParticleBunch pb(d.p0, q); int m = r.range(2, 300); pb.SetReferenceTime(r.sym(2)); for(int i = 0; i < m; i++) { PSvector p(0); for(int k = 0; k < 4; k++) p[k] = 1e-3 * r.normal(); p.ct() = d.ct0 + d.sig_z * r.normal(); p.dp() = d.sig_dp * r.normal(); pb.AddParticle(p); }
	int nc = r.range(1, 12), nd = r.range(1, 8); double sz = r.pick({0.0, 0.0, r.uni(1.5, 4)}), sp = r.pick({0.0, 0.0, r.uni(1.5, 4)}); adj = r.chance(0.6); std::unique_ptr<MB> t(ParticleBunchConverter(&pb, nc, nd, sz, sp, adj)); PSmoments M; pb.GetMoments(M); if(!c.check((int) t->Size() == nc * nd, "to-slices-size")) return;
	c.near(t->GetTotalCharge(), pb.GetTotalCharge(), 0, 1e-12, "to-slices-charge"); c.check(t->GetReferenceTime() == pb.GetReferenceTime() && t->GetReferenceMomentum() == pb.GetReferenceMomentum(), "to-slices-reference");
	double lo[2], hi[2]; for(int k = 0; k < 2; k++) { double ns2 = k ? sp : sz; lo[k] = 1e99; hi[k] = -1e99; for(auto& p : pb) { lo[k] = std::min(lo[k], p[4 + k]); hi[k] = std::max(hi[k], p[4 + k]); } if(ns2) { lo[k] = M[4 + k] - ns2 * M.std(4 + k); hi[k] = M[4 + k] + ns2 * M.std(4 + k); } }
	std::vector<double> cnt(nc * nd, 0.0); double all = 0; bool edge = false; for(auto& p : pb) { int ix[2]; bool in = true; for(int k = 0; k < 2; k++) { double u = (p[4 + k] - lo[k]) / (hi[k] - lo[k]) * (k ? nd : nc); int n2 = k ? nd : nc; if(u < 0 || u > n2) in = false; if(std::fabs(u - std::round(u)) < 1e-9 && !(std::fabs(u) < 1e-9 && !(k ? sp : sz)) && !(std::fabs(u - n2) < 1e-9 && !(k ? sp : sz))) edge = true; ix[k] = std::max(0, std::min(n2 - 1, (int) u)); } if(in) { cnt[ix[0] * nd + ix[1]]++; all++; } }
	PSvector tc; t->GetCentroid(tc); if(!edge && all) { PSvector mc(0); for(int i = 0; i < nc; i++) for(int j = 0; j < nd; j++) { mc.ct() += cnt[i * nd + j] / all * (lo[0] + (hi[0] - lo[0]) * (i + 0.5) / nc); mc.dp() += cnt[i * nd + j] / all * (lo[1] + (hi[1] - lo[1]) * (j + 0.5) / nd); }
		for(int i = 0; i < nc; i++) for(int j = 0; j < nd; j++) { const MP& x = t->Get(i * nd + j); c.near(x.Q(), pb.GetTotalCharge() * cnt[i * nd + j] / all, 1e-12 * std::fabs(q) * m, 0, "to-slices", "charge of slice %d,%d of %d %d, %g %g particles %d all %g", i, j, nc, nd, sz, sp, m, all); c.near(x.ct(), lo[0] + (hi[0] - lo[0]) * (i + 0.5) / nc + (adj ? M[4] - mc.ct() : 0), 1e-11 * (d.sig_z + std::fabs(d.ct0)), 0, "to-slices", "ct"); c.near(x.dp(), lo[1] + (hi[1] - lo[1]) * (j + 0.5) / nd + (adj ? M[5] - mc.dp() : 0), 1e-11 * d.sig_dp, 0, "to-slices", "dp"); for(int k = 0; k < 4; k++) for(int l = 0; l <= k; l++) c.near(sg(x, k, l), M(k, l), 0, 1e-12, "to-slices", "moments"); } c.ev("binned"); }
	if(adj) for(int i = 0; i < 6; i++) c.near(tc[i], M[i], 1e-11 * (1e-3 + std::fabs(M[i]) + M.std(i)), 0, "to-slices-centroid", "%s", CN[i]); c.ev("converted"); c.note(q); c.nontrivial();
}
