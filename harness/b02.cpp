// B02: constructed bunches follow the requested beam distribution.
#include "vh.h"
#include "ParticleBunch.h"
#include "ProtonBunch.h"
#include "ElectronBunch.h"
#include "ParticleDistributionGenerator.h"
#include "HaloParticleDistributionGenerator.h"
#include "BunchFilter.h"
#include "BeamData.h"
#include "NormalTransform.h"
#include "MultiNormal.h"
#include "SMPBunchConstructor.h"
#include "RandomNG.h"
using namespace vh; using namespace ParticleTracking;
typedef long double L; typedef std::array<std::array<L, 6>, 6> M6;
struct Quiet { std::ostringstream s; std::streambuf* o; Quiet() : o(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); } };
static M6 ident() { M6 r{}; for(int i = 0; i < 6; i++) r[i][i] = 1; return r; }
static M6 mul(const M6& a, const M6& b) { M6 r{}; for(int i = 0; i < 6; i++) for(int k = 0; k < 6; k++) for(int j = 0; j < 6; j++) r[i][j] += a[i][k] * b[k][j]; return r; }
// inverse of the normalising transformation, plane by plane: dispersion, then beta/alpha, then coupling
struct Norm
{
	const BeamData& b; L cb[2][2], h; // coupling block [[a,b],[-c,-d]]
	explicit Norm(const BeamData& bd) : b(bd)
	{
		L det = (L) b.c_xyp * b.c_xpy - (L) b.c_xy * b.c_xpyp, z = 1; h = 1; if(det > 0) { L s = sqrtl(det); h = cosl(s); z = sinl(s) / s; } else if(det < 0) { L s = sqrtl(-det); h = coshl(s); z = sinhl(s) / s; }
		cb[0][0] = b.c_xy * z; cb[0][1] = b.c_xyp * z; cb[1][0] = -b.c_xpy * z; cb[1][1] = -b.c_xpyp * z;
	}
	void toNormal(const PSvector& p, L* n) const // without centroid
	{
		L d = p.dp(), x[4] = {p.x() - b.x0 - b.Dx * d, p.xp() - b.xp0 - b.Dxp * d, p.y() - b.y0 - b.Dy * d, p.yp() - b.yp0 - b.Dyp * d};
		L v[4]; for(int k = 0; k < 2; k++) { L be = k ? b.beta_y : b.beta_x, al = k ? b.alpha_y : b.alpha_x; v[2 * k] = x[2 * k] / sqrtl(be); v[2 * k + 1] = sqrtl(be) * x[2 * k + 1] + al * v[2 * k]; }
		// inverse of [[h, B],[-adj(B), h]] is [[h,-B],[adj(B),h]] (det B + h^2 = 1)
		L ad[2][2] = {{cb[1][1], -cb[0][1]}, {-cb[1][0], cb[0][0]}};
		for(int i = 0; i < 2; i++) { n[i] = h * v[i] - cb[i][0] * v[2] - cb[i][1] * v[3]; n[2 + i] = h * v[2 + i] + ad[i][0] * v[0] + ad[i][1] * v[1]; }
		n[4] = p.ct() - b.ct0; n[5] = d;
	}
};
static BeamData beam(Case& c, bool coupling, bool disp)
{
	BeamData b; b.beta_x = c.rng.logu(0.01, 1000); b.beta_y = c.rng.logu(0.01, 1000); b.alpha_x = c.rng.pick({0.0, c.rng.sym(3)}); b.alpha_y = c.rng.pick({0.0, c.rng.sym(3)}); b.emit_x = c.rng.logu(1e-12, 1e-4); b.emit_y = c.rng.chance(0.2) ? b.emit_x : c.rng.logu(1e-12, 1e-4);
	b.sig_z = c.rng.pick({0.0, c.rng.logu(1e-6, 0.1)}); b.sig_dp = c.rng.pick({0.0, c.rng.logu(1e-6, 0.01)}); b.p0 = c.rng.logu(0.1, 7000); b.charge = c.rng.sgn() * c.rng.logu(1, 1e11);
	if(c.rng.chance(0.6)) { b.x0 = c.rng.sym(1) * 1e-2; b.xp0 = c.rng.sym(1) * 1e-3; b.y0 = c.rng.sym(1) * 1e-2; b.yp0 = c.rng.sym(1) * 1e-3; b.ct0 = c.rng.sym(1) * 1e-2; }
	if(disp) { b.Dx = c.rng.sym(2); b.Dxp = c.rng.sym(0.3); b.Dy = c.rng.sym(1); b.Dyp = c.rng.sym(0.3); }
	if(coupling) { double s = c.rng.logu(1e-3, 0.7); b.c_xy = c.rng.chance(0.7) * s * c.rng.sym(1); b.c_xyp = c.rng.chance(0.7) * s * c.rng.sym(1); b.c_xpy = c.rng.chance(0.7) * s * c.rng.sym(1); b.c_xpyp = c.rng.chance(0.7) * s * c.rng.sym(1); }
	return b;
}
struct Custom : ParticleBunchFilter { double lo, hi; mutable long calls = 0; bool Apply(const PSvector& v) const override { calls++; return v.x() >= lo && v.x() <= hi; } };
enum { NORMAL, UNIFORM, RING, HH1, VH1, HH2, VH2 };
static const char* gn[] = {"normal", "uniform", "ring", "halo1-h", "halo1-v", "halo2-h", "halo2-v"};
static double cutvar(double k) { double pdf = exp(-k * k / 2) / sqrt(2 * M_PI), P = erf(k / M_SQRT2); return 1 - 2 * k * pdf / P; }
FAMILY(bunches, 2500, 60000)
{
	Quiet q; int g = c.rng.range(0, 6); bool coup = c.rng.chance(0.4), disp = c.rng.chance(0.5); BeamData b = beam(c, coup, disp); PSvector cut(0); for(int i = 0; i < 6; i++) cut[i] = c.rng.chance(0.5) ? c.rng.uni(0.3, 4) : 0; if(c.rng.chance(0.2)) for(int i = 0; i < 6; i++) cut[i] = 2.5; double hs = c.rng.chance(0.3) ? 1.0 : c.rng.uni(0.1, 10);
	std::unique_ptr<ParticleDistributionGenerator> gen;
	switch(g) { case NORMAL: if(c.rng.chance(0.2)) { for(int i = 0; i < 6; i++) cut[i] = c.rng.chance(0.5) ? 2.5 : 0; gen.reset(new NormalParticleDistributionGenerator(cut)); } else if(c.rng.chance(0.2)) { for(int i = 0; i < 6; i++) cut[i] = 1.7; gen.reset(new NormalParticleDistributionGenerator(1.7)); } else if(c.rng.chance(0.2)) { for(int i = 0; i < 6; i++) cut[i] = 0; gen.reset(new NormalParticleDistributionGenerator()); } else gen.reset(new NormalParticleDistributionGenerator(cut)); break;
		case UNIFORM: gen.reset(new UniformParticleDistributionGenerator()); break; case RING: gen.reset(new RingParticleDistributionGenerator()); hs = 1; break; case HH1: gen.reset(new HorizonalHalo1ParticleDistributionGenerator(hs)); break; case VH1: gen.reset(new VerticalHalo1ParticleDistributionGenerator(hs)); break;
		case HH2: gen.reset(new HorizonalHalo2ParticleDistributionGenerator(hs, cut)); break; default: gen.reset(new VerticalHalo2ParticleDistributionGenerator(hs, cut)); }
	size_t np = c.rng.pick({1, 2, c.rng.range(3, 50), c.rng.range(500, 1500), c.rng.range(500, 1500)}); double sx = sqrt(b.emit_x * b.beta_x), sy = sqrt(b.emit_y * b.beta_y);
	std::unique_ptr<ParticleBunchFilter> f; int fk = c.rng.chance(0.5) ? 0 : c.rng.range(1, 3); double lim = 0, orb = 0;
	if(fk == 1 && g != VH1) { auto* h = new HorizontalHaloParticleBunchFilter; lim = 0.3 * sx * (g >= HH1 && g != VH2 ? std::min(1.0, hs) : 0.7); if(g == NORMAL && cut.x() > 0) lim *= std::min(1.0, cut.x()); orb = b.x0; h->SetHorizontalLimit(lim); h->SetHorizontalOrbit(orb); f.reset(h); }
	else if(fk == 2 && g != HH1) { auto* h = new VerticalHaloParticleBunchFilter; lim = 0.2 * sy; if(g >= HH1) lim *= std::min(1.0, hs); if(cut.y() > 0) lim *= std::min(1.0, cut.y()); h->SetVerticalLimit(lim); f.reset(h); }
	else if(fk == 3) { auto* h = new Custom; h->lo = b.x0 - 1e-300; h->hi = 1e300; if(g == VH1 && !coup && !disp) h->lo = -1e300; lim = h->lo; f.reset(h); } else fk = 0;
	if(coup && fk) { f.reset(); fk = 0; }
	unsigned seed = c.rng.next() % 1000000; RandomNG::init(seed); int kind = c.rng.range(0, 2);
	std::unique_ptr<ParticleBunch> bu; if(kind == 0) bu.reset(new ParticleBunch(np, *gen, b, f.get())); else if(kind == 1) bu.reset(new ProtonBunch(np, *gen, b, f.get())); else bu.reset(new ElectronBunch(np, *gen, b, f.get()));
	c.ev(gn[g]); c.note(b.beta_x); c.note(b.emit_y); c.note((uint64_t) np); c.nontrivial();
	if(!c.check(bu->size() == std::max<size_t>(np, 1), "particle-count", "%zu of %zu", bu->size(), np)) return;
	c.near(bu->GetTotalCharge(), b.charge, 0, 1e-12, "charge"); c.check(bu->GetReferenceMomentum() == b.p0 && bu->GetReferenceTime() == 0, "reference"); c.check(bu->GetChargeSign() == (b.charge < 0 ? -1 : 1), "charge-sign");
	const PSvector& p0 = bu->FirstParticle(); c.check(p0.x() == b.x0 && p0.xp() == b.xp0 && p0.y() == b.y0 && p0.yp() == b.yp0 && p0.ct() == b.ct0 && p0.dp() == 0, "first-particle-is-centroid");
	Norm N(b); L ex = sqrtl(b.emit_x), ey = sqrtl(b.emit_y); L s1[6] = {}, s2[6] = {}, s4[6] = {}, xy[15] = {}; size_t n = 0; size_t idx = 0;
	for(auto& p : *bu)
	{
		c.check(p.id() == double(idx), "identity", "%zu: %g", idx, p.id()); idx++; if(idx == 1) continue;
		if(fk == 1) c.check(fabs(p.x() - orb) > lim * (1 - 1e-12), "filter", "horizontal"); if(fk == 2) c.check(fabs(p.y()) > lim, "filter", "vertical"); if(fk == 3) c.check(p.x() >= lim, "filter", "custom"); if(fk) c.ev("filtered");
		L u[6]; N.toNormal(p, u); L nn[6]; // rounding of the normalised coordinates
		L e[4]; { L r = 3e-16 * ((fabsl(p.x()) + fabsl(b.x0)) / sqrtl(b.beta_x) * (1 + fabsl(b.alpha_x)) + (fabsl(p.xp()) + fabsl(b.xp0)) * sqrtl(b.beta_x) + (fabsl(p.y()) + fabsl(b.y0)) / sqrtl(b.beta_y) * (1 + fabsl(b.alpha_y)) + (fabsl(p.yp()) + fabsl(b.yp0)) * sqrtl(b.beta_y) + fabsl(b.sig_dp) * 4 * (fabsl(b.Dx) / sqrtl(b.beta_x) * (1 + fabsl(b.alpha_x)) + fabsl(b.Dxp) * sqrtl(b.beta_x) + fabsl(b.Dy) / sqrtl(b.beta_y) * (1 + fabsl(b.alpha_y)) + fabsl(b.Dyp) * sqrtl(b.beta_y))) * 20; for(L& x : e) x = r; }
		L tx = e[0] / ex + 1e-12, ty = e[0] / ey + 1e-12; nn[0] = u[0] / ex; nn[1] = u[1] / ex; nn[2] = u[2] / ey; nn[3] = u[3] / ey; nn[4] = b.sig_z ? u[4] / b.sig_z : 0; nn[5] = b.sig_dp ? u[5] / b.sig_dp : 0; L tz = b.sig_z ? 1e-15 * (fabsl(b.ct0)) / b.sig_z + 1e-12 : 0;
		if(b.sig_z == 0) c.check(fabsl(u[4]) <= 1e-15 * fabs(b.ct0), "no-length"); if(b.sig_dp == 0) c.check(p.dp() == 0, "no-spread");
		L tol[6] = {tx, tx, ty, ty, tz, 1e-12L};
		for(int i = 0; i < 6; i++)
		{
			if((i == 4 && !b.sig_z) || (i == 5 && !b.sig_dp)) continue;
			bool gauss = g == NORMAL || (g == HH2 && (i == 2 || i == 3)) || (g == VH2 && i < 2), flat = g == UNIFORM || (g != NORMAL && i >= 4);
			if(gauss && cut[i] > 0) { c.check(fabsl(nn[i]) <= cut[i] + tol[i], "cutoff", "%s %d: %Lg > %g", gn[g], i, nn[i], cut[i]); c.ev("cuts"); } if(flat) c.check(fabsl(nn[i]) <= 1 + tol[i], "range", "%s %d %Lg", gn[g], i, nn[i]);
			s1[i] += nn[i]; s2[i] += nn[i] * nn[i];
		}
		int kk = 0; for(int i = 0; i < 6; i++) for(int j = 0; j < i; j++) xy[kk++] += nn[i] * nn[j]; n++;
		bool hr = g == RING || g == HH1 || g == HH2, vr = g == RING || g == VH1 || g == VH2;
		if(hr) c.check(fabsl(sqrtl(nn[0] * nn[0] + nn[1] * nn[1]) - hs) <= 3 * tx + 1e-12 * hs, "ring-amplitude", "%s %Lg of %g", gn[g], sqrtl(nn[0] * nn[0] + nn[1] * nn[1]), hs); if(vr) c.check(fabsl(sqrtl(nn[2] * nn[2] + nn[3] * nn[3]) - hs) <= 3 * ty + 1e-12 * hs, "ring-amplitude-y", "%s", gn[g]);
		if(g == HH1) c.check(fabsl(nn[2]) <= 3 * ty && fabsl(nn[3]) <= 3 * ty, "halo-other-plane"); if(g == VH1) c.check(fabsl(nn[0]) <= 3 * tx && fabsl(nn[1]) <= 3 * tx, "halo-other-plane");
	}
	if(n >= 400 && !fk)
	{
		for(int i = 0; i < 6; i++)
		{
			if((i == 4 && !b.sig_z) || (i == 5 && !b.sig_dp)) continue; double var, v4;
			bool gauss = g == NORMAL || (g == HH2 && (i == 2 || i == 3)) || (g == VH2 && i < 2), flat = g == UNIFORM || (g != NORMAL && i >= 4);
			if(gauss) { var = cut[i] > 0 ? cutvar(cut[i]) : 1; v4 = 2 * var * var; } else if(flat) { var = 1.0 / 3; v4 = 0.0889; } else if((g == HH1 && i >= 2) || (g == VH1 && i < 2)) continue; else { var = hs * hs / 2; v4 = hs * hs * hs * hs / 8; }
			c.check(fabsl(s1[i] / n) < 7 * sqrt(var / n), "mean", "%s %d: %Lg sigma", gn[g], i, s1[i] / n / sqrtl(var / n)); c.check(fabsl(s2[i] / n - var) < 8 * sqrt(v4 / n), "variance", "%s coordinate %d: %Lg expected %g n=%zu", gn[g], i, s2[i] / n, var, n);
		}
		int kk = 0; for(int i = 0; i < 6; i++) for(int j = 0; j < i; j++, kk++) { double vi = s2[i] / n, vj = s2[j] / n; if(vi > 1e-6 && vj > 1e-6) c.check(fabsl(xy[kk] / n) < 8 * sqrt(vi * vj / n), "correlation", "%s %d %d: %Lg", gn[g], i, j, xy[kk] / n / sqrtl(vi * vj)); } c.ev("statistics"); if(coup) c.ev("coupled"); if(disp && b.sig_dp) c.ev("dispersive");
	}
	// reproducible
	{ if(c.rng.chance(0.5)) RandomNG::init(seed); else { RandomNG::uniform(0, 1); RandomNG::reset(seed); } ParticleBunch b2(np, *gen, b, f.get()); bool same = b2.size() == bu->size(); auto x = bu->begin(); for(auto& p : b2) { if(!same) break; for(int i = 0; i < 6; i++) same = same && dbits(p[i]) == dbits((*x)[i]); ++x; } c.check(same, "reproducible"); if(np > 3 && g != 99) { RandomNG::init(seed + 1); ParticleBunch b3(np, *gen, b, f.get()); bool diff = false; auto y = bu->begin(); for(auto& p : b3) { for(int i = 0; i < 6; i++) diff = diff || dbits(p[i]) != dbits((*y)[i]); ++y; } c.check(diff, "seed-matters"); c.ev("reseeded"); } }
}
static void own(const BeamData& b, L S[6][6])
{
	// sigma matrix from the forward transformation, column by column
	Norm N(b); L ad[2][2] = {{N.cb[1][1], -N.cb[0][1]}, {-N.cb[1][0], N.cb[0][0]}}; L T[6][6] = {};
	for(int col = 0; col < 6; col++)
	{
		L u[6] = {}; u[col] = 1; L v[6]; for(int i = 0; i < 2; i++) { v[i] = N.h * u[i] + N.cb[i][0] * u[2] + N.cb[i][1] * u[3]; v[2 + i] = N.h * u[2 + i] - ad[i][0] * u[0] - ad[i][1] * u[1]; } v[4] = u[4]; v[5] = u[5];
		L p[6]; for(int k = 0; k < 2; k++) { L be = k ? b.beta_y : b.beta_x, al = k ? b.alpha_y : b.alpha_x; p[2 * k] = sqrtl(be) * v[2 * k]; p[2 * k + 1] = (v[2 * k + 1] - al * v[2 * k]) / sqrtl(be); } p[4] = v[4]; p[5] = v[5];
		p[0] += b.Dx * v[5]; p[1] += b.Dxp * v[5]; p[2] += b.Dy * v[5]; p[3] += b.Dyp * v[5]; for(int i = 0; i < 6; i++) T[i][col] = p[i];
	}
	L e[6] = {b.emit_x, b.emit_x, b.emit_y, b.emit_y, (L) b.sig_z * b.sig_z, (L) b.sig_dp * b.sig_dp}; for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) { S[i][j] = 0; for(int k = 0; k < 6; k++) S[i][j] += T[i][k] * e[k] * T[j][k]; }
}
FAMILY(beamdata, 6000, 200000)
{
	bool coup = c.rng.chance(0.5); BeamData b = beam(c, coup, c.rng.chance(0.5)); PSmoments S; if(c.rng.chance(0.3)) { S(1, 0) = 5; S(5, 2) = 1; S[3] = 4; S[4] = 2; } BeamDataToSigmaMtrx(b, S); L O[6][6]; own(b, O);
	for(int i = 0; i < 6; i++) for(int j = 0; j <= i; j++) c.near(S(i, j), O[i][j], 1e-12 * (double) sqrtl(O[i][i] * O[j][j]), 0, "sigma-matrix", "%d %d coupled %d", i, j, coup);
	double cen[5] = {b.x0, b.xp0, b.y0, b.yp0, b.ct0}; for(int i = 0; i < 5; i++) c.check(S[i] == cen[i], "sigma-centroid", "%d", i);
	if(!coup)
	{
		BeamData r; r.c_xy = 4; r.charge = 7; SigmaMatrixToBeamData(S, r); double k = b.sig_dp > 0 ? 1 : 0;
		// how much of the matrix is dispersion decides the achievable precision
		double ax = k * b.sig_dp * b.sig_dp * (b.Dx * b.Dx / b.beta_x + pow(b.alpha_x * b.Dx / sqrt(b.beta_x) + sqrt(b.beta_x) * b.Dxp, 2)) / b.emit_x, ay = k * b.sig_dp * b.sig_dp * (b.Dy * b.Dy / b.beta_y + pow(b.alpha_y * b.Dy / sqrt(b.beta_y) + sqrt(b.beta_y) * b.Dyp, 2)) / b.emit_y; double tx = 1e-13 * (1 + ax) * (1 + b.alpha_x * b.alpha_x), ty = 1e-13 * (1 + ay) * (1 + b.alpha_y * b.alpha_y);
		// dispersion leaves rounding-level coupling that is only removed above a threshold
		if(std::max(ax, ay) < 1e4 && tx * 50 < 1e-6 && ty * 50 < 1e-6)
		{
			c.near(r.emit_x, b.emit_x, 0, 50 * tx + 1e-12, "emittance"); c.near(r.emit_y, b.emit_y, 0, 50 * ty + 1e-12, "emittance"); c.near(r.beta_x, b.beta_x, 0, 50 * tx + 1e-12, "beta"); c.near(r.beta_y, b.beta_y, 0, 50 * ty + 1e-12, "beta"); c.near(r.alpha_x, b.alpha_x, 50 * tx + 1e-12, 0, "alpha"); c.near(r.alpha_y, b.alpha_y, 50 * ty + 1e-12, 0, "alpha");
			c.near(r.sig_z, b.sig_z, 0, 1e-13, "sigma-z"); c.near(r.sig_dp, b.sig_dp, 0, 1e-13, "sigma-dp"); if(k) { c.near(r.Dx, b.Dx, 1e-12, 1e-12, "dispersion"); c.near(r.Dxp, b.Dxp, 1e-12, 1e-12, "dispersion"); c.near(r.Dy, b.Dy, 1e-12, 1e-12, "dispersion"); c.near(r.Dyp, b.Dyp, 1e-12, 1e-12, "dispersion"); c.ev("dispersion"); }
			c.check(fabs(r.c_xy) < 1e-5 && fabs(r.c_xyp) < 1e-5 && fabs(r.c_xpy) < 1e-5 && fabs(r.c_xpyp) < 1e-5, "no-coupling"); c.check(r.x0 == b.x0 && r.xp0 == b.xp0 && r.y0 == b.y0 && r.yp0 == b.yp0 && r.ct0 == b.ct0, "round-trip-centroid"); auto e = NormalModeEmittance(S); c.near(e.first, b.emit_x, 0, 50 * tx + 1e-12, "normal-mode"); c.near(e.second, b.emit_y, 0, 50 * ty + 1e-12, "normal-mode"); c.ev("round-trips"); if(b.emit_x == b.emit_y) c.ev("round-beams");
		}
		c.near(ProjectedEmittance(S, 0, 1), sqrt((double) (O[0][0] * O[1][1] - O[0][1] * O[0][1])), 0, 1e-11 * (1 + ax) * (1 + b.alpha_x * b.alpha_x), "projected-emittance");
	}
	else if(std::max(b.emit_x / b.emit_y, b.emit_y / b.emit_x) > 1.5 && std::max(b.emit_x / b.emit_y, b.emit_y / b.emit_x) < 1e3 && b.c_xy * b.c_xy + b.c_xyp * b.c_xyp + b.c_xpy * b.c_xpy + b.c_xpyp * b.c_xpyp < 0.02 && b.sig_dp == 0)
	{
		auto e = NormalModeEmittance(S); double lo = std::min(b.emit_x, b.emit_y), hi = std::max(b.emit_x, b.emit_y); double a = std::min(e.first, e.second), z = std::max(e.first, e.second); double r = 1e-9 * hi / lo * (1 + b.alpha_x * b.alpha_x) * (1 + b.alpha_y * b.alpha_y); c.near(a, lo, 0, r, "normal-mode-coupled"); c.near(z, hi, 0, r, "normal-mode-coupled"); c.ev("coupled-modes");
	}
	c.note(b.beta_x); c.note(b.emit_x); c.nontrivial();
}
FAMILY(multinormal, 300, 6000)
{
	double A[4][4], C[4][4], sc[4], m[4]; for(auto& r : A) for(double& x : r) x = c.rng.sym(1); for(int i = 0; i < 4; i++) { A[i][i] += 1.5; sc[i] = c.rng.logu(1e-6, 1e-1); m[i] = c.rng.chance(0.5) ? 0 : c.rng.sym(10) * sc[i]; } PSmoments S; for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) { C[i][j] = 0; for(int k = 0; k < 4; k++) C[i][j] += A[i][k] * A[j][k]; C[i][j] *= sc[i] * sc[j]; }
	RandomNG::init(c.rng.next() % 1000000); int n = 3000; TCovMtrx<double, 4> cv; RealVector mv(4); RealMatrix cm(4, 4); for(int i = 0; i < 4; i++) { mv(i) = m[i]; for(int j = 0; j < 4; j++) { cv(i, j) = C[i][j]; cm(i, j) = C[i][j]; } }
	std::unique_ptr<MultiNormal<4> > M; if(c.rng.chance(0.5)) M.reset(new MultiNormal<4>(cv, mv)); else M.reset(new MultiNormal<4>(cm, mv));
	L s1[4] = {}, s2[4][4] = {}; for(int k = 0; k < n; k++) { RealVector v = M->GetRandVec(); if(!c.check(v.size() == 4, "multinormal-size")) return; for(int i = 0; i < 4; i++) { s1[i] += v(i) - m[i]; for(int j = 0; j < 4; j++) s2[i][j] += ((L) v(i) - m[i]) * ((L) v(j) - m[j]); } }
	for(int i = 0; i < 4; i++) { c.check(fabsl(s1[i] / n) < 7 * sqrt(C[i][i] / n), "multinormal-mean", "%d: %Lg", i, s1[i] / n / sqrtl(C[i][i])); for(int j = 0; j <= i; j++) c.check(fabsl(s2[i][j] / n - C[i][j]) < 8 * sqrt((C[i][i] * C[j][j] + C[i][j] * C[i][j]) / n), "multinormal-covariance", "%d %d: %Lg expected %g", i, j, s2[i][j] / n, C[i][j]); }
	c.ev("multinormal"); c.note(C[0][0]); c.nontrivial();
}
FAMILY(macrobunch, 1500, 30000)
{
	BeamData b = beam(c, false, c.rng.chance(0.5)); int ns = c.rng.range(1, 30), nd = c.rng.range(1, 15); SMPTracking::SMPBunchConstructor k(b, ns, nd); std::unique_ptr<SMPTracking::SMPBunch> s(k.ConstructSMPBunch()); c.check(s->Size() == size_t(ns * nd), "smp-count"); c.check(s->GetReferenceMomentum() == b.p0, "smp-momentum"); double P = erf(3 / M_SQRT2); c.near(s->GetTotalCharge(), b.charge * P * P, 0, 3e-6, "smp-charge");
	PSmoments S; s->GetMoments(S); double cen[6] = {b.x0, b.xp0, b.y0, b.yp0, b.ct0, 0}; double sd = b.sig_dp, Dd[4] = {b.Dx, b.Dxp, b.Dy, b.Dyp}; L O[6][6]; BeamData b0 = b; b0.Dx = b0.Dxp = b0.Dy = b0.Dyp = 0; own(b0, O);
	for(int i = 0; i < 6; i++) c.near(S[i], cen[i], 1e-12 + 1e-5 * (i < 4 ? fabs(Dd[i]) * sd : i == 4 ? b.sig_z : sd), 1e-10, "smp-mean", "%d", i);
	double vd = S(5, 5); for(int i = 0; i < 4; i++) for(int j = 0; j <= i; j++) { double e = O[i][j] + Dd[i] * Dd[j] * vd; double t = 1e-9 * sqrt((double) (O[i][i] + Dd[i] * Dd[i] * vd + cen[i] * cen[i] * 1e-6) * (double) (O[j][j] + Dd[j] * Dd[j] * vd + cen[j] * cen[j] * 1e-6)) + 1e-14 * fabs(cen[i] * cen[j]) * 100; c.near(S(i, j), e, t, 0, "smp-sigma", "%d %d", i, j); }
	if(ns >= 8) c.near(S.std(4), b.sig_z, 1e-14 * fabs(b.ct0), 0.1, "smp-length"); if(nd >= 8) c.near(S.std(5), b.sig_dp, 0, 0.1, "smp-spread"); for(int i = 0; i < 4; i++) if(vd > 0) c.near(S(5, i), Dd[i] * vd, 1e-9 * sqrt(vd * (double) O[i][i]) + 1e-6 * fabs(Dd[i]) * vd + 1e-13 * fabs(cen[i]) * sd, 0, "smp-dispersion"); c.ev("smp"); c.note(b.beta_x); c.note((uint64_t) ns); c.nontrivial();
}
