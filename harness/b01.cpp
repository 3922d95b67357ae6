// B01: bunch moments and statistics are those of the particles it holds.
#include "vh.h"
#include "ParticleBunch.h"
#include "ProtonBunch.h"
#include "ElectronBunch.h"
#include "ParticleBunchUtilities.h"
#include "SMPBunch.h"
#include "BunchConverter.h"
#include "RandomNG.h"
using namespace vh; using namespace ParticleTracking; using namespace SMPTracking;
typedef long double L;
static Particle rndp(Case& c, const double* off, const double* sc) { Particle p(0); for(int i = 0; i < 6; i++) p[i] = off[i] + sc[i] * c.rng.normal(); p.id() = double(c.rng.range(0, 1000000)); return p; }
static void scales(Case& c, double* off, double* sc)
{
	int kind = c.rng.range(0, 4);
	for(int i = 0; i < 6; i++) { sc[i] = c.rng.logu(1e-9, 1e-1); off[i] = kind == 0 ? 0 : kind == 1 ? c.rng.sym(10) * sc[i] : kind == 2 ? c.rng.sgn() * c.rng.logu(1, 1e4) * sc[i] : kind == 3 ? 0.1 * c.rng.sym(1) : 0; if(kind == 4) { sc[i] = c.rng.chance(0.5) ? 0 : sc[i]; off[i] = c.rng.sym(0.1); } }
}
struct Mom { L m[6], s[6][6], a[6]; };
static Mom moments(const std::vector<PSvector>& v, const std::vector<double>* w = nullptr)
{
	Mom r; memset(&r, 0, sizeof r); L W = 0; for(size_t k = 0; k < v.size(); k++) W += w ? (*w)[k] : 1;
	for(size_t k = 0; k < v.size(); k++) for(int i = 0; i < 6; i++) { r.m[i] += (w ? (*w)[k] : 1) * (L) v[k][i] / W; r.a[i] = std::max<L>(r.a[i], fabsl(v[k][i])); }
	for(size_t k = 0; k < v.size(); k++) for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) r.s[i][j] += (w ? (*w)[k] : 1) * ((L) v[k][i] - r.m[i]) * ((L) v[k][j] - r.m[j]) / W;
	return r;
}
static std::vector<PSvector> snap(const ParticleBunch& b) { return std::vector<PSvector>(b.begin(), b.end()); }
static bool same(const std::vector<PSvector>& a, const std::vector<PSvector>& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) { for(int k = 0; k < 6; k++) if(dbits(a[i][k]) != dbits(b[i][k])) return false; if(dbits(a[i].id()) != dbits(b[i].id())) return false; } return true; }
static bool lessp(const PSvector& a, const PSvector& b) { for(int k = 0; k < 6; k++) if(a[k] != b[k]) return a[k] < b[k]; return a.id() < b.id(); }
static double rt(const Mom& m, int i, int j, size_t n) { return 1e-15 * (3 * n + 20) * (sqrt((double) m.s[i][i]) + (double) m.a[i] * 1e-15 * n) * (sqrt((double) m.s[j][j]) + (double) m.a[j] * 1e-15 * n) + 1e-30 * n * n * (double) (m.a[i] * m.a[j]) * 10 + 1e-15 * 8 * n * ((double) m.a[i] * 1e-15 * n * sqrt((double) m.s[j][j]) ) ; }
template<class B> static void statistics(Case& c, B& b, PSmoments& S, PSmoments2D& S2, PSvector& cen)
{
	std::vector<PSvector> before = snap(b); size_t n = before.size(); Mom m = moments(before); double P0 = b.GetReferenceMomentum(), t0 = b.GetReferenceTime();
	auto mt = [&](int i) { return 1e-15 * (n + 5) * (double) m.a[i]; };
	auto st = [&](int i, int j) { double e = 1e-15 * (n + 10); double si = sqrt((double) m.s[i][i]), sj = sqrt((double) m.s[j][j]); double di = e * (double) m.a[i], dj = e * (double) m.a[j]; return 4 * e * si * sj + 4 * di * dj + 4e-15 * ((double) m.a[i] * sj + (double) m.a[j] * si) ; };
	std::vector<int> order{0, 1, 2, 3, 4}; c.rng.shuffle(order);
	for(int o : order) switch(o)
		{
		case 0: b.GetMoments(S); for(int i = 0; i < 6; i++) { c.near(S[i], m.m[i], mt(i), 0, "moments-mean"); for(int j = 0; j <= i; j++) { c.near(S(i, j), m.s[i][j], st(i, j), 0, "moments-sigma", "%d %d n=%zu", i, j, n); c.check(S(j, i) == S(i, j), "moments-symmetric"); } c.near(S.std(i) * S.std(i), m.s[i][i], st(i, i), 1e-14, "moments-std"); } c.ev("moments"); break;
		case 1: { int u = c.rng.range(0, 5), v = c.rng.range(0, 5); b.GetProjectedMoments(u, v, S2); c.near(S2[0], m.m[u], mt(u), 0, "projected-mean"); c.near(S2[1], m.m[v], mt(v), 0, "projected-mean"); c.near(S2(0, 0), m.s[u][u], st(u, u), 0, "projected-sigma"); c.near(S2(0, 1), m.s[u][v], st(u, v), 0, "projected-sigma"); c.near(S2(1, 1), m.s[v][v], st(v, v), 0, "projected-sigma"); c.ev("projected"); break; }
		case 2: b.GetCentroid(cen); for(int i = 0; i < 6; i++) c.near(cen[i], m.m[i], mt(i), 0, "centroid", "n=%zu", n); break;
		case 3: { int u = c.rng.range(0, 5), v = c.rng.range(0, 5); Point2D p = b.GetProjectedCentroid(u, v); c.near(p.x, m.m[u], mt(u), 0, "projected-centroid"); c.near(p.y, m.m[v], mt(v), 0, "projected-centroid"); break; }
		case 4: { int u = c.rng.range(0, 5); auto p = b.GetMoments(u); c.near(p.first, m.m[u], mt(u), 0, "coordinate-mean"); c.near(p.second * p.second, m.s[u][u], st(u, u), 1e-14, "coordinate-sigma"); break; }
		}
	c.check(same(before, snap(b)) && b.GetReferenceMomentum() == P0 && b.GetReferenceTime() == t0, "statistics-change-the-bunch"); c.check(b.size() == n, "size");
}
FAMILY(particles, 12000, 60000)
{
	double off[6], sc[6]; scales(c, off, sc); size_t n = c.rng.pick({1, 2, 3, c.rng.range(4, 40), c.rng.range(40, 600)}); PSvectorArray v; for(size_t i = 0; i < n; i++) v.push_back(c.rng.chance(0.1) && i ? v[c.rng.range(0, int(i) - 1)] : rndp(c, off, sc));
	std::vector<PSvector> model(v.begin(), v.end()); double Q = c.rng.sgn() * c.rng.logu(1e-3, 1e12), P0 = c.rng.logu(1e-3, 1e4); int how = c.rng.range(0, 2); std::unique_ptr<ParticleBunch> b; double qp = Q;
	if(how == 0) { b.reset(new ParticleBunch(P0, Q, v)); qp = Q / n; } else if(how == 1) { b.reset(new ProtonBunch(P0, Q)); for(auto& p : model) if(c.rng.chance(0.5)) b->push_back(p); else c.check(b->AddParticle(p) == b->size(), "add-returns-size"); } else { b.reset(new ElectronBunch(P0, Q, v)); qp = Q / n; }
	PSmoments S; PSmoments2D S2; PSvector cen(0); if(c.rng.chance(0.5)) { S[2] = 7; S(3, 1) = 4; S(2, 2) = 1; S2[0] = 3; S2(0, 1) = 5; S2(1, 1) = 1; for(int i = 0; i < 6; i++) cen[i] = 11; }
	c.check(same(model, snap(*b)), "construction"); c.near(b->GetTotalCharge(), qp * n, 0, 1e-14, "charge"); c.check(b->GetReferenceMomentum() == P0, "reference-momentum"); c.check(b->GetChargeSign() == (Q < 0 ? -1 : 1), "charge-sign");
	statistics(c, *b, S, S2, cen);
	int ops = c.rng.range(1, 6);
	for(int k = 0; k < ops; k++)
	{
		int o = c.rng.range(0, 6);
		if(o == 0) { Particle p = rndp(c, off, sc); b->AddParticle(p); model.push_back(p); c.ev("added"); }
		else if(o == 1 && model.size() > 1) { int i = c.rng.range(0, int(model.size()) - 1); auto it = b->erase(b->begin() + i); model.erase(model.begin() + i); c.check(it == b->begin() + i, "erase-position"); c.ev("erased"); }
		else if(o == 2) { b->SortByCT(); auto s = snap(*b); for(size_t i = 1; i < s.size(); i++) c.check(!(s[i].ct() < s[i - 1].ct()), "sorted"); auto x = s, y = model; std::sort(x.begin(), x.end(), lessp); std::sort(y.begin(), y.end(), lessp); c.check(same(x, y), "sort-permutation"); model = s; c.ev("sorted"); }
		else if(o == 3)
		{
			Particle first = model[0]; if(c.rng.chance(0.5)) { first = rndp(c, off, sc); b->SetCentroid(first); } else b->SetCentroid();
			auto s = snap(*b); Mom m = moments(s), mo = moments(model); for(int i = 0; i < 6; i++) m.a[i] = std::max(m.a[i], mo.a[i]); L amax = 0; for(int i = 0; i < 6; i++) { if(s.size() > 1) c.near(m.m[i], first[i], 1e-15 * (s.size() + 20) * (double) std::max(m.a[i], fabsl(first[i])) * 2, 0, "set-centroid", "n=%zu", s.size()); c.check(s[0][i] == first[i], "set-centroid-first"); }
			for(size_t k = 2; k < s.size(); k++) for(int i = 0; i < 6; i++) { double sc1 = std::max(fabs(model[k][i]), fabs(s[k][i])) + std::max(fabs(model[1][i]), fabs(s[1][i])); c.near(s[k][i] - model[k][i], s[1][i] - model[1][i], 1e-15 * sc1 * 2, 0, "set-centroid-shifts-differ"); }
			for(size_t k = 1; k < s.size(); k++) c.check(s[k].id() == model[k].id(), "set-centroid-ids"); c.check(s.size() == model.size(), "size"); model = s; c.ev("set-centroid"); (void) amax;
		}
		else if(o == 4) { double q = c.rng.sgn() * c.rng.logu(1e-3, 1e6); b->SetMacroParticleCharge(q); qp = q; c.check(b->GetChargeSign() == (q < 0 ? -1 : 1), "charge-sign"); c.ev("recharged"); }
		else if(o == 5) { PSvectorArray w; int m = c.rng.range(1, 20); for(int i = 0; i < m; i++) w.push_back(rndp(c, off, sc)); std::vector<PSvector> nm(w.begin(), w.end()); b->swap(ParticleBunch(P0, Q, w)); model = nm; c.ev("swapped"); }
		else { ParticleBunch cp(*b); c.check(same(snap(cp), model), "copy"); cp.clear(); c.check(cp.size() == 0 && cp.GetTotalCharge() == 0, "clear"); cp.AddParticle(model[0]); c.check(same(snap(*b), model), "copy-independent"); c.ev("copied"); }
		c.check(same(model, snap(*b)), "contents"); c.near(b->GetTotalCharge(), qp * model.size(), 0, 1e-14, "charge"); statistics(c, *b, S, S2, cen);
	}
	c.check(&b->FirstParticle() == &*b->begin(), "first");
	c.note(off[0]); c.note(sc[1]); c.note((uint64_t) n); c.nontrivial();
}
FAMILY(histogram, 8000, 60000)
{
	double off[6], sc[6]; scales(c, off, sc); for(int i = 0; i < 6; i++) if(sc[i] == 0) sc[i] = 1e-3; size_t n = c.rng.range(0, 300); int u = c.rng.range(0, 5);
	double width = sc[u] * c.rng.uni(1, 8), lo = off[u] - width * c.rng.uni(0.2, 0.8), hi = lo + width; int nb = c.rng.range(1, 40); double du = c.rng.chance(0.7) ? (hi - lo) / nb : c.rng.uni(0.01, 1.3) * width; if(du < 0.01 * width) du = 0.01 * width;
	ParticleBunch b(1, 1); for(size_t i = 0; i < n; i++) { Particle p = rndp(c, off, sc); if(c.rng.chance(0.2)) p[u] = c.rng.pick({lo, hi, lo + du * c.rng.range(0, 3), std::nextafter(hi, -1e9), std::nextafter(lo, -1e9), std::nextafter(hi, 1e9)}); b.push_back(p); }
	auto before = snap(b); std::vector<double> bins(c.rng.range(0, 5), 3.0); bool norm = c.rng.chance(0.5), trunc = c.rng.chance(0.5);
	size_t inside = 0; for(auto& p : before) if(p[u] >= lo && p[u] <= hi) inside++;
	size_t lost = ParticleBunchDistribution(b, u, lo, hi, du, bins, norm, trunc);
	c.check(lost == n - inside, "distribution-lost"); c.check(bins.size() * du >= (hi - lo) * (1 - 1e-9) && (double(bins.size()) - 1) * du < (hi - lo), "distribution-bins", "%zu", bins.size());
	std::vector<PSvector> exp; for(auto& p : before) if(!trunc || (p[u] >= lo && p[u] <= hi)) exp.push_back(p); c.check(same(exp, snap(b)), "distribution-particles");
	if(inside)
	{
		L sum = 0; double f = norm ? 1.0 / (inside * du) : 1; std::vector<double> amb(bins.size() + 1, 0), cnt(bins.size() + 1, 0);
		for(auto& p : before) if(p[u] >= lo && p[u] <= hi) { L x = ((L) p[u] - lo) / du; long k = std::min<long>(long(floorl(x)), bins.size() - 1); L fr = x - roundl(x); double edge = 1e-15 * (fabs(lo) + fabs(hi) + fabs(du)) / du * 4; if(fabsl(fr) < edge) { long r = lroundl(x); if(r > 0) amb[std::min<size_t>(r - 1, bins.size() - 1)]++; amb[std::min<size_t>(r, bins.size() - 1)]++; c.ev("on-edge"); } else cnt[k]++; }
		for(size_t i = 0; i < bins.size(); i++) { sum += bins[i]; c.check(bins[i] / f > cnt[i] - 1e-6 && bins[i] / f < cnt[i] + amb[i] + 1e-6, "distribution-content", "bin %zu of %zu: %g expected %g..%g", i, bins.size(), bins[i] / f, cnt[i], cnt[i] + amb[i]); }
		c.near(sum, norm ? 1 / du : inside, 0, 1e-12, "distribution-total"); c.ev(norm ? "normalised" : "counted"); if(trunc && lost) c.ev("truncated");
	}
	c.note(lo); c.note(du); c.nontrivial();
}
FAMILY(slicing, 8000, 60000)
{
	double off[6], sc[6]; scales(c, off, sc); for(int i = 0; i < 6; i++) if(sc[i] == 0) sc[i] = 1e-3; size_t n = c.rng.range(1, 300); int u = 4; double width = sc[u] * c.rng.uni(1, 8), lo = off[u] - width * c.rng.uni(0.2, 0.8), hi = lo + width; size_t nb = c.rng.range(1, 40); double dz = (hi - lo) / nb;
	ParticleBunch b(1, 1); for(size_t i = 0; i < n; i++) { Particle p = rndp(c, off, sc); if(c.rng.chance(0.2)) p[u] = c.rng.pick({lo, hi, lo + dz * c.rng.range(0, int(nb)), std::nextafter(hi, -1e9), std::nextafter(lo, -1e9)}); b.push_back(p); }
	std::vector<PSvector> in; for(auto& p : b) if(p.ct() >= lo && p.ct() < hi) in.push_back(p); if(in.empty()) return; size_t n0 = b.size();
	std::vector<double> filt, hd(2, 1), hdp(3, 1); std::vector<ParticleBunch::iterator> pb; int w = c.rng.range(0, 6); for(int i = 0; i < 2 * w + 1; i++) filt.push_back(c.rng.sym(1)); bool usef = c.rng.chance(0.6);
	size_t lost = ParticleBinList(b, lo, hi, nb, pb, hd, hdp, usef ? &filt : nullptr);
	c.check(lost == n0 - in.size(), "slice-lost"); auto s = snap(b); auto x = s, y = in; std::sort(x.begin(), x.end(), lessp); std::sort(y.begin(), y.end(), lessp); c.check(same(x, y), "slice-particles");
	if(!c.check(pb.size() == nb + 1 && hd.size() == nb && hdp.size() == nb, "slice-count")) return; c.check(pb[0] == b.begin() && pb[nb] == b.end(), "slice-ends");
	L sum = 0; std::vector<double> cnt(nb);
	for(size_t k = 0; k < nb; k++) { double m = std::distance(pb[k], pb[k + 1]); cnt[k] = m; c.check(m >= 0, "slice-order"); c.near(hd[k], m / (in.size() * dz), 0, 1e-12, "slice-density"); sum += hd[k] * dz; double e = 4e-15 * (fabs(lo) + fabs(hi)); for(auto p = pb[k]; p != pb[k + 1]; ++p) c.check(p->ct() >= lo + k * dz - e && p->ct() <= lo + (k + 1) * dz + e, "slice-membership"); }
	c.near(sum, 1, 1e-12, 0, "slice-total");
	for(size_t k = 0; k < nb; k++) { L d = 0; if(usef) for(int m = -w; m <= w; m++) { long q = long(k) + m; if(q >= 0 && q < long(nb)) d += cnt[q] * filt[m + w]; } d /= in.size() * (L) dz; c.near(hdp[k], d, 1e-12 / dz, 0, "slice-slope"); } c.ev(usef ? "filtered" : "unfiltered"); if(lost) c.ev("tails");
	c.note(lo); c.note((uint64_t) nb); c.nontrivial();
}
static SliceMacroParticle rslice(Case& c, const double* off, const double* sc)
{
	PSmoments S; double A[4][4]; for(auto& r : A) for(double& x : r) x = c.rng.sym(1); for(int i = 0; i < 4; i++) A[i][i] += 1.5; for(int i = 0; i < 4; i++) { S[i] = off[i] + sc[i] * c.rng.normal(); for(int j = 0; j <= i; j++) { double t = 0; for(int k = 0; k < 4; k++) t += A[i][k] * A[j][k]; S(i, j) = t * sc[i] * sc[j]; } }
	return SliceMacroParticle(S, off[4] + sc[4] * c.rng.normal(), off[5] + sc[5] * c.rng.normal(), c.rng.uni(0.1, 3));
}
FAMILY(macroparticles, 4000, 30000)
{
	double off[6], sc[6]; for(int i = 0; i < 6; i++) { sc[i] = c.rng.logu(1e-6, 1e-2); off[i] = c.rng.chance(0.5) ? 0 : c.rng.sym(5) * sc[i]; } SMPBunch b(10, 1); int n = c.rng.range(1, 40); std::vector<PSvector> cen; std::vector<double> q; std::vector<SliceMacroParticle> sl; L Q = 0;
	for(int i = 0; i < n; i++) { SliceMacroParticle s = rslice(c, off, sc); b.AddParticle(s, c.rng.chance(0.2)); sl.push_back(s); cen.push_back(s.GetCentroid()); q.push_back(s.Q()); Q += s.Q(); }
	PSmoments S; PSmoments2D S2; PSvector x(0); if(c.rng.chance(0.5)) { S[1] = 2; S(2, 1) = 5; S2[0] = 3; S2(0, 1) = 4; x[3] = 1; }
	for(int round = 0; round < 2; round++)
	{
		Mom m = moments(cen, &q); for(int k = 0; k < n; k++) for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) m.s[i][j] += sl[k].sig(i, j) * (L) q[k] / Q; auto tol = [&](int i, int j) { double e = 1e-15 * (n + 20), si = sqrt((double) m.s[i][i]), sj = sqrt((double) m.s[j][j]); return 4 * e * si * sj + 4e-15 * ((double) m.a[i] * sj + (double) m.a[j] * si) + 4 * e * e * (double) (m.a[i] * m.a[j]); }; auto mt = [&](int i) { return 1e-15 * (n + 20) * (double) m.a[i] * 4; };
		c.check(b.Size() == size_t(n), "smp-size"); c.near(b.GetTotalCharge(), Q, 0, 1e-13, "smp-charge"); b.GetMoments(S); for(int i = 0; i < 6; i++) { c.near(S[i], m.m[i], mt(i), 0, "smp-mean"); for(int j = 0; j < 6; j++) c.near(S(i, j), m.s[i][j], tol(i, j), 0, "smp-sigma", "%d %d", i, j); }
		int u = c.rng.range(0, 5), v = c.rng.range(0, 5); b.GetProjectedMoments(u, v, S2); c.near(S2[0], m.m[u], mt(u), 0, "smp-projected-mean"); c.near(S2[1], m.m[v], mt(v), 0, "smp-projected-mean"); c.near(S2(0, 0), m.s[u][u], tol(u, u), 0, "smp-projected"); c.near(S2(0, 1), m.s[u][v], tol(u, v), 0, "smp-projected"); c.near(S2(1, 1), m.s[v][v], tol(v, v), 0, "smp-projected");
		b.GetCentroid(x); for(int i = 0; i < 6; i++) c.near(x[i], m.m[i], mt(i), 0, "smp-centroid"); Point2D p = b.GetProjectedCentroid(u, v); c.near(p.x, m.m[u], mt(u), 0, "smp-projected-centroid"); c.near(p.y, m.m[v], mt(v), 0, "smp-projected-centroid");
		if(round == 0 && c.rng.chance(0.7)) { PSvector d(0); for(int i = 0; i < 6; i++) d[i] = sc[i] * c.rng.sym(3); b.AdjustCentroid(d); for(auto& y : cen) for(int i = 0; i < 6; i++) y[i] += d[i]; c.ev("smp-adjusted"); }
		if(c.rng.chance(0.5)) { b.SortByCT(); for(size_t i = 1; i < b.Size(); i++) c.check(!(b.Get(i).ct() < b.Get(i - 1).ct()), "smp-sorted"); c.ev("smp-sorted"); }
	}
	c.note(off[0]); c.note(sc[0]); c.note((uint64_t) n); c.nontrivial();
}
FAMILY(conversion, 2000, 8000)
{
	double off[6], sc[6]; for(int i = 0; i < 6; i++) { sc[i] = c.rng.logu(1e-6, 1e-2); off[i] = c.rng.chance(0.5) ? 0 : c.rng.sym(5) * sc[i]; } double Q = c.rng.uni(0.5, 2) * 1e10, P0 = c.rng.logu(0.1, 1000), t0 = c.rng.sym(100);
	RandomNG::init(c.seed % 100000 + 1);
	if(c.rng.chance(0.5))
	{
		int n = c.rng.range(2, 400); PSvectorArray v; for(int i = 0; i < n; i++) v.push_back(rndp(c, off, sc)); ParticleBunch b(P0, Q, v); b.SetReferenceTime(t0); auto before = snap(b); Mom m = moments(before); int nz = c.rng.range(1, 12), nd = c.rng.range(1, 12); bool adj = c.rng.chance(0.5), cut = c.rng.chance(0.4); double kz = cut ? c.rng.uni(2, 5) : 0, kd = cut ? c.rng.uni(2, 5) : 0;
		std::unique_ptr<SMPBunch> s(ParticleBunchConverter(&b, nz, nd, kz, kd, adj)); c.check(same(before, snap(b)), "conversion-changes-source"); c.check(s->GetReferenceMomentum() == P0 && s->GetReferenceTime() == t0, "conversion-reference"); c.near(s->GetTotalCharge(), Q, 0, 1e-12, "conversion-charge"); c.check(s->Size() == size_t(nz * nd), "conversion-size");
		PSvector x(0); s->GetCentroid(x); double ext[2]; for(int k = 0; k < 2; k++) { double lo = 1e9, hi = -1e9; for(auto& p : before) { lo = std::min(lo, p[4 + k]); hi = std::max(hi, p[4 + k]); } ext[k] = hi - lo; }
		for(int i = 0; i < 6; i++) { double tol = 1e-13 * n * ((double) m.a[i] + sc[i]); if(!adj && i >= 4) tol += ext[i - 4] / (i == 4 ? nz : nd) / 2 * 1.0000001; if(cut && !adj && i >= 4) continue; c.near(x[i], m.m[i], tol, 0, "conversion-mean", "%d", i); }
		c.ev("to-slices");
	}
	else
	{
		SMPBunch b(P0, Q); b.SetReferenceTime(t0); int n = c.rng.range(1, 20); L q = 0; std::vector<PSvector> cen; std::vector<double> w; for(int i = 0; i < n; i++) { SliceMacroParticle s = rslice(c, off, sc); b.AddParticle(s); q += s.Q(); cen.push_back(s.GetCentroid()); w.push_back(s.Q()); } int N = n * c.rng.range(10, 60); Mom m = moments(cen, &w);
		std::unique_ptr<ParticleBunch> p(SMPBunchConverter(&b, N, true)); c.check(p->GetReferenceMomentum() == P0 && p->GetReferenceTime() == t0, "conversion-reference"); c.near(p->GetTotalCharge(), q, 0, 1e-12, "conversion-charge"); c.check(labs(long(p->size()) - N) <= n, "conversion-size", "%zu %d", p->size(), N);
		auto s = snap(*p); Mom r = moments(s); for(int i = 0; i < 6; i++) c.near(r.m[i], m.m[i], 1e-13 * N * ((double) m.a[i] + sc[i]), 0, "conversion-mean", "%d", i); c.ev("to-particles");
	}
	c.note(off[0]); c.note(sc[0]); c.nontrivial();
}
