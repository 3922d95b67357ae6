// B04: changing the reference of a bunch never changes the physics of its particles.
#include "vh.h"
#include "ParticleBunch.h"
#include "ProtonBunch.h"
#include "SMPBunch.h"
using namespace vh; using namespace ParticleTracking; using namespace SMPTracking;
typedef long double L;
FAMILY(particles, 15000, 400000)
{
	int n = c.rng.pick({1, 2, 5, c.rng.range(6, 60)}); double P0 = c.rng.logu(1e-3, 1e4), T0 = c.rng.pick({0.0, c.rng.sym(1e4)}); double off[6], sc[6]; for(int i = 0; i < 6; i++) { sc[i] = c.rng.pick({0.0, c.rng.logu(1e-9, 0.1)}); off[i] = c.rng.pick({0.0, c.rng.sym(0.5)}); }
	std::unique_ptr<ParticleBunch> b(c.rng.chance(0.5) ? new ParticleBunch(P0, 1) : new ProtonBunch(P0, 1)); for(int i = 0; i < n; i++) { Particle p(0); for(int k = 0; k < 6; k++) p[k] = off[k] + sc[k] * c.rng.sym(1); p.id() = i; b->push_back(p); } b->SetReferenceTime(T0);
	std::vector<PSvector> o(b->begin(), b->end()); std::vector<L> P, T; for(auto& p : o) { P.push_back((L) P0 * (1 + (L) p.dp())); T.push_back((L) T0 - p.ct()); }
	int ops = c.rng.range(1, 8); double pmax = P0 * 2, tmax = fabs(T0) + 1;
	for(int k = 0; k < ops; k++)
	{
		L md = 0, mt = 0; for(auto& p : *b) { md += (L) p.dp() / n; mt += (L) p.ct() / n; } double Pr = b->GetReferenceMomentum(), Tr = b->GetReferenceTime(); int w = c.rng.range(0, 2); double r;
		if(w == 0) { double d = c.rng.pick({0.0, c.rng.sym(0.5), c.rng.sym(1e-6)}); r = b->AdjustRefMomentum(d); c.near(r, Pr * (1 + (L) d), 0, 1e-14, "given-momentum"); c.check(r == b->GetReferenceMomentum(), "returned-momentum"); c.check(b->GetReferenceTime() == Tr, "time-untouched"); c.ev("momentum-by"); }
		else if(w == 1) { r = b->AdjustRefMomentumToMean(); c.near(r, Pr * (1 + md), 0, 1e-14 * (n + 2), "mean-momentum"); c.check(r == b->GetReferenceMomentum(), "returned-momentum"); L m = 0; for(auto& p : *b) m += (L) p.dp() / n; c.near(m, 0, 1e-14 * (n + 5), 0, "mean-deviation"); c.check(b->GetReferenceTime() == Tr, "time-untouched"); c.ev("momentum-to-mean"); }
		else { r = b->AdjustRefTimeToMean(); c.near(r, Tr - mt, 1e-14 * (n + 2) * tmax, 0, "mean-time"); c.check(r == b->GetReferenceTime(), "returned-time"); L m = 0; for(auto& p : *b) m += (L) p.ct() / n; c.near(m, 0, 1e-14 * (n + 5), 0, "mean-offset"); c.check(b->GetReferenceMomentum() == Pr, "momentum-untouched"); c.ev("time-to-mean"); }
		pmax = std::max(pmax, b->GetReferenceMomentum() * 2);
		int i = 0; for(auto& p : *b) { for(int q = 0; q < 4; q++) c.check(dbits(p[q]) == dbits(o[i][q]), "transverse-untouched"); c.check(p.id() == o[i].id(), "identity"); c.near((L) b->GetReferenceMomentum() * (1 + (L) p.dp()), P[i], 4e-16 * (k + 2) * pmax, 0, "absolute-momentum"); c.near((L) b->GetReferenceTime() - p.ct(), T[i], 4e-16 * (k + 2) * tmax, 0, "absolute-time"); i++; }
		c.check(b->size() == size_t(n), "size");
	}
	c.note(P0); c.note(off[5]); c.note((uint64_t) ops); c.nontrivial();
}
FAMILY(macroparticles, 8000, 200000)
{
	int n = c.rng.range(1, 30); double P0 = c.rng.logu(1e-3, 1e4), T0 = c.rng.pick({0.0, c.rng.sym(1e4)}); SMPBunch b(P0, 1); b.SetReferenceTime(T0); std::vector<SliceMacroParticle> o; double od = c.rng.pick({0.0, c.rng.sym(0.5)}), ot = c.rng.pick({0.0, c.rng.sym(0.5)});
	for(int i = 0; i < n; i++) { PSmoments S; for(int k = 0; k < 4; k++) { S[k] = c.rng.sym(1e-3); S(k, k) = c.rng.logu(1e-12, 1e-6); } S(1, 0) = 1e-13 * c.rng.sym(1); SliceMacroParticle m(S, ot + c.rng.sym(0.1), od + c.rng.sym(0.1), c.rng.uni(0.1, 2)); b.AddParticle(m); o.push_back(m); }
	L Q = 0; for(auto& s : o) Q += s.Q(); int ops = c.rng.range(1, 6);
	for(int k = 0; k < ops; k++)
	{
		L md = 0, mt = 0; for(auto& p : b) { md += (L) p.dp() * p.Q() / Q; mt += (L) p.ct() * p.Q() / Q; } double Pr = b.GetReferenceMomentum(), Tr = b.GetReferenceTime();
		if(c.rng.chance(0.5)) { double r = b.AdjustRefMomentumToMean(); c.near(r, Pr * (1 + md), 0, 1e-13, "smp-mean-momentum"); L m = 0; for(auto& p : b) m += (L) p.dp() * p.Q() / Q; c.near(m, 0, 1e-13, 0, "smp-mean-deviation"); c.check(b.GetReferenceTime() == Tr, "smp-time-untouched"); c.ev("smp-momentum"); }
		else { double r = b.AdjustRefTimeToMean(); c.near(r, Tr - mt, 1e-13 * (1 + fabs(T0)), 0, "smp-mean-time"); L m = 0; for(auto& p : b) m += (L) p.ct() * p.Q() / Q; c.near(m, 0, 1e-13, 0, "smp-mean-offset"); c.check(b.GetReferenceMomentum() == Pr, "smp-momentum-untouched"); c.ev("smp-time"); }
		size_t i = 0; for(auto& p : b) { const SliceMacroParticle& q = o[i]; for(int a = 0; a < 4; a++) { c.check(p[a] == q[a], "smp-transverse"); for(int d = 0; d < 4; d++) c.check(p.sig(a, d) == q.sig(a, d), "smp-sigma"); } c.check(p.Q() == q.Q(), "smp-charge"); c.near((L) b.GetReferenceMomentum() * (1 + (L) p.dp()), (L) P0 * (1 + (L) q.dp()), 1e-14 * P0, 0, "smp-absolute-momentum"); c.near((L) b.GetReferenceTime() - p.ct(), (L) T0 - q.ct(), 1e-14 * (fabs(T0) + 1), 0, "smp-absolute-time"); i++; }
	}
	c.note(P0); c.note(od); c.note((uint64_t) n); c.nontrivial();
}
