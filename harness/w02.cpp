// W02: synchrotron radiation: classical loss, photon numbers and spectrum, directions, steps, reference momentum.
#include "coll.h"
#include "SynchRadParticleProcess.h"
#include "ElectronBunch.h"
#include "ProtonBunch.h"
#include "MuonBunch.h"
#include "Solenoid.h"
#include "SWRFStructure.h"
double HBSpectrumGen(double); double AWSpectrumGen(double);
using namespace coll;
typedef long double LD;
static const LD CL = 299792458, QE = 1.602176565e-19L, HB = 1.054571726e-34L, E0 = 8.854187817e-12L;
struct Kind { LD m, gev; int k; };
static Kind kind(int k) { return k == 0 ? Kind{9.10938215e-31L, 0.510998928e-3L, 0} : k == 1 ? Kind{1.672621777e-27L, 0.938272046L, 1} : Kind{1.883531475e-28L, 0.1056583715L, 2}; }
static ParticleBunch* bunch(int k, double P0) { return k == 0 ? (ParticleBunch*) new ElectronBunch(P0, 1) : k == 1 ? (ParticleBunch*) new ProtonBunch(P0, 1) : (ParticleBunch*) new MuonBunch(P0, 1); }
static LD loss(const Kind& K, LD P, LD B, LD L) { LD g = P / K.gev; return QE * QE * QE * g * g * B * B * L / (6 * M_PIl * E0 * K.m * K.m * CL * CL * 1e9L); } // GeV
static LD critical(const Kind& K, LD P, LD B) { LD g = P / K.gev; return 1.5L * HB * B * g * g / K.m * 1e-9L; } // GeV
static LD photons(const Kind& K, LD B, LD L) { return 5 / (2 * sqrtl(3)) / 137.035999L * QE * B * L / (K.m * CL); }
static double field(const Kind& K, double P0, double rel, double hmax) { double B = sqrt((double) (rel * P0 / loss(K, P0, 1, 1))); return std::min(B, hmax * P0 / 0.299792458); } // for a relative loss per metre
// Moments and tail of the photon energy over the critical energy
static LD moment(int k) { return powl(2, k) * tgammal((k + 2 + 5 / 3.L) / 2) * tgammal((k + 2 - 5 / 3.L) / 2) / (k + 1) * 3 / (5 * M_PIl); }
static double tail(double y) { double s = 0; const double h = 0.1; for(int i = 0; i < 900; i++) { double t = i * h, e = y * cosh(t); if(e > 60) break; double f = exp(-e) * cosh(5 * t / 3) / (cosh(t) * cosh(t)); s += i ? f : f / 2; } return s * h * 3 / (5 * M_PI); }
struct Line2 { std::unique_ptr<AcceleratorModel> m; std::vector<AcceleratorComponent*> e; };
static Line2 radiators(Case& c, const Kind& K, double P0, double q)
{
	Line2 l; auto& r = c.rng; AcceleratorModelConstructor mc; int n = r.range(1, 6); double br = P0 / 0.299792458;
	auto add = [&](auto* a) { mc.AppendComponent(*a); l.e.push_back(a); };
	for(int i = 0; i < n; i++)
	{
		double L = r.pick({1.0, 0.3, r.uni(0.02, 4), 0.7}), B = field(K, P0, r.logu(1e-8, 1e-2), 0.1) * q; std::string nm = "E" + std::to_string(i); double g = r.pick({field(K, P0, r.logu(1e-8, 1e-5), 0.5) / 5e-3, 0.3 * br}); g = std::min({g, 0.5 / std::max(L, 0.2) * br, field(K, P0, 1e-4, 1) / 1e-2}) * r.sgn();
		switch(r.range(0, 9))
		{
		case 0: case 1: case 2: case 3: { double h = B * 0.299792458 / P0 * q * r.pick({1.0, 1.0, 0.9}); auto b = new SectorBend(nm, L, h, B); if(r.chance(0.4)) { b->GetField().SetComponent(1, g * 0.3); c.ev("gradient"); } if(r.chance(0.2)) b->GetField().SetComponent(2, r.sym(1) * std::min(std::fabs(g) / 5e-3, 3 * br)); add(b); break; }
		case 4: add(new Quadrupole(nm, L, g)); break;
		case 5: add(new Sextupole(nm, L, r.sym(1) * std::min(std::fabs(g) / 5e-3, 5 * br))); break;
		case 6: add(new SkewQuadrupole(nm, L, g)); break;
		case 7: add(new XCor(nm, L, B * 1e-2)); break;
		case 8: add(new Solenoid(nm, L, r.sym(1))); break;
		default: add(new Drift(nm, r.pick({L, 0.0})));
		}
	}
	l.m.reset(mc.GetModel()); return l;
}
static LD bfield(AcceleratorComponent* a, bool quads, double x, double y)
{
	MultipoleField* f = nullptr; if(auto b = dynamic_cast<SectorBend*>(a)) f = &b->GetField(); else if(auto m = dynamic_cast<RectMultipole*>(a)) { if(quads) f = &m->GetField(); } if(!f) return 0;
	std::complex<LD> z(x, y), s = 0, p = 1; for(int i = 0; i <= 4; i++) { Complex b = f->GetCoefficient(i); s += std::complex<LD>(b.real(), b.imag()) * p; p *= z; } return fabsl((LD) f->GetFieldScale()) * std::abs(s);
}
static void check(Case& c, const PSvector& a, const PSvector& b, LD P0, LD P1, LD U, LD eps, bool symp)
{
	LD E = P0 * (1 + (LD) a.dp()) - U, dpi = E / P0; double tol = 6e-16 + (double) (U / P0 * eps), sl = symp ? (double) fabsl(E / (P0 * (1 + (LD) a.dp()))) : (double) (1 / (1 + U / P0));
	c.check(a.x() == b.x() && a.y() == b.y() && a.ct() == b.ct() && a.id() == b.id(), "other-coordinates", "position, time or order of the particles changed");
	c.near((double) (P1 * (1 + (LD) b.dp()) / P0), (double) dpi, tol, 0, "loss", "momentum over reference, expected loss %g", (double) (U / P0));
	c.near(b.xp(), a.xp() * sl, std::fabs(a.xp()) * tol * 4, 0, "direction", "horizontal angle, relative loss %g", (double) (U / P0)); c.near(b.yp(), a.yp() * sl, std::fabs(a.yp()) * tol * 4, 0, "direction", "vertical angle, relative loss %g", (double) (U / P0));
}
struct Watch : ParticleBunchProcess
{
	std::function<void(AcceleratorComponent*, double, ParticleBunch&)> f; double h; bool on = true;
	Watch(int p, double h_, decltype(f) g) : ParticleBunchProcess("obs", p), f(g), h(h_) {}
	void SetCurrentComponent(AcceleratorComponent& a) override { currentComponent = &a; active = true; f(&a, -1, *currentBunch); }
	void DoProcess(double ds) override { f(currentComponent, ds, *currentBunch); } double GetMaxAllowedStepSize() const override { return h ? h : 1e9; }
};
static double last_generator = 0; static std::vector<double> asked; static double recorder(double uc) { asked.push_back(uc); return last_generator; }
FAMILY(mean, 900, 15000)
{
	auto& r = c.rng; int k = r.pick({0, 0, 1, 2}); Kind K = kind(k); double P0 = (double) K.gev * r.logu(k == 0 ? 1e3 : 30, 3e5); std::unique_ptr<ParticleBunch> b(bunch(k, P0)); Line2 l = radiators(c, K, P0, b->GetChargeSign()); bool quads = r.chance(0.5), symp = r.chance(0.4), adj = r.chance(0.6); int mode = r.range(0, 2), ns = mode == 0 ? 1 : r.range(1, 9); double ds = r.pick({0.1, r.logu(0.03, 3), 100.0}) * 1.0000123; bool fine = r.chance(0.4);
	if(getenv("DBG")) for(auto a : l.e) fprintf(stderr, "k %d P0 %g %s L %g B %Lg loss %Lg\n", k, P0, a->GetType().c_str(), a->GetLength(), bfield(a, true, 1e-3, 0), loss(K, P0, bfield(a, true, 1e-3, 0), 1) / P0);
	int n = r.chance(0.05) ? 0 : r.range(1, 20); for(int i = 0; i < n; i++) { PSvector p(0); for(int j = 0; j < 4; j++) p[j] = r.pick({0.0, r.sym(1e-3), r.sym(1e-3)}) * (j % 2 ? 0.3 : 5); p.ct() = r.sym(1e-2); p.dp() = r.pick({0.0, r.sym(1e-3), r.sym(0.1)}); p.id() = 10 + i; b->AddParticle(p); }
	ParticleTracker t(l.m->GetBeamline(), b.get()); auto sr = new SynchRadParticleProcess(3); SynchRadParticleProcess::UseSymplecticVariables(symp); sr->IncludeQuadRadiation(quads); sr->AdjustBunchReferenceEnergy(adj); if(mode == 1) sr->SetNumComponentSteps(ns); if(mode == 2) sr->SetMaxComponentStepSize(ds);
	PV before; double s = 0, P1 = P0; int kicks = 0; double radiated = 0; std::map<AcceleratorComponent*, int> got; int seen = 0; bool wild = false;
	t.AddProcess(new Watch(2, fine ? r.logu(0.02, 1) : 0, [&](AcceleratorComponent*, double d, ParticleBunch& p) { if(d < 0) { s = 0; kicks = 0; } else s += d; before = p.GetParticles(); P1 = p.GetReferenceMomentum(); })); t.AddProcess(sr);
	t.AddProcess(new Watch(4, 0, [&](AcceleratorComponent* a, double d, ParticleBunch& bb) {
		PV& p = bb.GetParticles(); double P2 = bb.GetReferenceMomentum(); c.check(p.size() == before.size(), "size", "%zu particles after, %zu before", p.size(), before.size()); if(p.size() != before.size() || wild) return; for(auto& q : before) if(!(std::fabs(q.xp()) < 0.3 && std::fabs(q.yp()) < 0.3 && std::fabs(q.x()) < 1 && std::fabs(q.y()) < 1)) { wild = true; c.ev("wild"); return; }
		bool rad = dynamic_cast<SectorBend*>(a) || (quads && dynamic_cast<RectMultipole*>(a)); double L = a->GetLength(); int want = mode == 2 ? 1 + (int) (L / ds) : ns; double dL = L / want; bool now = rad && d >= 0 && kicks < want && std::fabs(s - (kicks + 1) * dL) <= 1e-11 * (1 + s);
		if(!now) { for(size_t i = 0; i < p.size(); i++) c.check(same(p[i], before[i]), rad ? "between" : "no-field", "particle %zu changed in %s at %g of %g m, %d of %d", i, a->GetName().c_str(), s, L, kicks, want); c.check(P2 == P1, rad ? "between" : "no-field", "reference momentum changed in %s", a->GetName().c_str()); c.ev(rad ? "between" : "no-field"); return; }
		kicks++; seen++; got[a] = kicks; LD sum = 0; for(auto& q : before) sum += loss(K, P1 * (1 + (LD) q.dp()), bfield(a, quads, q.x(), q.y()), dL); LD mean = p.empty() ? 0 : sum / p.size();
		LD g = P1 * 0.8L / K.gev, eps = 2e-6L + 3 / (g * g); if(adj) c.near(P2 / P1, (double) (1 - mean / P1), 5e-16 + (double) (mean / P1 * eps), 0, "reference", "reference momentum, relative mean loss %g", (double) (mean / P1)); else c.check(P2 == P1, "reference", "changed from %.17g to %.17g though fixed", P1, P2);
		for(size_t i = 0; i < p.size(); i++) { LD U = loss(K, P1 * (1 + (LD) before[i].dp()), bfield(a, quads, before[i].x(), before[i].y()), dL); check(c, before[i], p[i], P1, P2, U, eps, symp); if(U > 1e-12L * P1) { c.ev(dynamic_cast<SectorBend*>(a) ? "bends" : "multipoles"); radiated += (double) U; c.ev(symp ? "canonical" : "angles"); c.ev(k == 0 ? "electrons" : k == 1 ? "protons" : "muons"); } }
		if(want > 1) c.ev("several-steps"); if(adj) c.ev("reference"); if(p.empty()) c.ev("empty");
	}));
	{ Quiet q; t.Track(b.get()); } SynchRadParticleProcess::UseSymplecticVariables(false);
	if(!wild) for(auto a : l.e) if(dynamic_cast<SectorBend*>(a) || (quads && dynamic_cast<RectMultipole*>(a))) { int want = mode == 2 ? 1 + (int) (a->GetLength() / ds) : ns; c.check(got[a] == want, "steps", "%d of %d radiating steps in %s of %g m", got[a], want, a->GetName().c_str(), a->GetLength()); }
	c.note(P0); c.note(radiated); c.nontrivial();
}
FAMILY(numbers, 120, 1500) // photons are emitted at the expected rate, with the right critical energy, each taking its energy from the particle
{
	auto& r = c.rng; int k = r.pick({0, 0, 1, 2}); Kind K = kind(k); double P0 = (double) K.gev * r.logu(k == 0 ? 1e3 : 30, 3e5); double L = r.pick({1.0, r.uni(0.1, 5)}); LD lam = r.pick({r.logu(0.02, 40), 1.0, r.uni(0.5, 12)}); double B = (double) (lam / photons(K, 1, L)), hm = 0.2 * P0 / 0.299792458; if(B > hm) { B = hm; lam = photons(K, B, L); } std::unique_ptr<ParticleBunch> b(bunch(k, P0)); double sg = b->GetChargeSign(); B *= sg;
	int ns = r.range(1, 6); SectorBend* s = new SectorBend("B", L, sg * B * 0.299792458 / P0, B); AcceleratorModelConstructor mc; mc.AppendComponent(*s); std::unique_ptr<AcceleratorModel> m(mc.GetModel()); int n = 400; bool spread = r.chance(0.5); std::vector<double> dp0; for(int i = 0; i < n; i++) { PSvector p(0); p.dp() = spread ? (i % 5) * 0.01 : 0; p.id() = i; dp0.push_back(p.dp()); b->AddParticle(p); }
	last_generator = P0 * r.pick({1e-7, 3e-8}); asked.clear(); bool late = r.chance(0.5); Quiet q; RandomNG::init(r.range(1, 1 << 30)); auto sr = new SynchRadParticleProcess(3, late && r.chance(0.5)); if(late) sr->GeneratePhotons(true); SynchRadParticleProcess::SetPhotonGenerator(&recorder); if(!late) sr->GeneratePhotons(true); sr->AdjustBunchReferenceEnergy(false); sr->SetNumComponentSteps(ns);
	{ ParticleTracker t(m->GetBeamline(), b.get()); t.AddProcess(sr); t.Track(b.get()); } SynchRadParticleProcess::SetPhotonGenerator(&HBSpectrumGen);
	c.check(b->size() == (size_t) n, "size", "%zu of %d particles", b->size(), n); size_t total = 0; LD var = 0; std::vector<LD> cnt; double worst = 0; for(int i = 0; i < n; i++) { const PSvector& p = b->GetParticles()[i]; LD x = ((LD) dp0[i] - p.dp()) * P0 / last_generator, w = roundl(x); worst = std::max(worst, (double) fabsl(x - w)); c.check(w >= 0, "sign", "particle %d gained energy", i); total += (size_t) w; cnt.push_back(w); } c.check(worst < 1e-5, "whole-photons", "a loss is not a whole number of photons: off by %g", worst);
	c.check(total == asked.size(), "photons", "particles lost %zu photons, %zu were drawn", total, asked.size()); c.near((double) total, (double) (n * lam), 7 * sqrt((double) (n * lam)) + 1, 1e-6, "rate", "photons of %d particles, %g each", n, (double) lam); for(auto w : cnt) var += (w - (LD) total / n) * (w - (LD) total / n); var /= n - 1; c.near((double) var, (double) lam, 8 * sqrt((double) ((lam + 2 * lam * lam) / n)) + 8. / n, 0, "poisson", "variance of the number of photons, mean %g", (double) lam);
	std::set<long> seen; for(double u : asked) { bool ok = false; for(int j = 0; j < (spread ? 5 : 1); j++) { LD want = critical(K, P0 * (1 + j * 0.01L), std::fabs(B)); if(u <= want * (1 + 2e-6L) && u >= want * (1 - 4e-4L)) { ok = true; seen.insert(j); } } if(!ok) { c.check(false, "critical-energy", "critical energy %g GeV, expected %g", u, (double) critical(K, P0, std::fabs(B))); break; } }
	c.ev("photons", asked.size()); if(late) c.ev("late-generator"); if(spread && seen.size() > 1) c.ev("spread"); c.note(B); c.note((double) lam); c.nontrivial();
}
FAMILY(quantum, 60, 800) // mean and variance of the loss with the default spectrum; the reference follows; the same seed gives the same bunch
{
	auto& r = c.rng; int k = r.pick({0, 0, 2}); Kind K = kind(k); LD lam = r.uni(0.5, 15); double h = r.uni(0.002, 0.02), L = (double) (lam / photons(K, 1, 1)) / 1; double P0, B; L = r.uni(0.3, 3); B = (double) (lam / photons(K, 1, L)); P0 = 0.299792458 * B / h; LD uc = critical(K, P0, B); if(uc / P0 > 1e-4L) { P0 *= (double) (1e-4L / (uc / P0)); uc = critical(K, P0, B); } if(uc / P0 < 1e-9L) return;
	int n = 3000; bool adj = r.chance(0.5), q2 = r.chance(0.5); uint32_t seed = r.range(1, 1 << 30); int ns = r.range(1, 4); std::unique_ptr<ParticleBunch> run[2]; for(int z = 0; z < 2; z++) { run[z].reset(bunch(k, P0)); AcceleratorModelConstructor mc; if(q2) { auto x = new XCor("B", L, B); mc.AppendComponent(*x); } else mc.AppendComponent(*new SectorBend("B", L, h, B * run[z]->GetChargeSign())); std::unique_ptr<AcceleratorModel> m(mc.GetModel()); for(int i = 0; i < n; i++) run[z]->AddParticle(PSvector(0)); Quiet q; RandomNG::init(seed); ParticleTracker t(m->GetBeamline(), run[z].get()); auto sr = new SynchRadParticleProcess(3, true); sr->AdjustBunchReferenceEnergy(adj); sr->SetNumComponentSteps(ns); sr->IncludeQuadRadiation(q2); t.AddProcess(sr); t.Track(run[z].get()); }
	bool eq = run[0]->GetReferenceMomentum() == run[1]->GetReferenceMomentum(); for(int i = 0; i < n; i++) eq = eq && same(run[0]->GetParticles()[i], run[1]->GetParticles()[i]); c.check(eq, "reproducible", "two runs with the same seed differ");
	LD s = 0, s2 = 0; double P1 = run[0]->GetReferenceMomentum(); for(auto& p : run[0]->GetParticles()) { LD u = (P0 - P1 * (1 + (LD) p.dp())) / uc; c.check(u > -1e-7L, "sign", "a particle gained energy"); s += u; s2 += u * u; } s /= n; s2 = s2 / n - s * s; LD want = lam * moment(1), var = lam * moment(2), m4 = lam * moment(4) + 3 * var * var;
	if(adj) { LD x = 0; for(auto& p : run[0]->GetParticles()) x += p.dp(); c.near((double) (x / n), 0, 1e-12, 0, "reference", "mean momentum deviation"); c.near(P1, (double) (P0 - s * uc), 0, 1e-12, "reference", "reference momentum"); } else c.check(P1 == P0, "reference", "changed");
	c.near((double) s, (double) want, 7 * sqrt((double) (var / n)), 3e-3, "mean-loss", "mean loss over critical energy, %g photons", (double) lam); c.near((double) (loss(K, P0, B, L) / uc), (double) want, 0, 1e-5, "oracle", "classical loss"); c.near((double) s2, (double) var, 8 * sqrt((double) ((m4 - var * var) / n)), 3e-3, "variance", "variance of the loss over critical energy squared, %g photons", (double) lam);
	c.ev("bunches"); if(q2) c.ev("multipole"); c.note((double) lam); c.note(P0); c.nontrivial();
}
FAMILY(spectrum, 40, 400)
{
	auto& r = c.rng; uint32_t seed = r.range(1, 1 << 30); double uc = r.logu(1e-9, 1); int n = 4000; Quiet q; RandomNG::init(seed); std::vector<double> y; LD s1 = 0, s2 = 0; for(int i = 0; i < n; i++) { double u = HBSpectrumGen(uc) / uc; c.check(u >= 0 && std::isfinite(u), "range", "photon of %g critical energies", u); y.push_back(u); s1 += u; s2 += u * u; }
	RandomNG::init(seed); double a = r.uni(0.1, 10), bad = 0; for(int i = 0; i < 50; i++) bad = std::max(bad, std::fabs(HBSpectrumGen(uc * a) / (uc * a * y[i]) - 1)); c.check(bad < 1e-12, "scale", "the sequence does not scale with the critical energy or depends on more than the seed: %g", bad);
	c.near((double) (s1 / n), (double) moment(1), 7 * sqrt((double) ((moment(2) - moment(1) * moment(1)) / n)), 0, "mean", "mean photon energy"); c.near((double) (s2 / n), (double) moment(2), 7 * sqrt((double) ((moment(4) - moment(2) * moment(2)) / n)), 0, "rms", "mean squared photon energy");
	std::sort(y.begin(), y.end()); double D = 0; for(int i = 0; i < n; i++) { double F = 1 - tail(y[i]); D = std::max({D, std::fabs(F - i / (double) n), std::fabs(F - (i + 1) / (double) n)}); } c.check(D * sqrt(n) < 3.3, "spectrum", "distribution is off by %g (%g sigma)", D, D * sqrt(n));
	RandomNG::init(seed); y.clear(); for(int i = 0; i < n; i++) { double u = AWSpectrumGen(uc) / uc; c.check(u >= 0 && std::isfinite(u), "range", "photon of %g critical energies", u); y.push_back(u); } std::sort(y.begin(), y.end()); D = 0; double m = 0; for(int i = 0; i < n; i++) { double F = 1 - tail(y[i]); D = std::max({D, std::fabs(F - i / (double) n), std::fabs(F - (i + 1) / (double) n)}); m += y[i] / n; } if(getenv("DBG")) fprintf(stderr, "AW D %g mean %g of %g\n", D, m, (double) moment(1));
	c.check(D < 0.06, "approximation", "the approximate spectrum is off by %g", D); c.near(m, (double) moment(1), 0.1, 0, "approximation", "mean of the approximate spectrum"); c.ev("spectra"); c.note(y[n / 2]); c.nontrivial();
}
