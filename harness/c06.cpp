// C06: scattering in matter. Sampled distributions are compared with the stated formulas (KS and counting tests
// whose false-alarm rate is below 1e-6 per test), kinematic identities are checked event by event, and spies
// inside the model watch every interaction of the collimation process.
#include "coll.h"
#include "ScatteringModelsMerlin.h"
#include "CollimateProtonProcess.h"
#include "MaterialData.h"
#include "MaterialProperties.h"
#include "ProtonBunch.h"
#include "ElasticScatter.h"
#include "DiffractiveScatter.h"
#include "PhysicalConstants.h"
#include "PhysicalUnits.h"
#include "Collimator.h"
#include <unistd.h>
#include <sys/wait.h>
using namespace vh; using namespace Collimation; using namespace ParticleTracking; using coll::Quiet;
typedef std::vector<double> V;
static const double MP = 0.938272013, ME = 0.51099893e-3, AMU = 0.93149410242, NA = 6.02214e23;
static StandardMaterialData& data() { static StandardMaterialData* d = [] { Quiet q; return new StandardMaterialData; }(); return *d; }
static const std::vector<std::string> PURE = {"Al", "Be", "C", "Cu", "Pb", "W", "Si", "AC150K"};
// Kolmogorov-Smirnov distance times sqrt(n) of values that should be uniform on [0,1]
static double ks(V u) { std::sort(u.begin(), u.end()); double d = 0, n = u.size(); for(size_t i = 0; i < u.size(); i++) { if(!(u[i] >= -1e-9 && u[i] <= 1 + 1e-9)) return 1e9; d = std::max({d, (i + 1) / n - u[i], u[i] - i / n}); } return d * sqrt(n); }
static double gauss(double z) { return 0.5 * erfc(-z / sqrt(2.0)); }
static const double KS = 2.9; // p = 1e-7
static void seed(Case& c) { RandomNG::init(1 + (uint32_t) (c.rng.u() * 1e9)); }

FAMILY(path_length, 24, 240)
{
	seed(c); bool mix = c.rng.chance(0.3); std::string n = mix ? "Glidcop" : c.rng.pick(PURE); auto m = data().property[n]; MaterialProperties own(*m); MaterialProperties* mat = m;
	if(!mix && c.rng.chance(0.5)) { own.density *= c.rng.uni(0.3, 1.5); own.Update(); mat = &own; }
	double lam = mat->A * 1e-3 / ((mat->sigma_T + mat->sigma_R) * mat->density * 1e-28 * NA), E = c.rng.logu(10, 7000);
	ScatteringModelSixTrack a; ScatteringModelMerlin b; ScatteringModel& s = c.rng.chance(0.5) ? (ScatteringModel&) a : (ScatteringModel&) b;
	V u; int bad = 0; for(int i = 0; i < 20000; i++) { double x = s.PathLength(mat, E); if(!(x >= 0)) bad++; u.push_back(1 - exp(-x / lam)); }
	c.check(bad == 0, "path-negative", "%s: %d negative free paths", n.c_str(), bad);
	double d = ks(u); c.check(d < KS, "path-distribution", "%s: free paths are not exponential with mean %.6g m (KS %.2f)", n.c_str(), lam, d);
	c.ev("paths", 20000); c.note(lam); c.note((uint64_t) mix); c.nontrivial(); c.sample(fmt("%s lambda %.4g KS %.2f", n.c_str(), lam, d));
}

// Landau most probable loss (PDG passage of particles through matter), with the model's Mott and form factor terms
static void landauLoss(const MaterialProperties& m, double I, double E, double x, double& shift, double& xi)
{
	double g = E / MP, b2 = 1 - 1 / (g * g), rho = m.density / (PhysicalUnits::gram / PhysicalUnits::cc); // g/cm3
	xi = 0.1535375e-3 * m.Z / m.A * rho * (x * 100) / b2; // GeV
	double pl = 28.816e-9 * sqrt(rho * m.Z / m.A), C = 1 + 2 * log(I / pl), X = log10(sqrt(b2) * g);
	double X1 = I < 100e-9 ? 2 : 3, X0 = I < 100e-9 ? (C <= 3.681 ? 0.2 : 0.326 * C - 1.0) : (C <= 5.215 ? 0.2 : 0.326 * C - 1.5);
	double d = X > X1 ? 4.606 * X - C : X >= X0 ? 4.606 * X - C + (C - 4.606 * X0) / pow(X1 - X0, 3) * pow(X1 - X, 3) : 0;
	double tmax = 2 * ME * b2 * g * g / (1 + 2 * g * ME / MP + pow(ME / MP, 2)), F = M_PI / 137.036 * sqrt(b2) / 2 - log(1 + 2 * tmax * ME / pow(0.843, 2)) - 2 * 1.202 / (137.036 * 137.036) / b2;
	shift = xi * (log(2 * ME * b2 * g * g / I) + log(xi / I) + 0.2 - b2 - d + F);
}
FAMILY(ionisation, 60, 600)
{
	seed(c); auto& r = c.rng; Quiet q; bool st = r.chance(0.2); ScatteringModelSixTrackIoniz a; ScatteringModelMerlin b; ScatteringModel& s = st ? (ScatteringModel&) a : (ScatteringModel&) b; s.energy_loss_mode = FullEnergyLoss;
	// the same storage holds different materials in turn, as happens when a material is replaced
	MaterialProperties mat; int rounds = r.range(1, 3);
	for(int k = 0; k < rounds; k++)
	{
		std::string n = r.pick(PURE); mat = *data().property[n]; mat.density *= r.uni(0.5, 1.3); mat.Update(); bool known = mat.HaveExtra("MeanExcitationEnergy"); double I = known ? mat.GetExtra("MeanExcitationEnergy") / PhysicalUnits::eV * 1e-9 : 10e-9 * mat.Z;
		double E0 = r.logu(20, 7000), dp0 = r.chance(0.5) ? 0.0 : r.uni(-0.5, 0.02), x = r.logu(1e-5, 1.0), shift, xi; landauLoss(mat, I, E0 * (1 + dp0), x, shift, xi);
		V l; int up = 0, nf = 0, other = 0; PSvector p0(0); for(int i = 0; i < 4; i++) p0[i] = r.sym(1e-3); p0.ct() = r.sym(1e-3); p0.dp() = dp0;
		for(int i = 0; i < 3000; i++) { PSvector p(p0); s.EnergyLoss(p, x, &mat, E0); double d = (dp0 - p.dp()) * E0; nf += !std::isfinite(d); up += d < -1e-12 * E0; for(int j = 0; j < 5; j++) other += p[j] != p0[j]; l.push_back(d); }
		c.check(!nf, "ionisation-finite", "%s: %d losses are not numbers", n.c_str(), nf); c.check(!up, "energy-gain", "%s x %g E %g: %d of 3000 particles gained energy", n.c_str(), x, E0, up); c.check(!other, "ionisation-coordinates", "coordinates other than dp changed");
		if(nf) return; std::sort(l.begin(), l.end()); double med = l[1500], q1 = l[300], q9 = l[2700];
		// Landau distribution: quantiles 0.1, 0.5, 0.9 at -0.92, 1.356, 11.66 (approx.)
		if(shift > 4 * xi) { c.near(med, shift + 1.356 * xi, 0.45 * xi, 0.01, "ionisation-median", "%s density %g x %g E %g: median loss", n.c_str(), mat.density, x, E0 * (1 + dp0)); double w = (q9 - q1) / xi; c.check(w > 10 && w < 15, "ionisation-width", "%s: width of the loss distribution is %.3g xi", n.c_str(), w); c.ev("landau"); }
		c.ev("losses", 3000); if(k) c.ev("material_replaced"); if(!known) c.ev("default_excitation"); c.note(med); c.note(x); c.nontrivial(); if(k == 0) c.sample(fmt("%s x=%.3g m E=%.4g: median loss %.4g GeV, formula %.4g", n.c_str(), x, E0, med, shift + 1.356 * xi));
	}
}
FAMILY(simple_loss, 40, 400)
{
	seed(c); auto& r = c.rng; Quiet q; StandardMaterialData d; bool six = r.chance(0.5); if(six) d.UseSixTrackValues(); static const std::map<std::string, double> tab = {{"C", 0.68}, {"Al", 0.81}, {"Cu", 2.69}, {"W", 5.79}, {"AC150K", 0.68}};
	std::string n = r.pick<std::string>({"C", "Al", "Cu", "W", "AC150K"}); auto m = d.property[n]; double want = tab.at(n); bool own = r.chance(0.4); if(own) { want = r.uni(0.1, 10); m->SetExtra("SixtrackdEdx", want); }
	ScatteringModelSixTrack a; ScatteringModelSixTrackElastic b; ScatteringModelSixTrackSD e; ScatteringModel& s = *r.pick<ScatteringModel*>({&a, &b, &e}); if(&s == &a && r.chance(0.5)) s.Configure(m, 100); else s.energy_loss_mode = SimpleEnergyLoss;
	for(int i = 0; i < 20; i++) { PSvector p(0); for(int j = 0; j < 6; j++) p[j] = r.sym(1e-3); p.dp() = r.uni(-0.5, 0.01); PSvector p0(p); double E0 = r.logu(50, 7000), x = r.logu(1e-4, 1); s.EnergyLoss(p, x, m, E0); c.near((p0.dp() - p.dp()) * E0, want * x, 1e-9 * E0, 1e-6, "simple-loss", "%s: energy lost in %g m (own value %d, sixtrack values %d)", n.c_str(), x, (int) own, (int) six); for(int j = 0; j < 5; j++) c.check(p[j] == p0[j], "simple-coordinates", "other coordinates changed"); }
	c.ev("simple"); c.note(want); c.note((uint64_t) six); c.nontrivial();
}
FAMILY(straggling, 40, 400)
{
	seed(c); auto& r = c.rng; Quiet q; ScatteringModelSixTrack s; MaterialProperties mat;
	for(int k = r.range(1, 3); k > 0; k--)
	{
		std::string n = r.pick(PURE); mat = *data().property[n]; mat.density *= r.uni(0.5, 1.3); mat.Update(); double X = mat.X0 * 0.01 / (mat.density / (PhysicalUnits::gram / PhysicalUnits::cc));
		double E1 = r.logu(10, 7000), E2 = E1 * r.uni(0.8, 1), x = r.logu(1e-4, 1.0), t0 = 0.0136 * sqrt(x / X) * (1 + 0.038 * log(x / X)) * 2 / (E1 + E2); const int N = 8000; V a, b, ax, bx, xa; PSvector p0(0); for(int i = 0; i < 6; i++) p0[i] = r.sym(1e-6);
		for(int i = 0; i < N; i++) { PSvector p(p0); s.Straggle(p, x, &mat, E1, E2); c.check(p.ct() == p0.ct() && p.dp() == p0.dp(), "straggle-coordinates", "ct or dp changed"); double tx = p.xp() - p0.xp(), ty = p.yp() - p0.yp(); a.push_back(gauss(tx / t0)); b.push_back(gauss(ty / t0)); ax.push_back(gauss((p.x() - p0.x() - x * tx / 2) * sqrt(12.0) / (x * t0))); bx.push_back(gauss((p.y() - p0.y() - x * ty / 2) * sqrt(12.0) / (x * t0))); xa.push_back(gauss((tx + ty) / t0 / sqrt(2.0))); }
		const char* nm[] = {"horizontal angle", "vertical angle", "horizontal displacement", "vertical displacement", "correlation of the planes"}; V* all[] = {&a, &b, &ax, &bx, &xa}; for(int i = 0; i < 5; i++) { double d = ks(*all[i]); c.check(d < KS, "straggle-distribution", "%s, %g m (density %g), %g GeV: %s does not follow the multiple scattering formula, theta0 %g (KS %.2f)", n.c_str(), x, mat.density, E1, nm[i], t0, d); }
		c.ev("scatters", N); if(k > 1) c.ev("material_replaced"); c.note(t0); c.note(x); c.nontrivial();
	}
}

// ---- which interaction
struct Spy : ScatteringProcess { const ScatteringProcess* in; int k; MaterialProperties* m; std::vector<std::pair<int, MaterialProperties*> >* log; bool call; Spy(const ScatteringProcess* p, int n, MaterialProperties* mm, std::vector<std::pair<int, MaterialProperties*> >* l, bool c) : in(p), k(n), m(mm), log(l), call(c) { sigma = p->sigma; } bool Scatter(PSvector& p, double E) const override { log->push_back({k, m}); return call ? in->Scatter(p, E) : true; } };
template<class M> struct Spied : M { std::vector<std::pair<int, MaterialProperties*> > log; int configured = 0; bool call = false; void Configure(MaterialProperties* m, double E) override { M::Configure(m, E); configured++; for(int i = 1; i < 6; i++) this->Processes[i] = new Spy(this->Processes[i], i, m, &log, call); } };
static double sqrtS(double E) { return sqrt(2 * MP * E + 2 * MP * MP); }
template<class M> static void choice(Case& c, double E, int N, int mats, double sEl, double sSD)
{
	auto& r = c.rng; Quiet q; Spied<M> s; std::vector<MaterialProperties*> ms; std::vector<std::string> names; for(int i = 0; i < mats; i++) { std::string n = r.pick(PURE); names.push_back(n); ms.push_back(data().property[n]); }
	std::vector<std::map<int, int> > cnt(mats); std::vector<int> tot(mats, 0); int block = N / 6; bool wrong = false;
	for(int i = 0; i < N; i++) { int k = (i / block) % mats; PSvector p(0); s.log.clear(); s.ParticleScatter(p, ms[k], E); if(s.log.size() != 1) { c.check(false, "interaction-count", "%zu interactions for one call", s.log.size()); return; } if(s.log[0].second != ms[k]) wrong = true; cnt[k][s.log[0].first]++; tot[k]++; if(k) c.ev("switched"); }
	c.check(!wrong, "interaction-material", "a process made for another material was used");
	for(int k = 0; k < mats; k++)
	{
		auto m = ms[k]; double el = sEl, sd = sSD, n = 1.618 * pow(m->A, 0.333); if(el < 0) el = -el * s.Processes[2]->sigma; if(sd < 0) sd = -sd * s.Processes[3]->sigma;
		double tq = m->sigma_T, x[6] = {0, m->sigma_R, n * el, n * sd, m->sigma_I, 0}; x[5] = tq - x[1] - x[2] - x[3] - x[4]; if(x[5] < 0) { c.ev("no_room"); continue; }
		for(int j = 1; j < 6; j++) { double f = x[j] / tq, e = f * tot[k], tol = 5.5 * sqrt(e * (1 - f)) + 0.006 * e + 3; c.check(fabs(cnt[k][j] - e) < tol, "interaction-fractions", "%s at %g GeV: interaction %d chosen %d times of %d, cross sections say %.1f", names[k].c_str(), E, j, cnt[k][j], tot[k], e); }
		c.note((uint64_t) cnt[k][4]);
	}
	c.ev("chosen", N); c.nontrivial(); c.sample(fmt("%s at %.4g GeV: R %d el %d SD %d inel %d pN %d", names[0].c_str(), E, cnt[0][1], cnt[0][2], cnt[0][3], cnt[0][4], cnt[0][5]));
}
FAMILY(choice_sixtrack, 30, 300)
{
	seed(c); double E = c.rng.logu(50, 7000), s = 2 * MP * E + MP * MP, el = 0.007 * pow(E / 450, 0.04792), sd = 0.00068 * log(0.15 * s); int mats = c.rng.range(1, 3);
	if(c.rng.chance(0.5)) choice<ScatteringModelSixTrack>(c, E, 60000, mats, el, sd); else choice<ScatteringModelSixTrackIoniz>(c, E, 60000, mats, el, sd);
}
static double elasticCDF(ppElasticScatter& x, double rs, V& t, V& F) { const int n = 20000; double a = log(1e-4), b = log(1.0), last = 0, sum = 0; t.clear(); F.clear(); for(int i = 0; i <= n; i++) { double tt = exp(a + (b - a) * i / n), f = x.PomeronScatter(tt, rs, true); if(i) sum += (f + last) / 2 * (tt - t.back()); last = f; t.push_back(tt); F.push_back(sum); } for(auto& f : F) f /= sum; return sum; }
FAMILY(advanced_elastic, 4, 24)
{
	seed(c); auto& r = c.rng; Quiet q; double E = r.pick({7000.0, 450.0, 3500.0, 1000.0}); std::string n = r.pick(PURE); auto m = data().property[n]; ScatteringModelSixTrackElastic mod; mod.Configure(m, E); auto el = dynamic_cast<Elasticpn*>(mod.Processes[2]);
	if(!el) { c.check(false, "elastic-model", "the advanced elastic model has no advanced elastic process"); return; }
	double s = 2 * MP * E + MP * MP; V t, F; elasticCDF(*el->calculations, sqrtS(E), t, F);
	double sn = 0; for(int i = 0; i < 10000; i++) sn += el->calculations->PomeronScatter(1e-4 + (i + 0.5) * (1 - 1e-4) / 10000, sqrtS(E), false) * (1 - 1e-4) / 10000;
	c.near(el->sigma, sn, 0, 0.01, "elastic-sigma", "nuclear elastic cross section at %g GeV (barn)", E); c.near(mod.Xsection[2], 1.618 * pow(m->A, 0.333) * el->sigma, 0, 1e-9, "elastic-xsection", "elastic cross section on %s", n.c_str()); c.near(mod.Xsection[3], 1.618 * pow(m->A, 0.333) * 0.00068 * log(0.15 * s), 0, 1e-6, "sd-xsection", "diffractive cross section");
	const int N = 20000; V u, ph; int bad = 0; double lo = 1e9, hi = 0; double d0 = r.uni(-0.1, 0.0);
	for(int i = 0; i < N; i++) { PSvector p(0); p.dp() = d0; el->Scatter(p, E); double tt = (p.xp() * p.xp() + p.yp() * p.yp()) * pow(E * (1 + d0), 2); lo = std::min(lo, tt); hi = std::max(hi, tt); bad += p.dp() > d0; size_t k = std::lower_bound(t.begin(), t.end(), tt) - t.begin(); if(k < 1) k = 1; if(k >= t.size()) k = t.size() - 1; u.push_back(std::min(1.0, std::max(0.0, F[k - 1] + (F[k] - F[k - 1]) * (tt - t[k - 1]) / (t[k] - t[k - 1])))); ph.push_back(atan2(p.yp(), p.xp()) / 2 / M_PI + 0.5); }
	c.check(lo > 0.99e-4 && hi < 1.01, "elastic-range", "momentum transfers from %g to %g GeV^2, tables cover 1e-4 to 1", lo, hi); c.check(!bad, "energy-gain", "elastic scattering raised the energy");
	// above the Coulomb peak (the table's first bins) the sampled shape is that of the cross section
	V v; double c0 = 0; { size_t k = std::lower_bound(t.begin(), t.end(), 3e-3) - t.begin(); c0 = F[k]; } for(double f : u) if(f > c0) v.push_back((f - c0) / (1 - c0)); double d = ks(v); c.check(d < KS + 0.01 * sqrt((double) v.size()), "elastic-t", "%g GeV: momentum transfer does not follow the elastic cross section (KS %.2f)", E, d); c.near((double) v.size() / N, 1 - c0, 0.08, 0, "elastic-peak", "fraction above the Coulomb peak"); double dph = ks(ph); c.check(dph < KS, "azimuth", "azimuth not uniform (KS %.2f)", dph);
	c.ev("elastic", N); c.note(E); c.note(el->sigma); c.nontrivial(); c.sample(fmt("%.4g GeV sigma %.4g b, KS above the peak %.2f", E, el->sigma, d));
}
FAMILY(diffractive, 2, 8)
{
	seed(c); auto& r = c.rng; Quiet q; static const double EN[] = {7000.0, 450.0}; double E = EN[c.idx % 2]; std::string n = r.pick(PURE); auto m = data().property[n]; bool full = c.idx % 4 < 2; ScatteringModelSixTrackSD a; ScatteringModelMerlin b; ScatteringModel& mod = full ? (ScatteringModel&) b : (ScatteringModel&) a; mod.Configure(m, E); auto sd = dynamic_cast<SingleDiffractive*>(mod.Processes[3]);
	if(!sd) { c.check(false, "sd-model", "the advanced diffractive model has no advanced diffractive process"); return; }
	c.near(mod.Xsection[3], 1.618 * pow(m->A, 0.333) * sd->sigma, 0, 1e-9, "sd-xsection", "diffractive cross section on %s", n.c_str()); c.near(sd->sigma, E == 7000 ? 0.00455 : 0.0, E == 7000 ? 0 : 1, 0.03, "sd-sigma", "diffractive cross section per nucleon at %g GeV", E); c.check(sd->sigma > 0.001 && sd->sigma < 0.01, "sd-sigma", "diffractive cross section per nucleon %g barn", sd->sigma);
	double s = pow(sqrtS(E), 2), d0 = r.chance(0.5) ? 0 : r.uni(-0.1, 0.0); const int N = 6000; V M2, T, ph; int bad = 0;
	for(int i = 0; i < N; i++) { PSvector p(0); p.dp() = d0; sd->Scatter(p, E); double E2 = E * (1 + p.dp()), del = (d0 - p.dp()) * E; bad += del < 0; T.push_back((p.xp() * p.xp() + p.yp() * p.yp()) * E2 * E2); M2.push_back(del * (2 * MP * E * (1 + d0) + 2 * MP * MP) / (E * (1 + d0))); ph.push_back(atan2(p.yp(), p.xp()) / 2 / M_PI + 0.5); }
	c.check(!bad, "energy-gain", "diffraction raised the energy %d times", bad); std::sort(T.begin(), T.end()); std::sort(M2.begin(), M2.end());
	c.check(M2[0] > pow(MP + 0.13, 2) * 0.9, "sd-threshold", "diffracted mass %g GeV below the pion threshold", sqrt(M2[0])); c.check(M2.back() < 0.12 * s * 1.02, "sd-range", "diffracted mass squared %g above 0.12 s", M2.back()); c.check(T[0] >= 0 && T.back() < 4.1, "sd-range", "t from %g to %g", T[0], T.back()); double dph = ks(ph); c.check(dph < KS, "azimuth", "azimuth not uniform (KS %.2f)", dph);
	c.note(T[N / 2]); c.note(M2[N / 2]); c.note(E); c.ev("diffractive", N); c.nontrivial(); c.sample(fmt("%.4g GeV sigma %.5g t quantiles %.4g %.4g %.4g  M2/s quantiles %.4g %.4g %.4g", E, sd->sigma, T[N / 10], T[N / 2], T[N * 9 / 10], M2[N / 10] / s, M2[N / 2] / s, M2[N * 9 / 10] / s));
}
// ---- kinematics of the other processes
FAMILY(kinematics, 80, 800)
{
	seed(c); auto& r = c.rng; Quiet q; double E = r.logu(50, 7000), d0 = r.pick({0.0, r.uni(-0.3, 0.01), r.uni(-0.05, 0.01)}), E1 = E * (1 + d0); bool mix = r.chance(0.2); std::string n = mix ? "Glidcop" : r.pick(PURE); auto m = data().property[n];
	int k = c.idx % 7; std::unique_ptr<ScatteringProcess> pr; const char* nm[] = {"Rutherford", "SixTrackRutherford", "SixTrackElasticpn", "ElasticpN", "SixTrackElasticpN", "SixTrackSingleDiffractive", "Inelastic"};
	switch(k) { case 0: pr.reset(new Rutherford(m)); break; case 1: pr.reset(new SixTrackRutherford); break; case 2: pr.reset(new SixTrackElasticpn); break; case 3: pr.reset(new ElasticpN(E, m)); break; case 4: pr.reset(new SixTrackElasticpN(m)); break; case 5: pr.reset(new SixTrackSingleDiffractive); break; default: pr.reset(new Inelastic); }
	const int N = 6000; V u, v, ph; PSvector p0(0); for(int i = 0; i < 6; i++) p0[i] = r.sym(1e-4); p0.dp() = d0; V As; if(mix) As = {63.546, 26.9815, 15.9994}; else As = {m->A}; int gain = 0;
	for(int i = 0; i < N; i++)
	{
		PSvector p(p0); bool alive = pr->Scatter(p, E); double E2 = E * (1 + p.dp()), del = (d0 - p.dp()) * E, dx = p.xp() - p0.xp(), dy = p.yp() - p0.yp();
		if(k == 6) { c.check(!alive, "inelastic", "an inelastic interaction left the particle alive"); continue; }
		c.check(alive == (E2 > 0.1), "alive", "%s: energy %g GeV after, reported %s", nm[k], E2, alive ? "alive" : "lost"); c.check(p.x() == p0.x() && p.y() == p0.y() && p.ct() == p0.ct(), "scatter-coordinates", "%s moved the particle", nm[k]);
		if(!alive) continue; gain += del < -1e-14 * E; double t = (dx * dx + dy * dy) * E2 * E2; ph.push_back(atan2(dy, dx) / 2 / M_PI + 0.5);
		if(k == 0 || k == 3) { bool ok = false; double A = 0; for(double a : As) if(fabs(del - t / (2 * a * AMU)) < 1e-4 * del + 1e-13 * E) { ok = true; A = a; } c.check(ok, "recoil", "%s on %s: energy loss %g GeV for momentum transfer %g GeV^2 is not that of a recoiling nucleus (dp before %g)", nm[k], n.c_str(), del, t, d0); if(!ok) return; if(k == 3) u.push_back(1 - exp(-14.1 * pow(A, 0.66) * t)); }
		else if(k != 5) c.check(fabs(del) <= 1e-13 * E, "elastic-energy", "%s lost %g GeV", nm[k], del);
		double s = 2 * MP * E1, b = 8.5 + 1.086 * log(sqrt(s));
		if(k == 0 || k == 1) u.push_back(1 - 0.9982e-3 / t); if(k == 2) u.push_back(1 - exp(-b * t)); if(k == 4 && !mix) u.push_back(1 - exp(-14.1 * pow(m->A, 0.66) * t));
		if(k == 5) { double x = del * s / E1; v.push_back(log(x) / log(0.15 * s)); double bb = x < 2 ? 2 * b : x <= 5 ? (106 - 17 * x) * b / 26 : 7 * b / 12; u.push_back(1 - exp(-bb * t)); }
	}
	c.check(!gain, "energy-gain", "%s: %d particles gained energy", nm[k], gain); c.ev("interactions", N); c.ev(nm[k]);
	if(k != 6) { for(auto& x : u) x = std::min(1.0, std::max(x > -1e-3 ? 0.0 : x, x)); if(u.size() > 1000) { double d = ks(u); c.check(d < KS, "t-distribution", "%s on %s at %g GeV, dp %g: momentum transfers do not follow the stated law (KS %.2f)", nm[k], n.c_str(), E, d0, d); c.note(d); } if(v.size() > 1000) { double d = ks(v); c.check(d < KS, "mass-distribution", "%s at %g GeV dp %g: diffracted mass does not follow the stated law (KS %.2f)", nm[k], E, d0, d); } double d = ks(ph); c.check(d < KS, "azimuth", "%s: azimuth not uniform (KS %.2f)", nm[k], d); if(mix) c.ev("mixture"); }
	c.note(E); c.note((uint64_t) k); c.nontrivial();
}

// ---- the collimation process: every particle's history
struct Ev { int k; PSvector before, after; double E; bool alive; };
struct HSpy : ScatteringProcess { ScatteringProcess* in; int k; std::vector<Ev>* log; HSpy(ScatteringProcess* p, int n, std::vector<Ev>* l) : in(p), k(n), log(l) { sigma = p->sigma; } bool Scatter(PSvector& p, double E) const override { Ev e; e.k = k; e.before = p; e.E = E; e.alive = in->Scatter(p, E); e.after = p; log->push_back(e); return e.alive; } };
struct HModel : ScatteringModelSixTrackIoniz { std::vector<Ev> log; int configured = 0; std::vector<double> energies; void Configure(MaterialProperties* m, double E) override { ScatteringModelSixTrackIoniz::Configure(m, E); configured++; energies.push_back(E); delete Processes[1]; Processes[1] = new Rutherford(m); delete Processes[5]; Processes[5] = new ElasticpN(E, m); for(int i = 1; i < 6; i++) Processes[i] = new HSpy(Processes[i], i, &log); } };
struct Query { double x, y, z; bool in; };
struct SpyJaw : CollimatorAperture { std::vector<Query>* log; SpyJaw(double g, double L, std::vector<Query>* l) : CollimatorAperture(g, g, 0, L, 0, 0), log(l) { SetExitWidth(g); SetExitHeight(g); } bool CheckWithinApertureBoundaries(double x, double y, double z) const override { bool r = CollimatorAperture::CheckWithinApertureBoundaries(x, y, z); log->push_back({x, y, z, r}); return r; } };
FAMILY(histories, 80, 800)
{
	// one particle at a time, so that everything the spies see belongs to it: the block asks its aperture where
	// the particle is after every step, and the processes record what they are given and give back
	seed(c); auto& r = c.rng; Quiet q; double P0 = r.logu(60, 7000), E0 = sqrt(P0 * P0 + MP * MP), L = r.logu(0.05, 1.5), gap = 2e-3; std::string n = r.pick(PURE); bool edge = c.idx % 4 == 3; std::vector<Query> Q; AcceleratorModelConstructor mc; auto col = new Collimator("JAW", L); col->SetMaterialProperties(data().property[n]); auto jaw = new SpyJaw(gap, L, &Q); col->SetAperture(jaw); mc.AppendComponent(*col); auto d2 = new Drift("D", 1.0); mc.AppendComponent(*d2); std::unique_ptr<AcceleratorModel> am(mc.GetModel()); HModel mod; int nint = 0, esc = 0, surv = 0, np = 40;
	for(int i = 0; i < np; i++)
	{
		PSvector p0(0); p0.x() = edge ? gap / 2 + 1e-7 : 0.3; p0.y() = edge ? 0 : r.sym(0.1); p0.xp() = edge ? -r.uni(0, 2e-5) : r.sym(1e-4); p0.yp() = edge ? 0 : r.sym(1e-4); p0.dp() = r.chance(0.7) ? 0 : r.uni(-0.3, 0); p0.id() = i; ProtonBunch b(P0, 1); b.AddParticle(p0); Q.clear(); mod.log.clear();
		auto pr = new CollimateProtonProcess(2, 4); pr->SetScatteringModel(&mod); pr->ScatterAtCollimator(true); pr->SetLossThreshold(101); pr->SetLogStream(nullptr); pr->SetOutputBinSize(L); coll::Recorder rec; pr->SetCollimationOutput(&rec); ParticleTracker tr(am->GetBeamline(), &b, false); tr.AddProcess(pr); tr.Run(); auto out = tr.GetTrackedBunch().GetParticles(); auto& X = mod.log; bool A = out.size() == 1, D = rec.v.size() == 1;
		c.check(out.size() <= 1, "duplicate", "particle %d: %zu copies in the bunch", i, out.size()); c.check(rec.v.size() <= 1, "lost-twice", "particle %d: reported lost %zu times", i, rec.v.size()); c.check(A != D, "lost-or-alive", "particle %d: in the bunch %d, in the loss record %d", i, (int) A, (int) D); if(A == D) continue;
		// the steps in the block; the query after one that finds the particle out of the jaw looks ahead to the end
		std::vector<Query> S; bool ahead = false; for(auto& e : Q) { if(S.empty() && fabs(e.x - p0.x()) < 1e-12 && fabs(e.y - p0.y()) < 1e-12) continue; if(ahead) { ahead = false; continue; } S.push_back(e); ahead = e.in; }
		double z = 0, dp = p0.dp(); bool in = true; for(auto& e : S) { in = in && e.z >= z - 1e-12; z = e.z; } c.check(in && z <= L * (1 + 1e-9), "path-order", "particle %d: recorded path runs back or past the block, to %g of %g m", i, z, L);
		for(auto& e : X) { nint++; c.check(e.before.dp() <= dp + 1e-12, "energy-gain", "particle %d gained energy between interactions: dp %g after %g", i, e.before.dp(), dp); dp = e.after.dp(); if(!e.alive) c.check(&e == &X.back(), "absorbed-tracked", "particle %d interacts again after being absorbed", i); c.near(e.E, E0, 0, 1e-5, "reference-energy", "particle %d (dp %g): energy the interaction is given to relate dp to momentum", i, e.before.dp()); }
		c.check(X.size() <= S.size(), "interactions-steps", "particle %d: %zu interactions on %zu steps", i, X.size(), S.size()); bool dead = X.size() && !X.back().alive;
		if(D) { auto& l = rec.v[0]; bool why = dead || (1 + l.p.dp()) * E0 <= 1.0 + 1e-9 || (1 + l.p.dp()) < 0.0101 || l.p.dp() < -0.95; c.check(why, "absorbed-reason", "particle %d was absorbed with dp %g and no absorbing interaction", i, l.p.dp()); c.check(l.e == col, "absorbed-where", "lost in another element"); c.check(l.pos >= -1e-9 && l.pos <= L * (1 + 1e-6) + 1e-9, "absorbed-position", "loss position %g in a block of %g m", l.pos, L); if(dead && S.size()) c.near(l.pos, z, 1e-9, 1e-9, "absorbed-position", "particle %d lost where it was absorbed", i); c.ev("absorbed"); }
		else if(S.empty()) c.check(false, "path-empty", "particle %d survives without a step in the block", i);
		else
		{
			surv++; auto& p = out[0]; c.check(!dead, "absorbed-survives", "particle %d was absorbed but is still in the bunch", i); c.check(p.dp() <= dp + 1e-12, "energy-gain", "particle %d left with more energy", i); c.check((1 + p.dp()) * E0 > 1.0 && p.dp() > -0.99, "survivor-energy", "particle %d survives with dp %g", i, p.dp());
			double x = p.x() - p.xp() * 1.0, y = p.y() - p.yp() * 1.0, xe = S.back().x, ye = S.back().y; bool through = !S.back().in;
			if(through) { c.near(x, xe, 1e-9, 1e-9, "path-sum", "particle %d: x at the end of the block", i); c.near(y, ye, 1e-9, 1e-9, "path-sum", "particle %d: y at the end of the block", i); c.near(z, L, 0, 1e-3, "path-sum", "particle %d: path in the block", i); c.ev("through"); }
			else { esc++; c.check(edge, "path-sum", "particle %d left a deep jaw at %g of %g m", i, z, L); c.near(x, xe + p.xp() * (L - z), 1e-10, 1e-9, "escape-position", "particle %d left the jaw at %g of %g m: x at the end of the block", i, z, L); c.check(fabs(x) < gap / 2 * (1 + 1e-9) || p.xp() > 0, "escape-in-jaw", "particle %d is let out of the jaw but ends at x=%g", i, x); c.ev("escaped"); }
		}
	}
	c.check(mod.configured <= 1, "configured", "model configured %d times for one material", mod.configured); for(double e : mod.energies) c.near(e, E0, 0, 1e-5, "reference-energy", "cross sections are made for the reference energy");
	c.ev("histories", np); c.ev("interactions", nint); c.note((uint64_t) nint); c.note((uint64_t) surv); c.note(L); c.nontrivial(); c.sample(fmt("%s %.3g m at %.4g GeV: %d interactions, %d of %d survive, %d leave the jaw", n.c_str(), L, P0, nint, surv, np, esc));
}
FAMILY(no_model, 2, 4)
{
	// no scattering model: the process refuses (it ends the program), it does not crash
	double L = 0.5; fflush(0); pid_t k = fork(); if(k == 0) { freopen("/dev/null", "w", stdout); freopen("/dev/null", "w", stderr); AcceleratorModelConstructor mc; auto col = new Collimator("JAW", L); col->SetMaterialProperties(data().property["Cu"]); auto ap = new CollimatorAperture(2e-3, 2e-3, 0, L, 0, 0); ap->SetExitWidth(2e-3); ap->SetExitHeight(2e-3); col->SetAperture(ap); mc.AppendComponent(*col); auto am = mc.GetModel(); ProtonBunch b(100, 1); PSvector p(0); p.x() = 0.01; b.AddParticle(p); auto pr = new CollimateProtonProcess(2, 4); pr->ScatterAtCollimator(true); pr->SetLossThreshold(101); pr->SetOutputBinSize(L); ParticleTracker tr(am->GetBeamline(), &b, false); tr.AddProcess(pr); try { tr.Run(); } catch(...) { _exit(3); } _exit(0); }
	int st = 0; waitpid(k, &st, 0); c.check(WIFEXITED(st) && (WEXITSTATUS(st) == EXIT_FAILURE || WEXITSTATUS(st) == 3), "no-model", "scattering without a model: status %d instead of a refusal", st); c.ev("refused"); c.note((uint64_t) c.idx); c.note(1.0); c.nontrivial();
}
