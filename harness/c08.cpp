// C08: material data are consistent; mixtures follow their composition.
#include "vh.h"
#include "MaterialData.h"
#include "MaterialProperties.h"
#include "PhysicalUnits.h"
#include "MerlinException.h"
#include "RandomNG.h"
#include "pose.h"
#include <memory>
#include <sstream>
using namespace PhysicalUnits; using vh::Case; using vh::fmt;
typedef MaterialProperties MP;
struct Quiet { std::ostringstream o; std::streambuf* b; Quiet() { b = std::cout.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
static double length_of(const MP& m) { return m.A * 1e-3 / ((m.sigma_T + m.sigma_R) * 1e-28 * m.density * 6.022e23); }
// textbook values: Z, A, density g/cc, radiation length g/cm2
struct Book { const char* n; double Z, A, rho, X0, I; };
static const Book BOOK[] = {{"Be", 4, 9.012, 1.848, 65.19, 63.7}, {"C", 6, 12.011, 2.21, 42.70, 78}, {"Al", 13, 26.982, 2.699, 24.01, 166}, {"Si", 14, 28.086, 2.329, 21.82, 173}, {"Cu", 29, 63.546, 8.96, 12.86, 322}, {"W", 74, 183.84, 19.3, 6.76, 727}, {"Pb", 82, 207.2, 11.35, 6.37, 823}, {"O", 8, 15.999, 1.141, 34.24, 95}, {"Fe", 26, 55.845, 7.874, 13.84, 286}, {"Ni", 28, 58.693, 8.902, 12.68, 311}, {"Mo", 42, 95.95, 10.22, 9.80, 424}};
static void judge(Case& c, const std::string& n, MP& m, bool sixtrack)
{
	auto ok = [&](bool b, const char* what, double v) { if(!b) c.fail(std::string(v == -1 ? "placeholder-" : "") + what + ":" + n, fmt("%s of %s is %g%s", what, n.c_str(), v, sixtrack ? " (SixTrack values)" : "")); else c.check(true, "value"); };
	ok(m.A > 0, "A", m.A); ok(m.Z > 0, "Z", m.Z); ok(m.density > 0, "density", m.density); ok(m.sigma_T > 0, "sigma_T", m.sigma_T); ok(m.sigma_I > 0 && m.sigma_I < fabs(m.sigma_T), "sigma_I", m.sigma_I); ok(m.sigma_R > 0, "sigma_R", m.sigma_R); ok(m.dEdx > 0, "dEdx", m.dEdx); ok(m.X0 > 0, "X0", m.X0);
	ok(m.lambda > 0 && fabs(m.lambda / length_of(m) - 1) < 1e-12, "lambda", m.lambda); ok(m.A / m.Z > 1.9 && m.A / m.Z < 2.65, "A/Z", m.A / m.Z);
	if(m.sigma_T > 0) { double s = m.sigma_T / pow(m.A, 0.77); ok(s > 0.04 && s < 0.055, "sigma_T-of-A", s); double f = m.sigma_I / m.sigma_T; ok(f > 0.55 && f < 0.76, "sigma_I/sigma_T", f); }
	if(m.sigma_R > 0) { double s = m.sigma_R / (m.Z * m.Z); ok(s > 1.2e-6 && s < 2.4e-6, "sigma_R-of-Z", s); }
	if(m.dEdx > 0 && !sixtrack) { double e = m.dEdx - (1.9 - 0.16 * log(m.Z)); ok(fabs(e) < 0.35, "dEdx-of-Z", m.dEdx); }
	if(m.HaveExtra("MeanExcitationEnergy")) { double I = m.GetExtra("MeanExcitationEnergy") / eV; ok(I > 8 * m.Z && I < 17 * m.Z, "MeanExcitationEnergy", I); }
}
FAMILY(standard, 60, 400)
{
	Quiet q; StandardMaterialData d; bool six = c.rng.chance(0.4); auto names = d.property; std::map<std::string, double> st; for(auto& p : d.property) st[p.first] = p.second->sigma_T; if(six) d.UseSixTrackValues();
	for(auto& b : BOOK) { auto i = d.property.find(b.n); if(!c.check(i != d.property.end(), "present", "%s", b.n)) continue; MP& m = *i->second; auto eq = [&](double v, double w, double tol, const char* what) { if(fabs(v / w - 1) > tol) c.fail(std::string(what) + "-book:" + b.n, fmt("%s of %s is %g, textbook %g", what, b.n, v, w)); else c.check(true, "book"); }; eq(m.Z, b.Z, 0, "Z"); eq(m.A, b.A, 2e-3, "A"); eq(m.density / (gram / cc), b.rho, 0.04, "density"); if(m.X0 > 0) eq(m.X0, b.X0, 0.01, "X0"); if(m.HaveExtra("MeanExcitationEnergy")) eq(m.GetExtra("MeanExcitationEnergy") / eV, b.I, 1e-3, "I"); c.ev("book"); }
	for(auto& p : d.property) { judge(c, p.first, *p.second, six); c.ev("materials"); c.check(p.second->A_H() > 0 && p.second->A_R() > 0, "nucleus"); }
	// metals conduct within the textbook range
	const std::pair<const char*, double> cond[] = {{"Al", 3.77e7}, {"Be", 2.8e7}, {"Cu", 5.96e7}, {"Pb", 4.81e6}, {"W", 1.84e7}, {"Fe", 1.02e7}, {"Ni", 1.43e7}, {"Mo", 1.87e7}, {"Glidcop", 5.4e7}, {"C", 7.14e4}}; for(auto& x : cond) { double v = d.property[x.first]->GetExtra("conductivity"); if(!(fabs(v / x.second - 1) < 0.15)) c.fail(std::string("conductivity:") + x.first, fmt("conductivity of %s is %g, textbook %g", x.first, v, x.second)); }
	if(six) { const std::pair<const char*, double> s[] = {{"Be", 0.268}, {"C", 0.331}, {"Cu", 1.232}, {"W", 2.767}, {"Pb", 2.96}}; for(auto& x : s) c.near(d.property[x.first]->sigma_T, x.second, 0, 1e-12, "sixtrack", "%s", x.first); for(auto& p : d.property) { bool listed = false; for(auto& x : s) listed = listed || p.first == x.first; if(!listed) c.check(p.second->sigma_T == st[p.first], "sixtrack-other", "%s", p.first.c_str()); } c.ev("sixtrack"); }
	c.check(d.property.count("Unobtainium") == 0, "unknown"); c.note((uint64_t) six); c.note(c.rng.uni(0, 1)); c.nontrivial();
}
static std::unique_ptr<MP> material(Case& c, double ratio)
{
	auto& r = c.rng; double Z = r.range(1, 92), A = Z * r.uni(2, 2.6), sT = r.logu(0.05, 4); return std::unique_ptr<MP>(new MP(A, sT, sT * ratio, sT * r.pick({0.001, 0.002, r.uni(0, 0.5)}), r.uni(1, 4), r.uni(5, 70), r.uni(0.1, 20) * gram / cc, Z));
}
FAMILY(mixture, 4000, 120000)
{
	Quiet q; auto& r = c.rng; MaterialData d; StandardMaterialData* sd = nullptr; bool std_ = r.chance(0.2); std::unique_ptr<MaterialData> hold; MaterialData* D = &d; std::vector<std::string> names; double ratio = r.uni(0.5, 0.8);
	if(std_) { sd = new StandardMaterialData; for(auto n : {"O", "Fe", "Ni", "Mo", "IT180", "Glidcop"}) { delete sd->property[n]; sd->property.erase(n); } D = sd; for(auto& p : sd->property) names.push_back(p.first); }
	else { int n = r.range(1, 8); for(int i = 0; i < n; i++) { names.push_back("M" + std::to_string(i)); d.property[names.back()] = material(c, ratio).release(); } if(r.chance(0.3)) { D->MakeMixture("N", "M0", std::vector<double>{2.5}, 3 * gram / cc); names.push_back("N"); } }
	struct Del { StandardMaterialData* p; ~Del() { delete p; } } del{sd};
	int k = r.range(1, 6); std::vector<std::string> el; std::vector<double> w; std::string list; for(int i = 0; i < k; i++) { el.push_back(names[r.range(0, (int) names.size() - 1)]); w.push_back(r.pick({1.0, 2.0, 3.0, r.uni(0, 1), r.logu(1e-4, 1e4), 0.05})); list += (i ? " " : "") + el.back(); } if(k > 1 && r.chance(0.15)) w[r.range(0, k - 1)] = 0;
	double rho = r.uni(0.1, 22) * gram / cc; bool weight = r.chance(0.5), va = k <= 3 && r.chance(0.4);
	if(va) { if(k == 1) weight ? D->MakeMixtureByWeight("X", list, w[0], rho) : D->MakeMixture("X", list, w[0], rho); if(k == 2) weight ? D->MakeMixtureByWeight("X", list, w[0], w[1], rho) : D->MakeMixture("X", list, w[0], w[1], rho); if(k == 3) weight ? D->MakeMixtureByWeight("X", list, w[0], w[1], w[2], rho) : D->MakeMixture("X", list, w[0], w[1], w[2], rho); c.ev("varargs"); }
	else weight ? D->MakeMixtureByWeight("X", list, w, rho) : D->MakeMixture("X", list, w, rho); c.ev(weight ? "by-weight" : "by-number");
	MP& m = *D->property["X"]; std::vector<double> num(k), mass(k); double sn = 0, sm = 0; for(int i = 0; i < k; i++) { MP& e = *D->property[el[i]]; num[i] = weight ? w[i] / e.A : w[i]; mass[i] = num[i] * e.A; sn += num[i]; sm += mass[i]; }
	double Z = 0, A = 0, T = 0, I = 0, R = 0, dE = 0, rx = 0, wH = 0, wR = 0, lo = 1e300, hi = 0; for(int i = 0; i < k; i++) { MP& e = *D->property[el[i]]; double f = num[i] / sn, g = mass[i] / sm; Z += f * e.Z; A += f * e.A; T += f * e.sigma_T; I += f * e.sigma_I; R += f * e.sigma_R; dE += g * e.dEdx; rx += g / e.X0; wH += f * e.sigma_T; wR += f * e.sigma_R; if(w[i] > 0) { lo = std::min(lo, e.A); hi = std::max(hi, e.A); } }
	const double t = 3e-6; c.near(m.Z, Z, 0, t, "Z"); c.near(m.A, A, 0, t, "A"); c.near(m.sigma_T, T, 0, t, "sigma_T"); c.near(m.sigma_I, I, 0, t, "sigma_I"); c.near(m.sigma_R, R, 0, t, "sigma_R"); c.near(m.dEdx, dE, 0, t, "dEdx"); c.near(m.X0, 1 / rx, 0, t, "X0"); c.check(m.density == rho, "density"); c.near(m.lambda, length_of(m), 0, 1e-12, "lambda"); c.check(m.A >= lo * (1 - t) && m.A <= hi * (1 + t), "A-range");
	// the nucleus that is hit: proportional to number times cross section
	{ std::map<double, double> pH, pR; std::map<double, int> nH, nR; for(int i = 0; i < k; i++) { MP& e = *D->property[el[i]]; pH[e.A] += num[i] / sn * e.sigma_T / wH; pR[e.A] += wR > 0 ? num[i] / sn * e.sigma_R / wR : 0; } const int n = 400; for(int i = 0; i < n; i++) { nH[m.A_H()]++; nR[m.A_R()]++; } auto test = [&](std::map<double, int>& got, std::map<double, double>& p, const char* key) { for(auto& g : got) c.check(p.count(g.first), key, "nucleus A=%g is in no component", g.first); for(auto& e : p) { double mu = n * e.second, dev = fabs(got[e.first] - mu); double lim = 6.5 * sqrt(mu * (1 - std::min(1.0, e.second))) + 14 + 1e-3 * n * e.second; if(e.second > 0.02 && e.second < 0.98) c.ev(key); c.check(dev <= lim, key, "A=%g hit %d times of %d, expected %g", e.first, got[e.first], n, mu); } };
	  if(!std_) test(nH, pH, "elastic-nucleus"); if(wR > 0) test(nR, pR, "rutherford-nucleus"); }
	// order and common factors do not matter; clones and copies are the same
	{ std::vector<int> o(k); for(int i = 0; i < k; i++) o[i] = i; r.shuffle(o); std::string l2; std::vector<double> w2; double f = r.logu(1e-3, 1e3); for(int i = 0; i < k; i++) { l2 += (i ? " " : "") + el[o[i]]; w2.push_back(w[o[i]] * f); } weight ? D->MakeMixtureByWeight("Y", l2, w2, rho) : D->MakeMixture("Y", l2, w2, rho); MP& y = *D->property["Y"]; c.near(y.A, m.A, 0, t, "order-A"); c.near(y.sigma_T, m.sigma_T, 0, t, "order-sigma_T"); c.near(y.X0, m.X0, 0, t, "order-X0"); c.near(y.lambda, m.lambda, 0, t, "order-lambda"); }
	MP s(m); c.check(s.A == m.A && s.Z == m.Z && s.lambda == m.lambda && s.sigma_T == m.sigma_T && s.density == m.density, "copy"); c.note(m.A); c.note(m.sigma_T); if(k > 1) c.nontrivial(); c.sample(fmt("%s %s: A %g sigma_T %g X0 %g", weight ? "by weight" : "by number", list.c_str(), m.A, m.sigma_T, m.X0));
}
FAMILY(refused, 3000, 60000)
{
	Quiet q; auto& r = c.rng; MaterialData d; int n = r.range(1, 5); std::vector<std::string> names; std::map<std::string, MP*> before; for(int i = 0; i < n; i++) { names.push_back("M" + std::to_string(i)); d.property[names.back()] = material(c, 0.6).release(); } before = d.property;
	int k = r.range(1, 4); std::string list; std::vector<double> w; for(int i = 0; i < k; i++) { list += (i ? " " : "") + names[r.range(0, n - 1)]; w.push_back(r.uni(0.1, 3)); } double rho = 5 * gram / cc; int bad = r.range(0, 7); const char* what = "";
	switch(bad) { case 0: list += " Zz"; w.push_back(1); what = "unknown"; break; case 1: w.push_back(1); what = "too many proportions"; break; case 2: w.pop_back(); what = "too few proportions"; break; case 3: w[r.range(0, k - 1)] = -0.05; what = "negative"; break; case 4: for(auto& x : w) x = 0; what = "zero"; break; case 5: rho = r.pick({0.0, -1.0}); what = "density"; break; case 6: list = " " + list; w.push_back(1); what = "empty name"; break; case 7: w[0] = NAN; what = "nan"; break; }
	std::string name = r.chance(0.3) ? names[0] : "X"; bool thrown = false; try { if(r.chance(0.5)) d.MakeMixture(name, list, w, rho); else d.MakeMixtureByWeight(name, list, w, rho); } catch(std::exception&) { thrown = true; } c.check(thrown, "accepted", "%s: '%s' with %zu proportions", what, list.c_str(), w.size()); c.check(d.property == before, "changed", "%s", what); c.ev("refused"); c.note((uint64_t) bad); c.note(rho + (w.empty() ? 0 : w[0])); c.nontrivial();
}
FAMILY(copies, 5000, 100000)
{
	auto& r = c.rng; struct Ref { double v[11]; std::map<std::string, double> x; }; std::vector<std::unique_ptr<MP>> m; std::vector<Ref> ref; auto read = [](const MP& p) { Ref f; double v[11] = {p.Z, p.A, p.density, p.dEdx, p.sigma_R, p.sigma_I, p.sigma_E, p.sigma_D, p.sigma_T, p.X0, p.lambda}; std::copy(v, v + 11, f.v); if(p.extra) f.x = *p.extra; return f; };
	int n = r.range(2, 5); for(int i = 0; i < n; i++) { if(r.chance(0.2)) m.emplace_back(new MP()); else m.push_back(material(c, 0.6)); ref.push_back(read(*m.back())); if(r.chance(0.2)) { m.back()->sigma_E = ref.back().v[6] = r.uni(0, 1); m.back()->sigma_D = ref.back().v[7] = r.uni(0, 1); } }
	const char* keys[] = {"a", "bb", "conductivity", "x y"}; int ops = r.range(1, 30);
	for(int o = 0; o < ops; o++)
	{
		int i = r.range(0, n - 1), j = r.range(0, n - 1);
		switch(r.range(0, 7))
		{
		case 0: *m[i] = *m[j]; ref[i] = ref[j]; c.ev(i == j ? "self" : "assigned"); break;
		case 1: m[i].reset(new MP(*m[j])); ref[i] = ref[j]; c.ev("copied"); break;
		case 2: { int k = r.range(0, 2); double v = r.sym(5); m[i]->SetExtra(keys[k], v); ref[i].x[keys[k]] = v; c.ev("extras"); break; }
		case 3: { int k = r.range(0, 3); auto x = ref[i].x.find(keys[k]); c.check(m[i]->HaveExtra(keys[k]) == (x != ref[i].x.end()), "have", "%s", keys[k]); double v = m[i]->GetExtra(keys[k]); c.check(v == (x == ref[i].x.end() ? 0 : x->second), "get", "%s: %g", keys[k], v); break; }
		case 4: { double v = r.uni(0.1, 20) * gram / cc; if(ref[i].v[1] == 0) break; m[i]->density = v; m[i]->Update(); ref[i].v[2] = v; ref[i].v[10] = m[i]->lambda; c.near(m[i]->lambda, length_of(*m[i]), 0, 1e-12, "update"); break; }
		case 5: { double v = r.sym(3), u = r.sym(3); m[i]->SetExtra("a bb", v, u); ref[i].x["a"] = v; ref[i].x["bb"] = u; break; }
		case 6: { if(ref[j].v[1] == 0) break; std::unique_ptr<MP> p(m[j]->EnergyScale(r.uni(1, 7000))); c.check(p->A == m[j]->A && p->Z == m[j]->Z && p->density == m[j]->density && p->X0 == m[j]->X0, "scaled"); c.near(p->lambda, length_of(*p), 0, 1e-12, "scaled-lambda"); break; }
		default: { std::unique_ptr<MP> p(m[j]->Clone()); m[i] = std::move(p); ref[i] = ref[j]; }
		}
		for(int k = 0; k < n; k++) { Ref g = read(*m[k]); bool same = true; for(int q = 0; q < 11; q++) same = same && (g.v[q] == ref[k].v[q] || (std::isnan(g.v[q]) && std::isnan(ref[k].v[q]))); c.check(same && g.x == ref[k].x, "content", "material %d after operation %d", k, o); }
	}
	for(auto& x : m) c.note(x->A + x->density); c.nontrivial();
}
// tables: copies own their materials; printing names every material once
FAMILY(tables, 600, 20000)
{
	Quiet q; auto& r = c.rng; auto* a = new MaterialData; int n = r.range(1, 6); for(int i = 0; i < n; i++) a->property["M" + std::to_string(i)] = material(c, 0.6).release(); if(r.chance(0.5)) a->MakeMixture("X", "M0", std::vector<double>{1}, 2 * gram / cc);
	std::unique_ptr<MaterialData> b; if(r.chance(0.5)) b.reset(new MaterialData(*a)); else { b.reset(new MaterialData); if(r.chance(0.5)) b->property["Old"] = material(c, 0.6).release(); *b = *a; } MaterialData& self = *b; if(r.chance(0.3)) *b = self;
	c.check(a->property.size() == b->property.size(), "table-size"); for(auto& p : a->property) { auto i = b->property.find(p.first); if(!c.check(i != b->property.end() && i->second != p.second, "table-own", "%s", p.first.c_str())) continue; c.check(i->second->A == p.second->A && i->second->lambda == p.second->lambda && (dynamic_cast<Mixture*>(i->second) != nullptr) == (dynamic_cast<Mixture*>(p.second) != nullptr), "table-content"); c.note(p.second->A); } delete a; for(auto& p : b->property) c.check(p.second->A_H() > 0 && p.second->A_R() > 0, "survives");
	std::ostringstream os; os << b.get(); b->PrintTable(); for(const std::string& t : {os.str(), q.o.str()}) { std::istringstream is(t); std::string l; std::getline(is, l); size_t k = 0; while(std::getline(is, l)) { std::istringstream ls(l); std::string nm; double A = -1, Z = -1, T = -1, I = -1, R = -1; ls >> nm >> A >> Z >> T >> I >> R; auto i = b->property.find(nm); if(c.check(i != b->property.end(), "printed-name", "%s", nm.c_str())) { c.near(A, i->second->A, 0.051, 0, "printed-A"); c.near(Z, i->second->Z, 0.051, 0, "printed-Z"); c.near(T, i->second->sigma_T, 0.00051, 0, "printed-T"); c.near(R, i->second->sigma_R, 0.0000051, 0, "printed-R"); } k++; } c.check(k == b->property.size(), "printed", "%zu lines for %zu materials", k, b->property.size()); c.ev("printed"); } c.nontrivial();
}
