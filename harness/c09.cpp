// C09: collimator settings files set exactly the collimators they name.
#include "coll.h"
#include <fstream>
#include "CollimatorDatabase.h"
#include "LatticeFunctions.h"
#include "MaterialData.h"
#include "MaterialProperties.h"
#include "MerlinException.h"
#include "PhysicalUnits.h"
using namespace coll;
struct Entry { std::string name, mat; double v[8]; };
struct World { Line l; std::unique_ptr<StandardMaterialData> db; std::vector<AcceleratorComponent*> col; std::map<AcceleratorComponent*, double> s; };
static void build(Case& c, World& w)
{
	auto& r = c.rng; int n = r.range(2, 14); do w.l = line(c, n, true, 1), w.col.clear(); while([&] { for(auto a : w.l.el) if(dynamic_cast<Collimator*>(a)) w.col.push_back(a); return w.col.empty(); }());
	w.db.reset(new StandardMaterialData); double z = r.pick({0.0, 0.0, 0.0}); int i = 0; for(auto a : w.l.el) { a->SetComponentLatticePosition(z + (r.chance(0.3) ? r.sym(4e-7) : 0)); w.s[a] = z; z += a->GetLength(); if(dynamic_cast<Collimator*>(a)) a->SetName("TC" + std::to_string(i++) + ".B1"); }
	if(r.chance(0.3)) w.col[r.range(0, (int) w.col.size() - 1)]->SetName(r.pick<std::string>({"TCDQA.A4R6.B1", "TCDQA.B4R6.B1", "TCDQA.C4R6.B1"}));
}
static const std::vector<std::string> MATS = {"Al", "Be", "C", "Cu", "Pb", "Si", "W", "AC150K", "Glidcop"};
static std::vector<Entry> entries(Case& c, const World& w, bool sigma)
{
	auto& r = c.rng; std::vector<Entry> v; for(auto a : w.col) if(r.chance(0.7)) { Entry e; e.name = a->GetName(); v.push_back(e); } int x = r.range(0, 2); for(int i = 0; i < x; i++) { Entry e; e.name = "NOT.THERE." + std::to_string(i); v.push_back(e); } r.shuffle(v);
	for(auto& e : v) { e.mat = r.pick(MATS); if(sigma) { e.v[0] = r.pick({6.0, 15.0, r.uni(2, 30)}); e.v[1] = r.pick({99.0, r.uni(2, 40)}); e.v[2] = r.pick({0.0, 1.57079632679490, r.sym(3.2)}); } else { e.v[0] = r.logu(1e-4, 0.1); e.v[1] = r.logu(1e-4, 0.1); e.v[2] = r.pick({0.0, 1.5707963, r.sym(3.2)}); e.v[3] = r.pick({0.0, r.sym(1e-3)}); e.v[4] = r.pick({0.0, r.sym(1e-3)}); e.v[5] = e.v[6] = 0; e.v[7] = 1; } }
	return v;
}
static std::string text(Case& c, std::vector<Entry>& v, bool sigma)
{
	auto& r = c.rng; std::string sep = r.pick<std::string>({"\t", " ", "   "}), eol = r.pick<std::string>({"\n", "\r\n", "\n\n", " \n"}), s; for(auto& e : v) { s += e.name; for(int k = 0; k < (sigma ? 3 : 8); k++) { std::string t = fmt(r.chance(0.3) ? "%.6g" : "%.17g", e.v[k]); e.v[k] = atof(t.c_str()); s += sep + t; } s += sep + e.mat + eol; } while(!s.empty() && r.chance(0.3) && isspace(s.back())) s.pop_back(); return s;
}
static std::string file(const std::string& t) { static int k = 0; std::string n = scratch() + "/coll" + std::to_string(k++ % 4) + ".dat"; std::ofstream(n) << t; return n; }
// expected jaws: box in the jaw frame at the entrance and at the exit
typedef long double L;
struct Jaws { L w[2], h[2], x[2], y[2], t; bool one = false; };
static void probe(Case& c, AcceleratorComponent* a, const Jaws& j, const char* how)
{
	auto& r = c.rng; Aperture* ap = a->GetAperture(); double len = a->GetLength();
	for(int i = 0; i < 40; i++)
	{
		double z = r.pick({0.0, len, r.uni(0, len), len / 2}); L f = len > 0 ? z / len : 0, w = j.w[0] + f * (j.w[1] - j.w[0]), h = j.h[0] + f * (j.h[1] - j.h[0]), x0 = j.x[0] + f * (j.x[1] - j.x[0]), y0 = j.y[0] + f * (j.y[1] - j.y[0]); if(!(w > 0 && h > 0)) return;
		L u = r.sym(1.3) * w / 2, v = r.sym(1.3) * h / 2; if(r.chance(0.6)) { if(r.chance(0.5)) u = r.sgn() * w / 2 * (1 + r.sgn() * r.logu(1e-8, 0.1)); else v = r.sgn() * h / 2 * (1 + r.sgn() * r.logu(1e-8, 0.1)); } if(j.one && r.chance(0.2)) u = -3 * w;
		double X = x0 + u * cosl(j.t) - v * sinl(j.t), Y = y0 + u * sinl(j.t) + v * cosl(j.t); L px = (X - x0) * cosl(j.t) + (Y - y0) * sinl(j.t), py = -(X - x0) * sinl(j.t) + (Y - y0) * cosl(j.t); L d = std::min((w / 2 - (j.one ? px : fabsl(px))), h / 2 - fabsl(py)); L tol = 1e-9L * std::max({w, h, fabsl(x0), fabsl(y0)}) + 1e-12L; if(fabsl(d) < tol) { c.ev("edge"); continue; }
		bool in = ap->CheckWithinApertureBoundaries(X, Y, z); c.check(in == (d > 0), how, "%s: point (%.9g, %.9g) at %g of %g m is %s, distance to the jaw %.3Lg (gaps %.6Lg %.6Lg, tilt %.4Lg)", a->GetName().c_str(), X, Y, z, len, in ? "inside" : "outside", d, w, h, j.t); c.ev(in ? "inside" : "outside");
	}
}
static void untouched(Case& c, const World& w, const std::map<AcceleratorComponent*, std::pair<Aperture*, MaterialProperties*>>& before, const std::vector<Entry>& v)
{
	for(auto a : w.l.el) { bool named = false; for(auto& e : v) named = named || (dynamic_cast<Collimator*>(a) && e.name == a->GetName()); if(named) continue; auto& b = before.at(a); c.check(a->GetAperture() == b.first && a->GetMaterialProperties() == b.second, "others", "%s", a->GetQualifiedName().c_str()); c.ev("untouched"); }
}
static std::map<AcceleratorComponent*, std::pair<Aperture*, MaterialProperties*>> snap(const World& w) { std::map<AcceleratorComponent*, std::pair<Aperture*, MaterialProperties*>> m; for(auto a : w.l.el) m[a] = {a->GetAperture(), a->GetMaterialProperties()}; return m; }
FAMILY(gaps, 1200, 40000)
{
	Quiet q; World w; build(c, w); for(auto a : w.l.el) a->SetMaterialProperties(c.rng.chance(0.5) ? w.db->property["W"] : nullptr); auto v = entries(c, w, false); std::string f = file(text(c, v, false)); auto db0 = w.db->property; auto before = snap(w); CollimatorDatabase d(f, w.db.get(), false); c.check(d.number_collimators == v.size(), "entries", "%zu of %zu", d.number_collimators, v.size()); std::ostringstream log; if(c.rng.chance(0.3)) { d.EnableLogging(true); if(c.rng.chance(0.7)) d.SetLogFile(log); } d.ConfigureCollimators(w.l.m.get()); c.check(w.db->property == db0, "materials-changed"); untouched(c, w, before, v);
	for(auto a : w.col) for(auto& e : v) if(e.name == a->GetName()) { c.check(a->GetMaterialProperties() == db0[e.mat], "material", "%s", e.name.c_str()); Jaws j; for(int k = 0; k < 2; k++) { j.w[k] = e.v[0]; j.h[k] = e.v[1]; j.x[k] = e.v[3]; j.y[k] = e.v[4]; } j.t = e.v[2]; c.check(a->GetAperture() != before[a].first, "set", "%s", e.name.c_str()); probe(c, a, j, "gap"); c.ev("gap-file"); c.note(e.v[0]); c.nontrivial(); if(e.v[3] != 0) c.ev("offsets"); }
}
FAMILY(sigmas, 700, 20000)
{
	Quiet q; auto& r = c.rng; World w; build(c, w); auto v = entries(c, w, true); std::string f = file(text(c, v, true)); auto db0 = w.db->property; auto before = snap(w);
	LatticeFunctionTable t(w.l.m.get(), 1); PSvector p(0); if(r.chance(0.8)) { p.x() = r.sym(2e-3); p.xp() = r.sym(1e-4); p.y() = r.sym(2e-3); p.yp() = r.sym(1e-4); } RealMatrix M(6); for(int i = 0; i < 3; i++) { double mu = 2 * M_PI * (i == 0 ? r.uni(0.05, 0.2) : i == 1 ? r.uni(0.23, 0.45) : 0.01), be = r.logu(1, 100), al = i == 2 ? 0 : r.sym(1.5), ga = (1 + al * al) / be; M(2 * i, 2 * i) = cos(mu) + al * sin(mu); M(2 * i, 2 * i + 1) = be * sin(mu); M(2 * i + 1, 2 * i) = -ga * sin(mu); M(2 * i + 1, 2 * i + 1) = cos(mu) - al * sin(mu); }
	t.Calculate(&p, &M); if(!c.check(t.NumberOfRows() == (int) w.l.el.size() + 1, "rows")) return;
	double ex = r.logu(1e-10, 1e-7), ey = r.logu(1e-10, 1e-7); CollimatorDatabase d(f, w.db.get(), true); int mode = r.range(0, 3); // envelope, parallel jaws, parallel with errors
	if(mode == 0 && r.chance(0.5)) d.MatchBeamEnvelope(true); if(mode == 2) d.MatchBeamEnvelope(false); double sp = r.logu(1e-12, 1e-9), sa = r.logu(1e-12, 1e-9); if(mode == 3) { d.MatchBeamEnvelope(false); d.EnableJawAlignmentErrors(true); d.SetJawPositionError(sp); d.SetJawAngleError(sa); } std::ostringstream log, elog; if(r.chance(0.3)) { d.EnableLogging(true); d.SetLogFile(log); d.EnableErrorLogging(true); d.SetErrorLogFile(elog); }
	std::string prim; double imp = r.logu(1e-6, 1e-3); if(!v.empty() && r.chance(0.6)) { prim = v[r.range(0, (int) v.size() - 1)].name; d.SelectImpactFactor(prim, imp); }
	uint32_t seed = r.range(1, 1 << 30); RandomNG::init(seed); double ret = d.ConfigureCollimators(w.l.m.get(), ex, ey, &t); c.check(w.db->property == db0, "materials-changed"); untouched(c, w, before, v); double want = 1;
	for(size_t i = 0; i < w.l.el.size(); i++) for(auto& e : v) { auto a = w.l.el[i]; if(!dynamic_cast<Collimator*>(a) || e.name != a->GetName()) continue; L ct = cosl(e.v[2]), st = sinl(e.v[2]), sg[2], x[2], y[2]; for(int k = 0; k < 2; k++) { sg[k] = sqrtl(t.Value(1, 1, 1, i + k) * ex * ct * ct + t.Value(3, 3, 2, i + k) * ey * st * st); x[k] = t.Value(1, 0, 0, i + k); y[k] = t.Value(3, 0, 0, i + k); } if(e.name == prim) want = (e.v[0] * sg[0] + imp) / sg[0];
		c.check(a->GetMaterialProperties() == db0[e.mat], "material", "%s", e.name.c_str()); if(!c.check(a->GetAperture() != before[a].first, "set", "%s", e.name.c_str())) continue; Jaws j; j.t = e.v[2]; for(int k = 0; k < 2; k++) { j.w[k] = 2 * e.v[0] * sg[k]; j.h[k] = 2 * e.v[1] * sg[k]; j.x[k] = x[k]; j.y[k] = y[k]; }
		if(mode <= 1) { probe(c, a, j, "envelope"); c.ev("envelope-file"); }
		else if(mode == 2) { L hi = std::max(x[0] + j.w[0] / 2, x[1] + j.w[1] / 2), lo = std::min(x[0] - j.w[0] / 2, x[1] - j.w[1] / 2), vh = std::max(y[0] + j.h[0] / 2, y[1] + j.h[1] / 2), vl = std::min(y[0] - j.h[0] / 2, y[1] - j.h[1] / 2); for(int k = 0; k < 2; k++) { j.w[k] = hi - lo; j.x[k] = (hi + lo) / 2; j.h[k] = vh - vl; j.y[k] = (vh + vl) / 2; } j.one = e.name.compare(0, 5, "TCDQA") == 0; probe(c, a, j, j.one ? "one-sided" : "parallel"); c.ev(j.one ? "one-sided-jaw" : "parallel-jaws"); }
		else { auto ca = dynamic_cast<CollimatorAperture*>(a->GetAperture()); if(!c.check(ca != nullptr, "errors-type")) continue; L p3 = 3.0001L * sqrtl(sp), a3 = 3.0001L * sqrtl(sa) * a->GetLength(), w3 = 3.0001L * sqrtl(2.5e-9L); c.near(ca->GetCollimatorTilt(), e.v[2], 1e-15, 0, "errors-tilt"); c.check(fabsl(ca->GetFullEntranceWidth() - j.w[0]) <= 2 * p3 + 1e-12L, "errors-width", "%g for %Lg", ca->GetFullEntranceWidth(), j.w[0]); c.check(fabsl(ca->GetEntranceXOffset() - x[0]) <= p3 + w3 + 1e-12L, "errors-x"); c.near(ca->GetFullEntranceHeight(), (double) j.h[0], 1e-12, 1e-9, "errors-height"); c.near(ca->GetEntranceYOffset(), (double) y[0], 1e-12, 1e-9, "errors-y"); c.check(fabsl(ca->GetFullExitWidth() - j.w[0]) <= 2 * (p3 + a3) + 1e-12L, "errors-exit-width"); c.check(fabsl(ca->GetExitXOffset() - x[1]) <= p3 + a3 + w3 + 1e-12L, "errors-exit-x"); c.ev("errors"); }
		c.note((double) sg[0]); c.nontrivial(); if(fabs(w.s[a] - a->GetComponentLatticePosition()) > 0) c.ev("rounded"); }
	c.near(ret, want, 0, 1e-9, "impact"); c.sample(fmt("%zu entries, %zu collimators in %zu elements, mode %d", v.size(), w.col.size(), w.l.el.size(), mode));
}
FAMILY(refused, 1500, 40000)
{
	Quiet q; auto& r = c.rng; World w; build(c, w); bool sigma = r.chance(0.5); std::vector<Entry> v; while(v.empty()) v = entries(c, w, sigma); auto db0 = w.db->property; int bad = r.range(0, 4); std::string t, what, f; int k = r.range(0, (int) v.size() - 1);
	if(bad == 0) { what = "material"; v[k].mat = r.pick<std::string>({"Unobtainium", "cu", "CU", "Cu2"}); t = text(c, v, sigma); }
	else { t = text(c, v, sigma); std::vector<std::string> tok; { std::istringstream is(t); std::string x; while(is >> x) tok.push_back(x); } size_t nc = sigma ? 5 : 10; auto join = [&] { t.clear(); for(size_t i = 0; i < tok.size(); i++) t += tok[i] + ((i + 1) % nc ? " " : "\n"); }; if(bad == 1) { what = "word for a number"; tok[k * nc + 1 + r.range(0, (int) nc - 3)] = r.pick<std::string>({"abc", "-", "x1", "--3"}); join(); } if(bad == 2) { what = "missing column"; tok.erase(tok.begin() + k * nc + r.range(1, (int) nc - 1)); join(); } if(bad == 3) { what = "truncated"; tok.resize(tok.size() - r.range(1, (int) nc - 1)); join(); } if(bad == 4) what = "no file"; }
	if(bad == 4) f = scratch() + "/none.dat"; else f = file(t); bool thrown = false; try { CollimatorDatabase d(f, w.db.get(), sigma); } catch(std::exception&) { thrown = true; } c.check(thrown, "accepted", "%s: %s", what.c_str(), t.substr(0, 200).c_str()); c.check(w.db->property == db0, "materials-changed", "%s", what.c_str()); c.ev("refused"); c.note(v[k].v[0]); c.nontrivial();
}
// collimators that are at no row of the lattice functions, and errors together with envelopes, are not set silently to something else
FAMILY(misplaced, 300, 6000)
{
	Quiet q; auto& r = c.rng; World w; build(c, w); std::vector<Entry> v; bool any = false; while(!any) { v = entries(c, w, true); for(auto& e : v) any = any || e.name[0] == 'T'; } std::string f = file(text(c, v, true)); LatticeFunctionTable t(w.l.m.get(), 1); PSvector p(0); RealMatrix M(6); for(int i = 0; i < 3; i++) { double mu = 1 + i * 0.5; M(2 * i, 2 * i) = cos(mu); M(2 * i, 2 * i + 1) = 10 * sin(mu); M(2 * i + 1, 2 * i) = -sin(mu) / 10; M(2 * i + 1, 2 * i + 1) = cos(mu); } t.Calculate(&p, &M); CollimatorDatabase d(f, w.db.get(), true); bool shift = r.chance(0.5); if(shift) for(auto a : w.col) a->SetComponentLatticePosition(a->GetComponentLatticePosition() + 1e4); else { d.MatchBeamEnvelope(true); d.EnableJawAlignmentErrors(true); } bool thrown = false; try { d.ConfigureCollimators(w.l.m.get(), 1e-9, 1e-9, &t); } catch(std::exception&) { thrown = true; } c.check(thrown, shift ? "misplaced" : "unsupported"); c.ev("misplaced"); c.note(v[0].v[0]); c.nontrivial();
}
// Components carry no material or aperture of their own until one is given to them; collimators built with a material keep it.
FAMILY(materials, 400, 4000)
{
	static StandardMaterialData db; std::vector<std::string> names; for(auto& p : db.property) names.push_back(p.first);
	alignas(Collimator) unsigned char room[sizeof(Collimator)]; memset(room, c.rng.chance(0.5) ? 0xA5 : 0, sizeof room);
	std::string nm = c.rng.pick(names); MaterialProperties* mp = db.property.at(nm); double len = c.rng.uni(0.01, 3), X = c.rng.logu(1e-3, 1), P0 = c.rng.logu(1, 7000); Collimator* k; MaterialProperties* want = nullptr; double xr = 0;
	switch(c.rng.range(0, 2)) { case 0: k = new(room) Collimator("C", len); break; case 1: k = new(room) Collimator("C", len, X); xr = X; c.ev("radiation-length"); break; default: k = new(room) Collimator("C", len, mp, P0); want = mp; c.ev("with-material"); }
	c.check(k->GetMaterialProperties() == want, "constructed-material", "%p, expected %p", (void*) k->GetMaterialProperties(), (void*) want); c.check(k->GetAperture() == nullptr && k->GetWakePotentials() == nullptr, "constructed-bare"); c.near(k->GetLength(), len, 0, 1e-15, "constructed-length");
	if(xr) { c.near(k->GetMaterialRadiationLength(), xr, 0, 1e-15, "radiation-length"); c.near(k->GetNumRadLengths(), len / xr, 0, 1e-14, "radiation-lengths"); }
	if(c.rng.chance(0.5)) { std::string o = c.rng.pick(names); want = db.property.at(o); k->SetMaterialProperties(want); c.ev("replaced"); }
	std::unique_ptr<Collimator> copy(static_cast<Collimator*>(k->Copy())); c.check((!copy->GetMaterialProperties() || copy->GetMaterialProperties() == want) && copy->GetLength() == k->GetLength(), "copied-material"); k->~Collimator();
	std::unique_ptr<AcceleratorComponent> a(mach::make(c, c.rng.range(0, 12), "A", len, P0)); c.check(a->GetMaterialProperties() == nullptr && a->GetAperture() == nullptr, "other-component", "%s", a->GetType().c_str()); c.note(len); c.note(P0); c.nontrivial();
}
