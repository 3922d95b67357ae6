// C07: loss maps and detailed loss tables contain every recorded loss once.
#include "coll.h"
#include "LossMapCollimationOutput.h"
#include "DetailedCollimationOutput.h"
using namespace coll;
struct Seq { std::vector<std::unique_ptr<AcceleratorComponent>> el; std::vector<double> at; };
static Seq sequence(Case& c)
{
	Seq s; auto& r = c.rng; double z = r.pick({0.0, r.uni(0, 27000), 1.1}); int n = r.range(1, 12);
	for(int i = 0; i < n; i++)
	{
		std::string nm = r.pick<std::string>({"SAME", "D", "E" + std::to_string(i), "TCP.D6L7.B" + std::to_string(i), "AVERYLONGELEMENTNAME." + std::to_string(i), "AN.ELEMENT.NAME.LONGER.THAN.THE.COLUMNS.OF.ANY.TABLE"}); int t = r.pick({(int) mach::DRIFT, (int) mach::QUAD, (int) mach::COLL, (int) mach::MARKER, (int) mach::SBEND}); double L = t == mach::MARKER ? 0 : r.pick({0.0, 0.1, 1.0, r.uni(0.01, 2), r.uni(1, 40), 0.6}); if(t != mach::DRIFT && t != mach::COLL && t != mach::MARKER && L == 0) L = 0.3; if(L == 0) nm += "Z" + std::to_string(i); // two elements of one name never start at one place
		s.el.emplace_back(mach::make(c, t, nm, L)); s.el.back()->SetComponentLatticePosition(z); s.at.push_back(z); z += s.el.back()->GetLength();
	}
	return s;
}
struct Hit { int e; double pos; PSvector p; int turn; };
static std::vector<Hit> hits(Case& c, const Seq& s, int n)
{
	std::vector<Hit> v; auto& r = c.rng; int fav = r.range(0, (int) s.el.size() - 1); for(int i = 0; i < n; i++) { Hit h; h.e = r.chance(0.3) ? fav : r.range(0, (int) s.el.size() - 1); double L = s.el[h.e]->GetLength(); int k = r.range(0, 3); h.pos = L == 0 || k == 0 ? 0 : k == 1 ? L : 0; if(L > 0 && k == 2) { int m = r.range(0, int(L / 0.1)); double x = 0; for(int j = 0; j < m; j++) x += 0.1; h.pos = std::min(x, L); } if(L > 0 && k == 3) h.pos = r.uni(0, L); h.p = PSvector(0); for(int q = 0; q < 6; q++) h.p[q] = r.sym(1e-2); h.p.id() = i + 100 * r.range(0, 9); h.turn = r.range(1, 200); v.push_back(h); } return v;
}
static std::vector<std::vector<std::string>> rows(const std::string& t) { std::vector<std::vector<std::string>> v; std::istringstream is(t); std::string l; while(std::getline(is, l)) { std::istringstream ls(l); std::vector<std::string> w; std::string x; while(ls >> x) w.push_back(x); v.push_back(w); } return v; }
FAMILY(map, 6000, 200000)
{
	Quiet q; auto& r = c.rng; Seq s = sequence(c); OutputType ot = r.pick({tencm, tencm, nearestelement, precise}); LossMapCollimationOutput m(ot); if(ot == tencm && r.chance(0.3)) { LossMapCollimationOutput d; c.check(d.otype == tencm, "default-type"); }
	std::vector<std::pair<double, double>> warm; int nw = r.range(0, 3); double z0 = s.at.front(), z1 = s.at.back() + s.el.back()->GetLength(); auto addwarm = [&] { double a = r.uni(z0 - 1, z1 + 1), b = a + r.uni(0, (z1 - z0) / 2 + 0.1); if(r.chance(0.3)) { int e = r.range(0, (int) s.el.size() - 1); a = s.at[e]; b = a + s.el[e]->GetLength(); } warm.push_back({a, b}); m.SetWarmRegion({a, b}); }; if(r.chance(0.2)) { addwarm(); m.ClearWarmRegions(); warm.clear(); } for(int i = 0; i < nw; i++) addwarm(); c.check(m.GetWarmRegions() == warm, "warm-regions");
	std::vector<Hit> all; int rounds = r.chance(0.2) ? 2 : 1;
	for(int round = 0; round < rounds; round++)
	{
		auto h = hits(c, s, r.pick({0, 1, 2, r.range(0, 60), r.range(0, 200)})); for(auto& x : h) { PSvector p = x.p; m.Dispose(*s.el[x.e], x.pos, p, x.turn); c.check(same(p, x.p), "particle-changed"); } all.insert(all.end(), h.begin(), h.end());
		c.check(m.DeadParticles.size() == all.size(), "recorded", "%zu records of %zu losses", m.DeadParticles.size(), all.size()); if(r.chance(0.2)) { m.Finalise(); c.ev("finalised-again"); } m.Finalise();
		double sum = 0; for(auto& o : m.OutputLosses) sum += o.lost; c.check(sum == all.size(), "total", "type %d: rows add up to %g of %zu losses", ot, sum, all.size()); c.check(m.DeadParticles.size() == all.size(), "records-kept");
		// what each row must contain
		struct Key { std::string n; double s, b, l; bool operator<(const Key& o) const { return std::tie(n, s, l, b) < std::tie(o.n, o.s, o.l, o.b); } }; std::map<Key, double> got; double last = -1e9; bool sorted = true;
		for(auto& o : m.OutputLosses) { double b = ot == tencm ? o.interval : ot == precise ? o.position : 0; Key k = {ot == precise ? "" : o.ElementName, ot == precise ? 0 : o.s, b, ot == precise ? 0 : o.length}; got[k] += o.lost; double z = ot == precise ? o.position : o.s + (ot == tencm ? o.interval : 0); if(z < last - 1e-9) sorted = false; last = z; }
		c.check(sorted, "sorted", "type %d", ot);
		if(ot != precise) c.check(got.size() == m.OutputLosses.size(), "bin-twice", "type %d: %zu rows for %zu bins", ot, m.OutputLosses.size(), got.size());
		// losses inside bins first, then the ones on the edge between two bins in order of position (either bin will do)
		std::vector<Hit> late; for(int edges = 0; edges < 2; edges++, std::stable_sort(late.begin(), late.end(), [](const Hit& a, const Hit& b) { return a.pos < b.pos; })) for(auto& x : edges ? std::vector<Hit>(late) : all)
		{
			auto& e = *s.el[x.e]; std::string n = e.GetQualifiedName(); Key k = {ot == precise ? "" : n, ot == precise ? 0 : s.at[x.e], 0, ot == precise ? 0 : e.GetLength()}; bool ok = false;
			if(ot == nearestelement) { auto i = got.find(k); ok = i != got.end() && i->second >= 1; if(ok) i->second -= 1; }
			else if(ot == precise) { k.b = x.pos + s.at[x.e]; auto i = got.find(k); ok = i != got.end() && i->second >= 1; if(ok) i->second -= 1; }
			else { int b = int(floor(x.pos / 0.1)); double fr = x.pos / 0.1 - b; std::vector<int> cand = {b}; if(fr < 1e-8) cand = {b - 1, b}; if(fr > 1 - 1e-8) cand = {b, b + 1}; if(cand.size() > 1 && !edges) { late.push_back(x); continue; } for(int bb : cand) for(auto& g : got) if(!ok && g.first.n == n && g.first.s == s.at[x.e] && g.first.l == e.GetLength() && g.second >= 1 && fabs(g.first.b - 0.1 * bb) < 1e-9) { g.second -= 1; ok = true; } if(cand.size() > 1) c.ev("bin-edge"); }
			c.check(ok, "missing", "type %d: loss at %.17g in %s (at %.17g, %.9g m) is in no row", ot, x.pos, n.c_str(), s.at[x.e], e.GetLength());
		}
		for(auto& g : got) c.check(g.second == 0, "surplus", "type %d: %g losses too many in %s", ot, g.second, g.first.n.c_str());
		for(auto& o : m.OutputLosses)
		{
			int e = -1; for(size_t i = 0; i < s.el.size(); i++) if(s.el[i]->GetQualifiedName() == o.ElementName && s.at[i] == o.s && s.el[i]->GetLength() == o.length) e = i; if(!c.check(e >= 0, "row-element", "%s", o.ElementName.c_str())) continue; bool coll = s.el[e]->GetType() == "Collimator"; double a = s.at[e], b = a + s.el[e]->GetLength(); bool in = false, out = true; for(auto& w : warm) { if(w.first <= a && b <= w.second) in = true; if(!(b < w.first || a > w.second)) out = false; }
			if(coll) c.check(o.temperature == LossData::Collimator, "temperature-collimator"); else if(in) { c.check(o.temperature == LossData::Warm, "temperature-warm", "%g..%g", a, b); c.ev("warm"); } else if(out) { c.check(o.temperature == LossData::Cold, "temperature-cold", "%g..%g", a, b); c.ev("cold"); }
		}
		std::ostringstream os; os.precision(17); m.Output(&os); auto t = rows(os.str()); c.check(t.size() == m.OutputLosses.size() + 1, "table-rows", "%zu lines for %zu rows", t.size(), m.OutputLosses.size()); size_t nc = ot == nearestelement ? 5 : ot == precise ? 5 : 6, li = ot == nearestelement ? 2 : 3; double ts = 0;
		for(size_t i = 0; i < t.size(); i++) { if(!c.check(t[i].size() == nc, "table-columns", "type %d line %zu has %zu columns", ot, i, t[i].size())) break; if(i == 0) { c.check(t[0][li] == "loss" && t[0][0] == "#Name" && t[0][1] == "s", "table-header"); continue; } if(i > m.OutputLosses.size()) break; auto& o = m.OutputLosses[i - 1]; ts += atof(t[i][li].c_str()); c.check(t[i][0] == o.ElementName, "table-name"); c.near(atof(t[i][1].c_str()), o.s + (ot == tencm ? o.interval : 0), 1e-9, 1e-12, "table-s"); c.check(atoi(t[i][li + 1].c_str()) == int(o.temperature), "table-temperature"); if(ot != precise) c.near(atof(t[i][nc - 1].c_str()), o.length, 1e-12, 1e-12, "table-length"); if(ot == precise) c.near(atof(t[i][2].c_str()), o.position, 1e-9, 1e-12, "table-position"); if(ot == tencm) c.near(atof(t[i][2].c_str()), o.interval, 1e-9, 1e-3, "table-bin"); }
		c.check(ts == all.size(), "table-total", "%g of %zu", ts, all.size()); c.ev(ot == tencm ? "tencm" : ot == precise ? "precise" : "nearest");
	}
	for(auto& x : all) c.note(x.pos + x.e); if(all.size() > 1) c.nontrivial(); c.sample(fmt("%zu elements, %zu losses, type %d: %zu rows", s.el.size(), all.size(), ot, m.OutputLosses.size()));
}
static bool glob1(const char* p, const char* s) { if(!*p) return !*s; if(*p == '*') return glob1(p + 1, s) || (*s && glob1(p, s + 1)); return *p == *s && glob1(p + 1, s + 1); }
FAMILY(detailed, 5000, 150000)
{
	Quiet q; auto& r = c.rng; Seq s = sequence(c); DetailedCollimationOutput d; std::vector<std::string> ids; int n = r.range(0, 3); for(int i = 0; i < n; i++) { std::string p = r.pick({"*", "SAME", "E*", "*B*", "TCP*", "D", "E1", "X", "*0"}); ids.push_back(p); d.AddIdentifier(p); }
	auto h = hits(c, s, r.range(0, 60)); std::vector<Hit> want; for(auto& x : h) { PSvector p = x.p; d.Dispose(*s.el[x.e], x.pos, p, x.turn); bool m = false; for(auto& i : ids) if(glob1(i.c_str(), s.el[x.e]->GetName().c_str())) m = true; if(m) want.push_back(x); else c.ev("not-selected"); }
	if(r.chance(0.5)) d.Finalise(); if(!c.check(d.DeadParticles.size() == want.size(), "records", "%zu of %zu", d.DeadParticles.size(), want.size())) return;
	for(size_t i = 0; i < want.size(); i++) { auto& g = d.DeadParticles[i]; auto& w = want[i]; auto& e = *s.el[w.e]; c.check(g.ElementName == e.GetName() && g.s == s.at[w.e] && g.position == w.pos && g.length == e.GetLength() && g.turn == w.turn && g.lost == 1 && same(g.p, w.p), "record", "%s at %g", e.GetName().c_str(), w.pos); }
	std::ostringstream os; int prec = r.pick({6, 10, 17}); os.precision(prec); d.Output(&os); auto t = rows(os.str()); if(!c.check(t.size() == want.size() + 1, "table-rows", "%zu lines for %zu records", t.size(), want.size())) return; const char* cols[] = {"#name", "s", "pos", "x", "xp", "y", "yp", "id", "turn"}; std::vector<std::string> hd(cols, cols + 9); c.check(t[0] == hd, "header", "%zu columns", t[0].size());
	for(size_t i = 0; i < want.size(); i++) { auto& x = t[i + 1]; auto& w = want[i]; if(!c.check(x.size() == 9, "table-columns", "%zu columns", x.size())) return; c.check(x[0] == s.el[w.e]->GetName(), "table-name"); double v[8] = {s.at[w.e], w.pos, w.p.x(), w.p.xp(), w.p.y(), w.p.yp(), double(w.p.id()), double(w.turn)}; for(int k = 0; k < 8; k++) c.near(atof(x[k + 1].c_str()), v[k], 0, k < 6 ? pow(10.0, 1 - prec) : 0, "table-value", "column %d", k + 1); c.note(v[2]); c.ev("rows"); }
	if(!want.empty()) c.nontrivial();
}
// maps made by real runs add up to the particles that are gone
FAMILY(runs, 400, 8000)
{
	Quiet q; auto& r = c.rng; Line l = line(c, r.range(1, 10), false, 1); double z = 0; for(auto a : l.el) { a->SetComponentLatticePosition(z); z += a->GetLength(); } int N = r.range(1, 60); LossMapCollimationOutput ten(tencm), near(nearestelement), pre(precise); DetailedCollimationOutput det; det.AddIdentifier("*"); Recorder rec; auto* col = new CollimateParticleProcess(2, r.range(1, 7)); col->SetLossThreshold(200); for(CollimationOutput* o : std::initializer_list<CollimationOutput*>{&ten, &near, &pre, &det, &rec}) col->SetCollimationOutput(o);
	auto b0 = std::unique_ptr<ParticleBunch>(beam(c, N, 1, true)); ParticleTracker t(l.m->GetRing(0), b0.get()); t.AddProcess(col); int turns = r.range(1, 3); for(int k = 0; k < turns; k++) if(k) t.Continue(); else t.Run();
	size_t lost = N - t.GetTrackedBunch().size(); for(auto* m : {&ten, &near, &pre}) { m->Finalise(); double sum = 0; for(auto& o : m->OutputLosses) sum += o.lost; c.check(sum == lost, "run-total", "type %d: %g of %zu", m->otype, sum, lost); }
	c.check(det.DeadParticles.size() == lost && rec.v.size() == lost, "run-records", "%zu, %zu of %zu", det.DeadParticles.size(), rec.v.size(), lost); for(size_t i = 0; i < lost && i < det.DeadParticles.size() && i < rec.v.size(); i++) c.check(det.DeadParticles[i].p.id() == rec.v[i].p.id() && det.DeadParticles[i].turn == rec.v[i].turn && det.DeadParticles[i].position == rec.v[i].pos, "run-record"); for(auto& x : rec.v) c.note(x.pos + x.p.x()); if(lost) { c.nontrivial(); c.ev("run-losses"); }
}
