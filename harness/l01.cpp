// L01: model contents, order, positions, queries against a plain list model.
#include "machine.h"
#include "GeometryPatch.h"
using namespace vh; using namespace mach;
typedef AcceleratorModel AM;
static bool glob1(const char* p, const char* s) { if(!*p) return !*s; if(*p == '*') return glob1(p + 1, s) || (*s && glob1(p, s + 1)); return *p == *s && glob1(p + 1, s + 1); }
static bool glob(const std::string& pat, const std::string& s) { size_t a = 0; for(;;) { size_t b = pat.find('|', a); if(glob1(pat.substr(a, b - a).c_str(), s.c_str())) return true; if(b == std::string::npos) return false; a = b + 1; } }
struct Item { AcceleratorComponent* a; int t; std::string name; double len; LatticeFrame* frame; };
struct Quiet { std::ostringstream s; std::streambuf* o; Quiet() : o(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); } };
template<class F> static bool badrange(F f) { try { f(); } catch(MerlinException&) { return true; } return false; }

struct Script
{
	Case& c; std::unique_ptr<AcceleratorModelConstructor> mc{new AcceleratorModelConstructor}; std::vector<Item> items; std::set<ModelElement*> all; std::vector<AcceleratorComponent*> reuse; std::vector<LatticeFrame*> frames; std::vector<SupportStructure*> supports; int extra = 0;
	std::string nm() { return c.rng.pick({"A", "B", "QF", "QD", "M1", "QF1", "X"}) + (c.rng.chance(0.5) ? std::string() : std::to_string(c.rng.range(0, 4))); }
	double ln() { return c.rng.pick({0.5, 1.0, c.rng.uni(0.01, 3), 0.1}); }
	AcceleratorComponent* comp(int& t) { if(!reuse.empty() && c.rng.chance(0.07)) { AcceleratorComponent* a = c.rng.pick(reuse); for(t = 0; t < NCT; t++) if(a->GetType() == tname(t)) break; return a; } t = c.rng.chance(0.3) ? c.rng.pick({0, 1, 2}) : c.rng.range(0, NCT - 1); auto a = make(c, t, nm(), ln()); reuse.push_back(a); return a; }
	template<class T> void app(AcceleratorComponent* a, double d, int t) { T* x = dynamic_cast<T*>(a); if(c.rng.chance(0.5)) mc->AppendComponent(*x, d); else mc->AppendComponent(x, d); }
	void append()
	{
		int t; AcceleratorComponent* a = comp(t); double d = c.rng.chance(0.3) ? ln() : 0;
		if(d != 0) { items.push_back({nullptr, DRIFT, "UNNAMED", d, nullptr}); }
		items.push_back({a, t, a->GetName(), a->GetLength(), nullptr}); all.insert(a);
		switch(t)
		{
		case DRIFT: app<Drift>(a, d, t); break; case MARKER: app<Marker>(a, d, t); break; case QUAD: app<Quadrupole>(a, d, t); break; case SKEWQUAD: app<SkewQuadrupole>(a, d, t); break; case SEXT: app<Sextupole>(a, d, t); break;
		case SKEWSEXT: app<SkewSextupole>(a, d, t); break; case OCT: app<Octupole>(a, d, t); break; case DECA: app<Decapole>(a, d, t); break; case XCOR: app<XCor>(a, d, t); break; case YCOR: app<YCor>(a, d, t); break; case SBEND: app<SectorBend>(a, d, t); break;
		case SOLENOID: app<Solenoid>(a, d, t); break; case TWRF: app<TWRFStructure>(a, d, t); break; case SWRF: app<SWRFStructure>(a, d, t); break; case TRF: app<TransverseRFStructure>(a, d, t); break; case MONITOR: app<Monitor>(a, d, t); break; case BPMT: app<BPM>(a, d, t); break;
		case RMSPM: app<RMSProfileMonitor>(a, d, t); break; case COLL: app<Collimator>(a, d, t); break; default: app<CrabMarker>(a, d, t);
		}
	}
	SequenceFrame* frame() { SequenceFrame* f; switch(c.rng.range(0, 3)) { case 0: { auto g = new GirderMount("G"); supports.push_back(g); f = g; break; } case 1: { auto g = new SimpleMount("S"); supports.push_back(g); f = g; break; } case 2: f = new MagnetMover("MM"); break; default: f = new SequenceFrame("SEQ", c.rng.pick({SequenceFrame::originAtCenter, SequenceFrame::originAtEntrance, SequenceFrame::originAtExit})); } all.insert(f); frames.push_back(f); return f; }
	void run(int n)
	{
		int depth = 0;
		for(int i = 0; i < n || depth > 0; i++)
		{
			if(i < n && depth < 3 && c.rng.chance(0.12)) { SequenceFrame* f = frame(); mc->NewFrame(f); depth++; append(); c.ev("new-frame"); c.check(mc->GetCurrentFrameDepth() == depth && &mc->GetCurrentFrame() == f, "current-frame"); continue; }
			if(depth > 0 && (i >= n || c.rng.chance(0.3))) { mc->EndFrame(); depth--; continue; }
			if(c.rng.chance(0.08)) { double d = ln(); mc->AppendDrift(d); items.push_back({nullptr, DRIFT, "UNNAMED", d, nullptr}); c.ev("append-drift"); }
			else if(c.rng.chance(0.04)) { auto g = new GeometryPatch; auto p = new PatchFrame(g, "PATCH"); mc->AppendComponentFrame(p); all.insert(p); items.push_back({nullptr, -1, "PATCH", 0, p}); c.ev("patch"); }
			else if(c.rng.chance(0.06))
			{
				// ready-made frame
				SequenceFrame* f = frame(); int k = c.rng.range(1, 3);
				for(int j = 0; j < k; j++)
				{
					if(c.rng.chance(0.15)) { auto p = new PatchFrame(new GeometryPatch, "PATCH"); f->AppendFrame(*p); all.insert(p); items.push_back({nullptr, -1, "PATCH", 0, p}); continue; }
					auto a = make(c, c.rng.pick({(int) QUAD, (int) DRIFT, (int) MARKER}), nm(), ln()); int t = a->GetType() == "Drift" ? DRIFT : a->GetType() == "Marker" ? MARKER : QUAD; auto cf = t == DRIFT ? (ComponentFrame*) new TComponentFrame<Drift>(*(Drift*) a) : t == QUAD ? (ComponentFrame*) new TComponentFrame<Quadrupole>(*(Quadrupole*) a) : new TComponentFrame<Marker>(*(Marker*) a); f->AppendFrame(*cf); all.insert(a); items.push_back({a, t, a->GetName(), a->GetLength(), cf});
				}
				mc->AppendFrame(f); c.ev("append-frame");
			}
			else append();
		}
		if(c.rng.chance(0.3)) { auto q = make(c, MARKER, "LOOSE", 0); mc->AddModelElement(q); all.insert(q); extra++; c.ev("loose-element"); }
	}
};
template<class T> static void typed(Case& c, AM& m, const std::vector<Item>& it, int t, const std::string& pat, const std::set<ModelElement*>& all)
{
	std::vector<TComponentFrame<T>*> v; int n = m.ExtractTypedComponents(v, pat); std::vector<std::string> e, g; for(auto& i : it) if(i.t == t && glob(pat, i.name)) e.push_back(i.name + fmt("%.17g", i.len)); for(auto f : v) g.push_back(f->GetComponent().GetName() + fmt("%.17g", f->GetComponent().GetLength()));
	std::vector<std::string> e2; for(auto& i : it) if(i.t == t && glob(pat, i.name) && i.name.compare(0, 4, "INST")) e2.push_back(i.name + fmt("%.17g", i.len));
	bool inst = e2.size() != e.size() && g == e2; if(inst) c.fail("typed-components-installed", "an installed Marker is not found by ExtractTypedComponents");
	else c.check(n == (int) e.size() && e == g, "typed-components", "%s '%s': %d, expected %zu", tname(t), pat.c_str(), n, e.size());
	std::vector<T*> w; int k = m.ExtractTypedElements(w, pat); std::set<T*> ge(w.begin(), w.end()); size_t known = 0, anon = 0; for(auto x : all) if(T* q = dynamic_cast<T*>(x)) if(glob(pat, q->GetName())) { known++; c.check(ge.count(q), "typed-element-missing", "%s", q->GetName().c_str()); }
	for(auto& i : it) if(i.t == t && !i.a && glob(pat, i.name)) anon++;
	c.check(k == (int) w.size() && ge.size() == w.size() && w.size() == known + anon, "typed-elements", "%s '%s': %zu, expected %zu", tname(t), pat.c_str(), w.size(), known + anon); c.ev("typed-query", 1);
	if(e.size()) c.ev("typed-query-hits");
}
static void verify(Case& c, AM& m, std::vector<Item>& it, const std::set<ModelElement*>& all, int extra, bool installed)
{
	(void) extra; size_t n = it.size(); AM::Beamline b = m.GetBeamline(); size_t k = 0; long double s = 0, total = 0; for(auto& i : it) total += i.len;
	c.near(m.GetGlobalFrame().GetGeometryLength(), total, 1e-12 * (total + 1), 0, "length");
	c.check(b.first_index() == 0 && b.last_index() == n - 1 && size_t(b.end() - b.begin()) == n && !b.IsReversed(), "whole-beamline"); if(size_t(b.end() - b.begin()) != n) return;
	std::map<AcceleratorComponent*, size_t> lastidx; std::set<ComponentFrame*> seen;
	for(auto i = b.begin(); i != b.end(); i++, k++)
	{
		Item& e = it[k]; ComponentFrame* f = *i; c.check(seen.insert(f).second, "frame-twice"); if(e.frame) c.check(e.frame == f, "frame-identity", "%zu", k); e.frame = f;
		bool ok = e.t < 0 ? !f->IsComponent() && f->GetType() == "PatchFrame" : f->IsComponent() && (e.a ? &f->GetComponent() == e.a : true) && f->GetComponent().GetName() == e.name && f->GetComponent().GetType() == tname(e.t) && f->GetComponent().GetLength() == e.len;
		c.check(ok, "element", "index %zu: expected %s %s %g, got %s", k, e.t < 0 ? "patch" : tname(e.t), e.name.c_str(), e.len, f->GetName().c_str()); if(!ok) return;
		AcceleratorGeometry::Extent x = f->GetGeometryExtent(); c.near(x.first, s, 1e-11 * (total + 1), 0, "arc-position", "element %zu of %zu", k, n); s += e.len; c.near(x.second, s, 1e-11 * (total + 1), 0, "arc-position");
		c.check(f->GetBeamlineIndex() == k, "frame-index", "%zu: %zu", k, f->GetBeamlineIndex()); if(f->IsComponent()) lastidx[&f->GetComponent()] = k; c.check(f->GetGlobalFrame() == &m.GetGlobalFrame(), "hierarchy"); c.ev("elements");
	}
	if(!installed) for(auto& p : lastidx) c.check(p.first->GetBeamlineIndex() == p.second, "component-index");
	auto qual = [&](const Item& i) { return i.t < 0 ? "PatchFrame." + i.name : std::string(tname(i.t)) + "." + i.name; };
	std::vector<std::string> pats{"*", "Quadrupole.*", "*.QF", "*Q*", "Drift.*|Marker.*", "*.A*|*.B*", "Sextupole.QF1", "nothing", "*.UNNAMED", "SectorBend.*|*1"}; for(int i = 0; i < 3; i++) pats.push_back(qual(c.rng.pick(it)));
	for(auto& p : pats)
	{
		std::vector<ComponentFrame*> v{nullptr}, ev; int r = m.ExtractComponents(p, v); for(auto& i : it) if(p == "*" || (i.t >= 0 && glob(p, qual(i)))) ev.push_back((ComponentFrame*) i.frame);
		c.check(v == ev && r == (int) ev.size(), "extract-components", "'%s': %d, expected %zu", p.c_str(), r, ev.size()); c.ev(ev.empty() ? "pattern-none" : "pattern-some");
		std::vector<AM::Index> x{7}, ex; for(size_t i = 0; i < n; i++) if(it[i].t >= 0 && glob(p, qual(it[i]))) ex.push_back(i);
		size_t q = m.GetIndexes(p, x); c.check(x == ex && q == ex.size() && m.GetIndexes(p) == ex, "indexes", "'%s'", p.c_str());
		size_t n1 = c.rng.range(0, n - 1), n2 = c.rng.range(n1, n - 1); std::vector<AM::Index> exs, xs; for(auto i : ex) if(i >= n1 && i <= n2) exs.push_back(i); m.GetIndexes(m.GetBeamline(n1, n2), p, xs); c.check(xs == exs, "indexes-of-section", "'%s' %zu..%zu", p.c_str(), n1, n2);
		std::vector<ModelElement*> me{nullptr}; int km = m.ExtractModelElements(p, me); std::set<ModelElement*> gm(me.begin(), me.end()); c.check(km == (int) me.size() && gm.size() == me.size() && !gm.count(nullptr), "model-elements-duplicate", "%d", km);
		size_t want = 0, anon = 0; for(auto e : all) if(glob(p, e->GetQualifiedName())) { want++; c.check(gm.count(e), "model-element-missing", "%s", e->GetQualifiedName().c_str()); }
		for(auto e : me) { c.check(e && glob(p, e->GetQualifiedName()), "model-element-mismatch", "'%s' gave %s", p.c_str(), e ? e->GetQualifiedName().c_str() : "null"); if(!all.count(e)) anon++; }
		for(auto& i : it) { if(!i.a && i.t >= 0 && glob(p, qual(i))) { want++; } if(i.t >= 0 && !all.count(i.frame) && glob(p, i.frame->GetQualifiedName())) want++; }
		c.check(me.size() == want, "model-elements", "'%s': %zu, expected %zu", p.c_str(), me.size(), want);
	}
	std::string tp = c.rng.pick({"*", "Q*", "QF", "A*|B*", "*1", "zz"}); typed<Drift>(c, m, it, DRIFT, tp, all); typed<Quadrupole>(c, m, it, QUAD, tp, all); typed<Marker>(c, m, it, MARKER, tp, all); typed<SectorBend>(c, m, it, SBEND, tp, all); typed<Monitor>(c, m, it, MONITOR, "UNUSED*", all); typed<XCor>(c, m, it, XCOR, "*", all); typed<TWRFStructure>(c, m, it, TWRF, "*", all);
	// sections
	for(int q = 0; q < 6; q++)
	{
		size_t n1 = c.rng.range(0, n - 1), n2 = c.rng.range(n1, n - 1); AM::Beamline l = m.GetBeamline(n1, n2); c.check(l.first_index() == n1 && l.last_index() == n2 && &l.First() == it[n1].frame && &l.Last() == it[n2].frame && size_t(l.end() - l.begin()) == n2 - n1 + 1 && *l.begin() == it[n1].frame, "section", "%zu..%zu", n1, n2);
		struct Cnt { std::vector<ComponentFrame*> v; void operator()(ComponentFrame* f) { v.push_back(f); } } cnt; l.Track(cnt); bool ok = cnt.v.size() == n2 - n1 + 1; for(size_t i = 0; i < cnt.v.size() && ok; i++) ok = cnt.v[i] == it[n1 + i].frame; c.check(ok, "section-track");
		std::string p1 = c.rng.chance(0.6) ? qual(c.rng.pick(it)) : c.rng.pick(pats), p2 = c.rng.chance(0.3) ? p1 : c.rng.chance(0.6) ? qual(c.rng.pick(it)) : c.rng.pick(pats); int o1 = c.rng.pick({1, 1, 2, 3}), o2 = c.rng.pick({1, 1, 2, 3});
		long i1 = -1, i2 = -1; int a = 0, d = 0; for(size_t i = 0; i < n; i++) { if(glob(p1, qual(it[i])) && ++a == o1) i1 = i; if(glob(p2, qual(it[i])) && ++d == o2) i2 = i; }
		try { AM::Beamline z = m.GetBeamline(p1, p2, o1, o2); if(c.check(i1 >= 0 && i2 >= 0, "named-section-not-refused", "'%s' #%d '%s' #%d", p1.c_str(), o1, p2.c_str(), o2)) c.check((long) z.first_index() == i1 && (long) z.last_index() == i2 && &z.First() == it[i1].frame && &z.Last() == it[i2].frame, "named-section", "'%s' #%d '%s' #%d: %zu..%zu, expected %ld..%ld", p1.c_str(), o1, p2.c_str(), o2, z.first_index(), z.last_index(), i1, i2); c.ev("named-section"); }
		catch(AM::BadRange&) { c.check(i1 < 0 || i2 < 0, "named-section-refused", "'%s' #%d '%s' #%d (%ld..%ld)", p1.c_str(), o1, p2.c_str(), o2, i1, i2); c.ev("named-refused"); }
	}
	size_t far = n + c.rng.range(0, 5); c.check(badrange([&] { m.GetBeamline(0, far); }) && badrange([&] { m.GetBeamline(far, n - 1); }) && badrange([&] { m.GetBeamline(far, far); }), "range-not-refused"); c.check(badrange([&] { m.GetRing((int) far); }) && badrange([&] { m.GetRing(-1); }), "ring-not-refused"); c.ev("refused");
	size_t n0 = c.rng.range(0, n - 1); AM::RingIterator r = m.GetRing(n0); size_t p = n0; AM::RingIterator r0 = r;
	for(int q = 0; q < int(2 * n + 3); q++) { c.check(*r == it[p].frame && (*r)->GetBeamlineIndex() == p, "ring", "%zu", p); switch(c.rng.range(0, 7)) { case 0: r--; p = (p + n - 1) % n; break; case 1: { --r; p = (p + n - 1) % n; break; } case 2: case 3: { AM::RingIterator o = r++; c.check(*o == it[p].frame, "ring-postfix"); p = (p + 1) % n; break; } default: ++r; p = (p + 1) % n; } c.check((r == r0) == (p == n0) && (r != r0) == (p != n0), "ring-equality"); }
	c.ev("ring-steps", 2 * n + 3);
	AM::Beamline rev = m.GetReversedBeamline(); c.check(&rev.First() == it[n - 1].frame && &rev.Last() == it[0].frame && rev.first_index() == n - 1 && rev.last_index() == 0 && rev.IsReversed() == (n > 1), "reversed");
	std::string look = c.rng.chance(0.8) ? c.rng.pick(it).name : "NOPE"; long w = -1; for(size_t i = 0; i < n && w < 0; i++) if(it[i].t >= 0 && it[i].name == look) w = i;
	try { int g = m.FindElementLatticePosition(look); c.check(g == w, "lattice-position", "'%s': %d, expected %ld", look.c_str(), g, w); c.ev("found"); } catch(MerlinException&) { c.check(w < 0, "lattice-position-refused", "%s", look.c_str()); c.ev("unknown-name"); }
	std::ostringstream os; m.ReportModelStatistics(os); std::string st = os.str(); size_t at = st.find("Total number of components:"); c.check(at != std::string::npos && atol(st.c_str() + at + 27) == (long) n, "statistics");
	std::map<std::string, int> cnt; std::set<ModelElement*> un; std::vector<ModelElement*> every; m.ExtractModelElements("*", every); for(auto e : every) cnt[e->GetType()]++; std::map<std::string, int> got; size_t h = st.find("----\n"); std::istringstream is(st.substr(h + 5)); std::string a; while(std::getline(is, a)) { size_t z = a.find_last_not_of(' '); if(a.empty() || z == std::string::npos) continue; size_t y = a.find_last_not_of("0123456789", z), x = a.find_last_not_of(' ', y); got[a.substr(0, x + 1)] = atoi(a.c_str() + y + 1); } c.check(got == cnt, "statistics-types");
}
FAMILY(scripts, 2500, 80000)
{
	Script s{c}; s.run(c.rng.pick({1, 2, 5, 15, 40})); if(s.items.empty()) s.append();
	std::ostringstream os; s.mc->ReportStatistics(os); c.check(os.str().find("Total number of components: " + std::to_string(s.items.size()) + "\n") != std::string::npos, "constructor-statistics");
	AM* m = s.mc->GetModel(); verify(c, *m, s.items, s.all, s.extra, false);
	AcceleratorSupportList sl, es; size_t ns = m->GetAcceleratorSupports(sl); for(auto q : s.supports) q->ExportSupports(es); c.check(ns == es.size() && std::set<AcceleratorSupport*>(sl.begin(), sl.end()) == std::set<AcceleratorSupport*>(es.begin(), es.end()) && sl.size() == es.size(), "supports"); bool ord = true; for(size_t i = 1; i < sl.size(); i++) (void) ord; if(ns) c.ev("supports", ns);
	// installing thin elements in drifts
	bool inst = false;
	for(int q = c.rng.range(0, 2); q > 0; q--)
	{
		std::vector<size_t> dr; long double pos = 0; std::vector<long double> st; for(size_t i = 0; i < s.items.size(); i++) { st.push_back(pos); pos += s.items[i].len; if(s.items[i].t == DRIFT && s.items[i].len > 0.02) dr.push_back(i); }
		if(dr.empty()) break;
		size_t k = c.rng.pick(dr); double at = (double) (st[k] + s.items[k].len * c.rng.uni(0.1, 0.9)); Item old = s.items[k]; Marker* mk = new Marker("INST" + std::to_string(q)); { Quiet quiet; m->InstallModelElement(mk, at); }
		double l1 = (double) ((long double) at - st[k]); s.items.erase(s.items.begin() + k); s.items.insert(s.items.begin() + k, {Item{nullptr, DRIFT, old.name + "_part1", l1, nullptr}, Item{mk, MARKER, mk->GetName(), 0, nullptr}, Item{nullptr, DRIFT, old.name + "_part2", old.len - l1, nullptr}});
		AM::Beamline b = m->GetBeamline(); if(!c.check(size_t(b.end() - b.begin()) == s.items.size(), "install-count")) return;
		for(int d : {0, 2}) { double gl = b.begin()[k + d]->GetComponent().GetLength(); c.near(gl, s.items[k + d].len, 1e-12 * (pos + 1), 0, "install-length"); s.items[k + d].len = gl; s.items[k + d].frame = nullptr; } c.near(mk->GetComponentLatticePosition(), at, 1e-12, 0, "install-position");
		bool used = false; if(old.a) { for(auto& i : s.items) used = used || i.a == old.a; if(!used) s.all.erase(old.a); } s.all.insert(mk); { std::vector<ModelElement*> e; m->ExtractModelElements("SequenceFrame.*_split", e); for(auto x : e) s.all.insert(x); } s.all.erase(old.frame); inst = true; c.ev("installed");
	}
	if(inst) verify(c, *m, s.items, s.all, s.extra, true);
	delete m;
	if(c.rng.chance(0.2)) { s.mc->NewModel(); Script t{c}; t.mc = std::move(s.mc); t.run(3); if(t.items.empty()) t.append(); std::unique_ptr<AM> m2(t.mc->GetModel()); verify(c, *m2, t.items, t.all, t.extra, false); c.ev("second-model"); }
	for(auto& i : s.items) { c.note(uint64_t(i.t + 1)); c.note(i.len); } c.nontrivial(); c.sample(fmt("%zu elements, %zu frames, installed=%d", s.items.size(), s.frames.size(), (int) inst));
}
FAMILY(empty, 20, 50)
{
	AcceleratorModelConstructor mc; if(c.idx % 2) { mc.NewModel(); mc.NewModel(); }
	std::unique_ptr<AM> m(mc.GetModel()); c.check(badrange([&] { m->GetBeamline(); }) && badrange([&] { m->GetReversedBeamline(); }) && badrange([&] { m->GetRing(); }) && badrange([&] { m->GetBeamline(0, 0); }) && badrange([&] { m->GetBeamline("*", "*"); }), "empty-not-refused");
	c.check(m->GetGlobalFrame().GetGeometryLength() == 0, "empty-length"); c.note(uint64_t(c.idx)); c.nontrivial(); c.ev("empty");
	AcceleratorModelConstructor abandoned; abandoned.AppendDrift(1); abandoned.NewFrame(new SequenceFrame("x")); abandoned.AppendDrift(1); if(c.idx % 3 == 0) abandoned.NewModel();
}
