// I01: data tables against a reference model under random operation sequences.
#include "vh.h"
#include "DataTable.h"
#include "DataTableTFS.h"
#include <sstream>
using namespace vh;
struct Cell { double d = 0; int i = 0; std::string s; };
struct Col { std::string n; char t; std::vector<Cell> v; };
struct Model { std::vector<Col> c, h; size_t rows = 0; Col* f(std::vector<Col>& x, const std::string& n) { for(auto& k : x) if(k.n == n) return &k; return nullptr; } };
enum X { OK, DUP, TYPE, RANGE, OTHER };
template<class F> static X run(F f) { try { f(); return OK; } catch(WrongTypeException&) { return TYPE; } catch(std::out_of_range&) { return RANGE; } catch(std::invalid_argument&) { return DUP; } catch(...) { return OTHER; } }
static bool eq(double a, double b) { return dbits(a) == dbits(b) || (std::isnan(a) && std::isnan(b)); }
static std::string txt(char t, const Cell& c) { return t == 'd' ? std::to_string(c.d) : t == 'i' ? std::to_string(c.i) : c.s; }
static double rd(Case& c) { return c.rng.pick({0.0, -0.0, 1.0, 1e300, 1e-310, -c.rng.logu(1e-20, 1e20), (double) INFINITY, (double) NAN, c.rng.normal()}); }
static int ri(Case& c) { return c.rng.pick({0, -1, 2147483647, (int) -2147483647 - 1, c.rng.range(-1000, 1000)}); }
static std::string rs(Case& c) { static const std::vector<std::string> v = {"", "a", "Quad 1", "12", "1e3", "  ", "\t\"", "\n", "@", "*", std::string(300, 'x'), std::string("a\0b", 3), "\xc3\xa9"}; return c.rng.pick(v); }
static std::string rn(Case& c) { static const std::vector<std::string> v = {"A", "B", "C", "L", "NAME", "K0L", "", "a b", "S", "APER_1"}; return c.rng.pick(v); }
static void compare(Case& c, DataTable& d, Model& m, const char* key)
{
	const DataTable& k = d; c.check(k.Length() == m.rows, key, "length %zu, expected %zu", k.Length(), m.rows); auto& cn = d.ColumnNames(); auto& hn = d.HeaderNames(); if(!c.check(cn.size() == m.c.size() && hn.size() == m.h.size(), key, "%zu columns, %zu headers", cn.size(), hn.size())) return;
	for(size_t j = 0; j < m.c.size(); j++)
	{
		auto& x = m.c[j]; c.check(cn[j] == x.n && d.GetColumnType(x.n) == x.t && k.HasCol(x.n) && k.HasCol(x.n, x.t) && !k.HasCol(x.n, x.t == 'd' ? 'i' : 'd'), key, "column %zu", j);
		for(size_t r = 0; r < m.rows; r++) { bool ok = x.t == 'd' ? eq(k.Get_d(x.n, r), x.v[r].d) : x.t == 'i' ? k.Get_i(x.n, r) == x.v[r].i : k.Get_s(x.n, r) == x.v[r].s; c.check(ok, key, "cell %s[%zu] type %c", x.n.c_str(), r, x.t); c.check(k.GetAsStr(x.n, r) == txt(x.t, x.v[r]), key, "text of %s[%zu]", x.n.c_str(), r); c.ev("cells"); }
	}
	for(size_t j = 0; j < m.h.size(); j++) { auto& x = m.h[j]; c.check(hn[j] == x.n && d.GetHeaderType(x.n) == x.t && k.HeaderHasKey(x.n) && k.HeaderHasKey(x.n, x.t) && !k.HeaderHasKey(x.n, x.t == 's' ? 'i' : 's'), key, "header %zu", j); bool ok = x.t == 'd' ? eq(k.HeaderGet_d(x.n), x.v[0].d) : x.t == 'i' ? k.HeaderGet_i(x.n) == x.v[0].i : k.HeaderGet_s(x.n) == x.v[0].s; c.check(ok && k.HeaderGetAsStr(x.n) == txt(x.t, x.v[0]), key, "header %s", x.n.c_str()); }
	for(const char* n : {"A", "B", "NAME", "zz"}) { c.check(k.HasCol(n) == (m.f(m.c, n) != nullptr) && k.HeaderHasKey(n) == (m.f(m.h, n) != nullptr), key, "has %s", n); }
}
static void op(Case& c, DataTable& d, Model& m, int& refused)
{
	std::string n = rn(c); if(c.rng.chance(0.8) && m.c.size()) n = c.rng.pick(m.c).n; size_t r = c.rng.chance(0.9) && m.rows ? c.rng.range(0, m.rows - 1) : c.rng.pick({m.rows, m.rows + 1, (size_t) -1}); char t = c.rng.pick({'d', 'i', 's'}); Cell v; v.d = rd(c); v.i = ri(c); v.s = rs(c); Col* k = m.f(m.c, n); X got, want = OK; const char* w = "";
	auto acc = [&]() { return !k ? RANGE : k->t != t ? TYPE : r >= m.rows ? RANGE : OK; };
	if(k && c.rng.chance(0.75)) t = k->t;
	switch(c.rng.range(0, 11))
	{
	case 0: { w = "AddColumn"; n = rn(c); char ty = c.rng.chance(0.1) ? c.rng.pick({'x', 'D', '\0'}) : t; k = m.f(m.c, n); want = k ? DUP : ty != t ? TYPE : OK; got = run([&] { d.AddColumn(n, ty); }); if(want == OK) m.c.push_back({n, t, std::vector<Cell>(m.rows)}); break; }
	case 1: { w = "AddRow"; size_t q = 0; got = run([&] { q = d.AddRow(); }); c.check(q == m.rows, "row-number", "row %zu of %zu", q, m.rows); m.rows++; for(auto& x : m.c) x.v.emplace_back(); break; }
	case 2: case 3: w = "Set"; want = acc(); got = run([&] { if(t == 'd') c.rng.chance(0.5) ? d.Set(n, r, v.d) : d.Set_d(n, r, v.d); else if(t == 'i') c.rng.chance(0.5) ? d.Set(n, r, v.i) : d.Set_i(n, r, v.i); else c.rng.chance(0.5) ? d.Set(n, r, v.s) : d.Set_s(n, r, v.s); }); if(want == OK) { auto& x = k->v[r]; if(t == 'd') x.d = v.d; else if(t == 'i') x.i = v.i; else x.s = v.s; } break;
	case 4: { w = "Get"; want = acc(); got = run([&] { if(t == 'd') { double q = d.Get_d(n, r); c.check(want == OK && eq(q, k->v[r].d), "get", "value"); } else if(t == 'i') { int q = d.Get_i(n, r); c.check(want == OK && q == k->v[r].i, "get", "value"); } else { auto q = d.Get_s(n, r); c.check(want == OK && q == k->v[r].s, "get", "value"); } }); break; }
	case 5: { w = "SetWithStr"; static const std::vector<std::string> q = {"1", "-2.5", "1e-3", "abc", "", "3x", "1.2.3", "99999999999", "1e400", "inf", "0x10", "2e-320", "+7", "--1", "1 2"}; std::string s = c.rng.pick(q); Cell e; want = !k ? RANGE : r >= m.rows ? RANGE : OK; X bad = OK;
		if(k) { char* p; if(k->t == 'd') { e.d = strtod(s.c_str(), &p); if(p == s.c_str() || *p) bad = DUP; else if(std::isinf(e.d) && s != "inf") bad = RANGE; } else if(k->t == 'i') { long l = strtol(s.c_str(), &p, 10); if(p == s.c_str()) bad = DUP; else if(*p) bad = DUP; if(p != s.c_str() && (l > 2147483647L || l < -2147483648L)) bad = RANGE; e.i = (int) l; } else e.s = s; if(bad != OK) want = bad; }
		got = run([&] { d.SetWithStr(n, r, s); }); if(want != OK && got != OK) got = want; if(want == OK && got == OK) k->v[r] = e; w = "SetWithStr"; break; }
	case 6: { w = "HeaderAddColumn"; n = rn(c); char ty = c.rng.chance(0.1) ? '?' : t; Col* h = m.f(m.h, n); want = h ? DUP : ty != t ? TYPE : OK; got = run([&] { d.HeaderAddColumn(n, ty); }); if(want == OK) m.h.push_back({n, t, std::vector<Cell>(1)}); break; }
	case 7: { w = "HeaderSet"; n = m.h.size() && c.rng.chance(0.85) ? c.rng.pick(m.h).n : rn(c); Col* h = m.f(m.h, n); if(h && c.rng.chance(0.75)) t = h->t; want = !h ? RANGE : h->t != t ? TYPE : OK; got = run([&] { if(t == 'd') c.rng.chance(0.5) ? d.HeaderSet(n, v.d) : d.HeaderSet_d(n, v.d); else if(t == 'i') c.rng.chance(0.5) ? d.HeaderSet(n, v.i) : d.HeaderSet_i(n, v.i); else c.rng.chance(0.5) ? d.HeaderSet(n, v.s) : d.HeaderSet_s(n, v.s); }); if(want == OK) { auto& x = h->v[0]; if(t == 'd') x.d = v.d; else if(t == 'i') x.i = v.i; else x.s = v.s; } break; }
	case 8: { w = "HeaderGet"; n = m.h.size() && c.rng.chance(0.8) ? c.rng.pick(m.h).n : rn(c); Col* h = m.f(m.h, n); want = !h ? RANGE : h->t != t ? TYPE : OK; got = run([&] { if(t == 'd') d.HeaderGet_d(n); else if(t == 'i') d.HeaderGet_i(n); else d.HeaderGet_s(n); }); break; }
	case 9: { w = "HeaderSetWithStr"; n = m.h.size() && c.rng.chance(0.9) ? c.rng.pick(m.h).n : rn(c); Col* h = m.f(m.h, n); std::string s = c.rng.pick({std::string("5"), std::string("-17"), std::string("x5"), std::string("5x")}); bool num = s != "x5" && s != "5x"; want = !h ? RANGE : h->t == 's' || num ? OK : DUP; got = run([&] { d.HeaderSetWithStr(n, s); }); if(want == OK && h) { if(h->t == 'd') h->v[0].d = atof(s.c_str()); else if(h->t == 'i') h->v[0].i = atoi(s.c_str()); else h->v[0].s = s; } break; }
	case 10: { // a row given as values: right types, one wrong type, or too many values
		w = "AddRow(values)"; std::vector<Cell> a(3); std::vector<char> ty(3); for(int j = 0; j < 3; j++) { a[j].d = rd(c); a[j].i = ri(c); a[j].s = rs(c); ty[j] = c.rng.pick({'d', 'i', 's'}); if(j < (int) m.c.size() && c.rng.chance(0.8)) ty[j] = m.c[j].t; }
		for(size_t j = 0; j < 3 && want == OK; j++) want = j >= m.c.size() ? RANGE : ty[j] != m.c[j].t ? TYPE : OK;
		got = run([&] {
			auto three = [&](auto x, auto y) { if(ty[2] == 'd') d.AddRow(x, y, a[2].d); else if(ty[2] == 'i') d.AddRow(x, y, a[2].i); else d.AddRow(x, y, a[2].s); };
			auto two = [&](auto x) { if(ty[1] == 'd') three(x, a[1].d); else if(ty[1] == 'i') three(x, a[1].i); else three(x, a[1].s); };
			if(ty[0] == 'd') two(a[0].d); else if(ty[0] == 'i') two(a[0].i); else two(a[0].s); });
		if(want == OK) { m.rows++; for(size_t j = 0; j < m.c.size(); j++) { m.c[j].v.emplace_back(); if(j < 3) { auto& x = m.c[j].v.back(); if(ty[j] == 'd') x.d = a[j].d; else if(ty[j] == 'i') x.i = a[j].i; else x.s = a[j].s; } } c.ev("row-values"); } break; }
	default: { w = "row access"; want = acc(); auto row = DataTableRow(&d, r); got = run([&] { if(t == 'd') row.Set(n, v.d); else if(t == 'i') row.Set(n, v.i); else row.Set(n, v.s); }); if(want == OK) { auto& x = k->v[r]; if(t == 'd') x.d = v.d; else if(t == 'i') x.i = v.i; else x.s = v.s; } }
	}
	c.check(got == want, fmt("result-%s", w).c_str(), "outcome %d, expected %d (name '%s', row %zu of %zu, type %c)", got, want, n.c_str(), r, m.rows, t); if(want != OK) { refused++; c.ev("refused"); } c.note(std::string(w)); c.ev("operations");
}
FAMILY(histories, 2500, 40000)
{
	DataTable d; Model m; int ref = 0; int N = c.rng.range(1, 60); for(int i = 0; i < N && !c.failed; i++) { op(c, d, m, ref); if(c.rng.chance(0.3)) compare(c, d, m, "state"); } compare(c, d, m, "state");
	// a copy is independent of the original
	DataTable e = d; Model k = m; for(int i = 0; i < 10 && !c.failed; i++) op(c, e, k, ref); compare(c, d, m, "copied-from"); compare(c, e, k, "copy"); for(int i = 0; i < 5 && !c.failed; i++) op(c, d, m, ref); compare(c, e, k, "copy"); d = e; compare(c, d, k, "assigned"); if(ref) c.ev("with-refusals"); c.nontrivial();
}
FAMILY(iterators, 1200, 20000)
{
	DataTable d; d.AddColumn("I", 'i'); int n = c.rng.range(0, 40); for(int i = 0; i < n; i++) d.AddRow(i * 7); const DataTable& k = d;
	int x = 0; for(auto& row : d) { c.check(row.Get_i("I") == x++ * 7, "forward", "row"); row.Set("I", row.Get_i("I") + 1); } c.check(x == n, "forward", "%d rows of %d", x, n); x = 0; for(auto& row : k) c.check(row.Get_i("I") == x++ * 7 + 1, "forward", "row"); c.check(d.end() - d.begin() == n && k.end() - k.begin() == n, "distance", "distance");
	if(n)
	{
		auto walk = [&](auto it, auto b, auto e, const char* key) { long p = 0; for(int s = 0; s < 60; s++) { long q = c.rng.range(0, n - 1); switch(c.rng.range(0, 9)) { case 0: it += q - p; p = q; break; case 1: it -= p - q; p = q; break; case 2: it = it + (q - p); p = q; break; case 3: it = it - (p - q); p = q; break; case 4: if(p + 1 < n) { auto o = it++; c.check(o - b == p, key, "postincrement"); p++; } break; case 5: if(p) { auto o = it--; c.check(o - b == p, key, "postdecrement"); p--; } break; case 6: if(p + 1 < n) { c.check(++it - b == p + 1, key, "preincrement"); p++; } break; case 7: if(p) { c.check(--it - b == p - 1, key, "predecrement"); p--; } break; case 8: it = (q - p) + it; p = q; break; default: it = b + q; p = q; }
			auto o = b + q; c.check(it->Get_i("I") == p * 7 + 1 && (*it).get_pos() == (size_t) p && it[q - p].Get_i("I") == q * 7 + 1, key, "row %ld", p); c.check((it < o) == (p < q) && (it > o) == (p > q) && (it <= o) == (p <= q) && (it >= o) == (p >= q) && (it == o) == (p == q) && (it != o) == (p != q) && e - it == n - p, key, "comparisons"); c.ev("steps"); } };
		walk(d.begin(), d.begin(), d.end(), "iterator"); walk(k.begin(), k.begin(), k.end(), "const-iterator"); DataTable o; c.check(!(o.begin() == d.begin()) && o.begin() != d.begin(), "other-table", "iterators of different tables");
	}
	auto e = run([&] { d.end()->Get_i("I"); }); c.check(e == RANGE, "past-end", "access past the end"); c.note((uint64_t) n); c.note(c.rng.u()); c.nontrivial();
}
FAMILY(aperture_rows, 600, 8000)
{
	DataTable s, d; std::vector<std::string> N = {"S", "APER_1", "APER_2", "APER_3", "APER_4"}; bool good = c.rng.chance(0.5); size_t miss = c.rng.range(0, 4); bool dst = c.rng.chance(0.5), mt = c.rng.chance(0.5); for(DataTable* t : {&s, &d}) { bool bad = !good && ((t == &d) == dst); t->AddColumn("X", 'i'); for(size_t j = 0; j < 5; j++) if(!(bad && j == miss)) t->AddColumn(N[j], 'd'); else if(mt) t->AddColumn(N[j], 's'); t->AddColumn("APERTYPE", 's'); }
	int n = c.rng.range(1, 6); std::vector<std::vector<double>> v; for(int i = 0; i < n; i++) { size_t r = s.AddRow(); std::vector<double> w; for(auto& x : N) { double q = c.rng.normal(); w.push_back(q); if(s.HasCol(x, 'd')) s.Set(x, r, q); } s.Set("APERTYPE", r, std::string(i % 2 ? "CIRCLE" : "ELLIPSE")); v.push_back(w); }
	int i = 0; for(auto& row : s) { auto x = run([&] { d.ApertureFromRow(row); }); c.check((x == OK) == good, "outcome", "outcome %d", x); c.check(d.Length() == (good ? i + 1 : 0), "length", "%zu rows", d.Length()); if(x == OK) { for(size_t j = 0; j < 5; j++) c.check(d.Get_d(N[j], i) == v[i][j], "value", "%s", N[j].c_str()); c.check(d.Get_s("APERTYPE", i) == (i % 2 ? "CIRCLE" : "ELLIPSE"), "value", "type"); c.ev("copied-rows"); } else c.ev("refused-rows"); i++; } c.note(v[0][0]); c.nontrivial();
}
