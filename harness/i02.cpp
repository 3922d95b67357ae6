// I02: TFS files: round trips, an independent reader, mutations and truncations.
#include "vh.h"
#include "DataTable.h"
#include "DataTableTFS.h"
#include <sstream>
#include <fstream>
#include <iomanip>
#include <climits>
using namespace vh;
static std::string name(Case& c, std::set<std::string>& used) { static const std::string al = "ABCXYZabc019_.%$@*#-+/"; for(;;) { std::string s; int n = c.rng.chance(0.1) ? c.rng.range(17, 40) : c.rng.range(1, 8); for(int i = 0; i < n; i++) s += al[c.rng.range(0, al.size() - 1)]; if(used.insert(s).second) return s; } }
static std::string text(Case& c) { int k = c.rng.range(0, 7); static const std::vector<std::string> v = {"", " ", "QF.1", "two words", "@", "* x", "$", "%le", "\t", "'single'", "12", "1e5 ", "-", "caf\xc3\xa9", "a,b;c", "\\n", "\xff\xfe"}; if(k < 5) return c.rng.pick(v); std::string s; int n = c.rng.range(0, 30); for(int i = 0; i < n; i++) { char q; do q = (char) c.rng.range(1, 255); while(q == '"' || q == '\n'); s += q; } return s; }
static double num(Case& c) { switch(c.rng.range(0, 6)) { case 0: return 0; case 1: return c.rng.sgn() * c.rng.logu(1e-300, 1e300); case 2: return c.rng.range(-1000, 1000); case 3: return c.rng.pick({(double) INFINITY, -(double) INFINITY, (double) NAN, 1.7976931348623157e308, 2.3e-308, 5e-324, -0.0}); default: return c.rng.normal() * c.rng.logu(1e-6, 1e6); } }
static int inum(Case& c) { return c.rng.pick({0, INT_MAX, INT_MIN, c.rng.range(-100, 100), c.rng.range(-1000000000, 1000000000)}); }
static bool near10(double a, double b) { if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if(std::isinf(a) || std::isinf(b)) return a == b || (std::fabs(a) > 1.79769313e308 && std::fabs(b) > 1.79769313e308); return std::fabs(a - b) <= 0.5000001e-9 * std::fabs(a) + 5e-324; }
static DataTable table(Case& c)
{
	DataTable d; std::set<std::string> u, h; int nh = c.rng.range(0, 6), nc = c.rng.range(1, 8), nr = c.rng.pick({0, 1, c.rng.range(0, 30)}); for(int i = 0; i < nh; i++) { std::string n = name(c, h); char t = c.rng.pick({'d', 'i', 's'}); d.HeaderAddColumn(n, t); if(t == 'd') { double x = num(c); if(std::fabs(x) > 1.79769313e308 && !std::isinf(x)) x = 1; d.HeaderSet(n, x); } else if(t == 'i') d.HeaderSet(n, inum(c)); else d.HeaderSet(n, text(c)); }
	for(int i = 0; i < nc; i++) d.AddColumn(name(c, u), c.rng.pick({'d', 'i', 's'})); for(int r = 0; r < nr; r++) { d.AddRow(); for(auto& n : d.ColumnNames()) { char t = d.GetColumnType(n); if(t == 'd') { double x = num(c); if(std::fabs(x) > 1.79769313e308 && !std::isinf(x)) x = 1; d.Set(n, r, x); } else if(t == 'i') d.Set(n, r, inum(c)); else d.Set(n, r, text(c)); } }
	return d;
}
static bool equal(Case& c, DataTable& a, DataTable& b, const char* key)
{
	bool ok = c.check(a.Length() == b.Length(), key, "%zu rows, expected %zu", b.Length(), a.Length()) && c.check(a.ColumnNames() == b.ColumnNames() && a.HeaderNames() == b.HeaderNames(), key, "names"); if(!ok) return false;
	for(auto& n : a.HeaderNames()) { char t = a.GetHeaderType(n); c.check(b.GetHeaderType(n) == t, key, "type of header %s", n.c_str()); if(b.GetHeaderType(n) != t) continue; if(t == 'd') c.check(near10(a.HeaderGet_d(n), b.HeaderGet_d(n)), key, "header %s: %.17g became %.17g", n.c_str(), a.HeaderGet_d(n), b.HeaderGet_d(n)); else if(t == 'i') c.check(a.HeaderGet_i(n) == b.HeaderGet_i(n), key, "header %s: %d became %d", n.c_str(), a.HeaderGet_i(n), b.HeaderGet_i(n)); else c.check(a.HeaderGet_s(n) == b.HeaderGet_s(n), key, "header %s: text '%s'", n.c_str(), a.HeaderGet_s(n).c_str()); }
	for(auto& n : a.ColumnNames()) { char t = a.GetColumnType(n); if(!c.check(b.GetColumnType(n) == t, key, "type of %s", n.c_str())) continue; for(size_t r = 0; r < a.Length(); r++) { c.ev("cells"); if(t == 'd') c.check(near10(a.Get_d(n, r), b.Get_d(n, r)), key, "%.17g became %.17g", a.Get_d(n, r), b.Get_d(n, r)); else if(t == 'i') c.check(a.Get_i(n, r) == b.Get_i(n, r), key, "%d became %d", a.Get_i(n, r), b.Get_i(n, r)); else c.check(a.Get_s(n, r) == b.Get_s(n, r), key, "text '%s' became '%s'", a.Get_s(n, r).c_str(), b.Get_s(n, r).c_str()); } }
	return !c.failed;
}
// independent reader
struct Ref { bool bad = false; std::vector<std::array<std::string, 3>> h; std::vector<std::string> n; std::string t; std::vector<std::vector<std::string>> r; };
static bool words(const std::string& l, std::vector<std::string>& w)
{
	w.clear(); size_t i = 0, n = l.size(); auto sp = [](char q) { return q == ' ' || (q >= 9 && q <= 13); }; while(true) { while(i < n && sp(l[i])) i++; if(i >= n) return true; std::string s; while(i < n && !sp(l[i])) { if(l[i] == '"') { size_t e = l.find('"', i + 1); if(e == std::string::npos) return false; s += l.substr(i + 1, e - i - 1); i = e + 1; } else s += l[i++]; } w.push_back(s); }
}
static bool isnum(const std::string& s, char t, double* v = nullptr, long* iv = nullptr) { if(t == 's') return true; char* e; if(t == 'd') { double d = strtod(s.c_str(), &e); if(v) *v = d; return e != s.c_str() && e == s.c_str() + s.size() && !(std::isinf(d) && s.find_first_of("iI") == std::string::npos); } errno = 0; long l = strtol(s.c_str(), &e, 10); if(iv) *iv = l; return e != s.c_str() && e == s.c_str() + s.size() && !errno && l <= INT_MAX && l >= INT_MIN; }
static char type(const std::string& s) { return s == "%le" || s == "%e" ? 'd' : s == "%d" ? 'i' : s == "%s" || (s.size() > 2 && s.back() == 's') ? 's' : 0; }
static Ref parse(const std::string& f)
{
	Ref x; x.bad = true; std::vector<std::string> L, w; { std::string l; for(char q : f) if(q == '\n') { L.push_back(l); l.clear(); } else l += q; if(l.size()) L.push_back(l); } size_t i = 0; std::set<std::string> u;
	for(;; i++) { if(i >= L.size() || !words(L[i], w)) return x; if(w.empty()) continue; if(w[0] != "@") break; if(w.size() != 4 || !type(w[2]) || !u.insert(w[1]).second || !isnum(w[3], type(w[2]))) return x; x.h.push_back({w[1], std::string(1, type(w[2])), w[3]}); }
	if(w[0] != "*") return x; x.n.assign(w.begin() + 1, w.end()); if(std::set<std::string>(x.n.begin(), x.n.end()).size() != x.n.size()) return x; if(++i >= L.size() || !words(L[i], w) || w.empty() || w[0] != "$" || w.size() - 1 != x.n.size()) return x; for(size_t k = 1; k < w.size(); k++) { if(!type(w[k])) return x; x.t += type(w[k]); }
	while(++i < L.size()) { if(!words(L[i], w)) return x; if(w.empty()) continue; if(w.size() != x.n.size()) return x; for(size_t k = 0; k < w.size(); k++) if(!isnum(w[k], x.t[k])) return x; x.r.push_back(w); } x.bad = false; return x;
}
static void judge(Case& c, const std::string& f, const char* key)
{
	Ref x = parse(f); std::istringstream is(f); DataTable d; bool threw = false; try { d = DataTableReaderTFS(&is).Read(); } catch(std::exception& e) { threw = true; } if(!c.check(threw == x.bad, key, "%s although the file is %s: %s", threw ? "refused" : "accepted", x.bad ? "malformed" : "well formed", f.substr(0, 300).c_str())) return; c.ev(threw ? "refused" : "accepted"); if(threw) return;
	if(!c.check(d.Length() == x.r.size() && d.ColumnNames() == x.n && d.HeaderNames().size() == x.h.size(), key, "shape")) return; for(auto& h : x.h) { char t = h[1][0]; c.check(d.HeaderHasKey(h[0], t), key, "header"); double v = 0; long l = 0; isnum(h[2], t, &v, &l); bool ok = t == 'd' ? (d.HeaderGet_d(h[0]) == v || (std::isnan(v) && std::isnan(d.HeaderGet_d(h[0])))) : t == 'i' ? d.HeaderGet_i(h[0]) == l : d.HeaderGet_s(h[0]) == h[2]; c.check(ok, key, "value of header %s", h[0].c_str()); }
	for(size_t r = 0; r < x.r.size(); r++) for(size_t k = 0; k < x.n.size(); k++) { double v = 0; long l = 0; auto& s = x.r[r][k]; char t = x.t[k]; isnum(s, t, &v, &l); bool ok = d.GetColumnType(x.n[k]) == t && (t == 'd' ? (d.Get_d(x.n[k], r) == v || (std::isnan(v) && std::isnan(d.Get_d(x.n[k], r)))) : t == 'i' ? d.Get_i(x.n[k], r) == l : d.Get_s(x.n[k], r) == s); c.check(ok, key, "cell %zu,%zu from '%s'", r, k, s.c_str()); c.ev("parsed-cells"); }
}
FAMILY(round_trips, 2000, 30000)
{
	DataTable d = table(c); std::ostringstream os; if(c.rng.chance(0.3)) { os << std::hex << std::showpos << std::setprecision(2) << std::fixed << std::right << std::setfill('#'); if(c.rng.chance(0.5)) os.exceptions(std::ios::badbit | std::ios::failbit); c.ev("odd-stream"); } auto fl = os.flags(); auto pr = os.precision(); auto fi = os.fill();
	std::string f; if(c.rng.chance(0.2)) { std::string fn = scratch() + "/t.tfs"; { DataTableWriterTFS w(fn); w.Write(d); } std::ifstream in(fn); std::stringstream b; b << in.rdbuf(); f = b.str(); DataTable e = DataTableReaderTFS(fn).Read(); equal(c, d, e, "file"); c.ev("file"); remove(fn.c_str()); }
	else { DataTableWriterTFS(&os).Write(d); f = os.str(); c.check(os.flags() == fl && os.precision() == pr && os.fill() == fi, "stream-format", "format of the stream changed by writing"); }
	std::istringstream is(f); DataTable e = DataTableReaderTFS(&is).Read(); equal(c, d, e, "values"); Ref x = parse(f); c.check(!x.bad && x.r.size() == d.Length() && x.n == d.ColumnNames() && x.h.size() == d.HeaderNames().size(), "independent-reader", "file not understood by the independent reader"); judge(c, f, "independent-reader");
	std::ostringstream o2; DataTableWriterTFS(&o2).Write(e); std::istringstream i2(o2.str()); DataTable g = DataTableReaderTFS(&i2).Read(); equal(c, e, g, "second-trip"); std::string cr; for(char q : f) { if(q == '\n') { cr += '\r'; if(c.rng.chance(0.2)) cr += "\n  \t"; } cr += q; } if(f.find("\"\r") == std::string::npos) { /* blank lines and CRLF */ Ref y = parse(cr); if(!y.bad) { judge(c, cr, "crlf"); c.ev("crlf"); } }
	c.note(f.size()); c.note(f); c.nontrivial();
}
FAMILY(malformed, 4000, 80000)
{
	DataTable d = table(c); std::ostringstream os; DataTableWriterTFS(&os).Write(d); std::string f = os.str(); int n = c.rng.range(1, 4); static const std::vector<std::string> ins = {"\"", "\n", "@", "*", "$", "%le", "%d", "%s", "%x", " ", "1", "x", ".", "e", "-", "\r\n", "@ A %d 5\n", "@ A %d\n", "* \n", "\"\"", std::string(1, '\0'), "1e999", "99999999999"};
	while(n--) { size_t p = f.empty() ? 0 : c.rng.range(0, f.size() - 1); switch(c.rng.range(0, 6)) { case 0: f.resize(p); c.ev("truncated"); break; case 1: f.insert(p, c.rng.pick(ins)); break; case 2: if(f.size()) f.erase(p, c.rng.range(1, 5)); break; case 3: if(f.size()) f[p] = (char) c.rng.range(0, 255); break; case 4: { size_t e = f.find('\n', p); if(e != std::string::npos) f.erase(p, e - p + 1); break; } case 5: { size_t b = f.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; size_t e = f.find('\n', b); if(e != std::string::npos) f.insert(c.rng.chance(0.5) ? e + 1 : 0, f.substr(b, e - b + 1)); break; } default: f = f.substr(p); } }
	judge(c, f, "mutated"); c.note(f); c.nontrivial();
}
FAMILY(truncations, 120, 2000)
{
	DataTable d = table(c); std::ostringstream os; DataTableWriterTFS(&os).Write(d); std::string f = os.str(); for(size_t k = 0; k <= std::min<size_t>(f.size(), 700); k++) judge(c, f.substr(0, k), "prefix"); judge(c, "", "empty"); judge(c, "\n\n", "empty"); judge(c, "@ A %d 3\n\n", "empty"); c.note(f); c.nontrivial();
}
// layout variants of the same content, as other programs write them
FAMILY(layouts, 1500, 20000)
{
	int nc = c.rng.range(1, 6), nr = c.rng.range(0, 10); std::string ws[] = {" ", "  ", "\t", " \t "}; auto sp = [&] { return ws[c.rng.range(0, 3)]; }; std::string f; std::set<std::string> u; int nh = c.rng.range(0, 4); for(int i = 0; i < nh; i++) { if(c.rng.chance(0.1)) f += "\n"; std::string n = fmt("H%d", i); int t = c.rng.range(0, 3); f += (c.rng.chance(0.2) ? " @" : "@") + sp() + n + sp() + (t == 0 ? std::string("%le") : t == 1 ? std::string("%e") : t == 2 ? std::string("%d") : c.rng.pick({std::string("%s"), std::string("%05s"), std::string("%2s"), std::string("%120s")})) + sp() + (t < 2 ? fmt("%.*e", c.rng.range(0, 17), c.rng.normal()) : t == 2 ? fmt("%d", inum(c)) : c.rng.chance(0.5) ? "\"a b  c\"" : "word") + (c.rng.chance(0.2) ? " \r\n" : "\n"); }
	f += "*"; for(int i = 0; i < nc; i++) f += sp() + fmt("C%d", i); f += "\n$"; std::string ty; for(int i = 0; i < nc; i++) { ty += c.rng.pick({'d', 'i', 's'}); f += sp() + (ty[i] == 'd' ? c.rng.pick({std::string("%le"), std::string("%e")}) : ty[i] == 'i' ? std::string("%d") : std::string("%s")); } f += "\n"; for(int r = 0; r < nr; r++) { for(int i = 0; i < nc; i++) f += (i || c.rng.chance(0.7) ? sp() : "") + (ty[i] == 'd' ? fmt("%.*g", c.rng.range(1, 17), num(c)) : ty[i] == 'i' ? fmt("%+d", inum(c)) : c.rng.chance(0.5) ? "\"x y\"" : c.rng.chance(0.5) ? "\"\"" : "ab\"c d\"e"); if(r < nr - 1 || c.rng.chance(0.5)) f += "\n"; if(c.rng.chance(0.1)) f += "\n"; }
	c.check(!parse(f).bad || f.find("e+309") != std::string::npos || f.find("e+308") != std::string::npos, "self", "layout: %s", f.c_str()); judge(c, f, "layout"); c.note(f); c.nontrivial();
}
