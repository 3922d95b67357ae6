// L02: channels: found by pattern, read and write the named attribute of the named element and nothing else; arrays; klystrons.
#include "coll.h"
#include "MagnetMover.h"
#include "CorrectorWinding.h"
#include "ChannelServer.h"
#include "Channels.h"
#include "RWChannelState.h"
#include "Klystron.h"
#include "Components.h"
#include "TransverseRFStructure.h"
#include "TWRFStructure.h"
#include "SWRFStructure.h"
#include "MerlinIO.h"
using namespace coll;
// own matching of patterns: '*' for any text, '|' between alternatives
static bool glob(const char* p, const char* s) { if(!*p) return !*s; if(*p == '*') { while(*p == '*') p++; if(!*p) return true; for(; ; s++) { if(glob(p, s)) return true; if(!*s) return false; } } return *s == *p && glob(p + 1, s + 1); }
static bool matches(const std::string& pat, const std::string& s) { size_t i = 0; while(true) { size_t j = pat.find('|', i); std::string p = pat.substr(i, j == std::string::npos ? j : j - i); if(glob(p.c_str(), s.c_str())) return true; if(j == std::string::npos) return false; i = j + 1; } }
typedef std::vector<double> Snap;
static Snap snap(const ModelElement* e)
{
	Snap v; if(auto a = dynamic_cast<const AcceleratorComponent*>(e)) v.push_back(a->GetLength());
	MultipoleField* f = nullptr; if(auto m = dynamic_cast<const RectMultipole*>(e)) f = &const_cast<RectMultipole*>(m)->GetField(); if(auto b = dynamic_cast<const SectorBend*>(e)) { f = &const_cast<SectorBend*>(b)->GetField(); v.push_back(const_cast<SectorBend*>(b)->GetGeometry().GetCurvature()); }
	if(f) { v.push_back(f->GetFieldScale()); for(int i = 0; i < 6; i++) { v.push_back(f->GetCoefficient(i).real()); v.push_back(f->GetCoefficient(i).imag()); } }
	if(auto s = dynamic_cast<const Solenoid*>(e)) v.push_back(s->GetBz()); if(auto r = dynamic_cast<const RFStructure*>(e)) { v.push_back(r->GetAmplitude()); v.push_back(r->GetPhase()); v.push_back(r->GetFrequency()); } if(auto t = dynamic_cast<const TransverseRFStructure*>(e)) v.push_back(t->GetFieldOrientation()); if(auto m = dynamic_cast<const MagnetMover*>(e)) { v.push_back(m->GetX()); v.push_back(m->GetY()); v.push_back(m->GetRoll()); }
	return v;
}
struct World { std::unique_ptr<AcceleratorModel> m; std::vector<ModelElement*> line, extra; std::vector<std::unique_ptr<MagnetMover>> none; };
static std::string name(Rng& r) { return r.pick<std::string>({"A", "AB", "QF", "QF.1", "QF.2", "Q.D.3", "x", "B1", "QF_12"}); }
static World world(Case& c)
{
	auto& r = c.rng; World w; AcceleratorModelConstructor mc; int n = r.range(1, 14), open = 0; auto add = [&](auto* a) { mc.AppendComponent(*a); w.line.push_back(a); return a; };
	for(int i = 0; i < n; i++)
	{
		if(r.chance(0.2) && open == 0) { auto m = new MagnetMover(name(r)); mc.NewFrame(m); w.extra.push_back(m); open = r.range(1, 3); }
		double L = r.uni(0.1, 2), b = r.sym(3); RectMultipole* rm = nullptr; std::string nm = name(r);
		switch(r.range(0, 15))
		{
		case 0: case 1: rm = add(new Quadrupole(nm, L, b)); break; case 2: rm = add(new Sextupole(nm, L, b)); break; case 3: rm = add(new Octupole(nm, L, b)); break; case 4: rm = add(new SkewQuadrupole(nm, L, b)); break; case 5: rm = add(new SkewSextupole(nm, L, b)); break; case 6: add(new XCor(nm, L, b)); break; case 7: add(new YCor(nm, L, b)); break;
		case 8: { auto s = add(new SectorBend(nm, L, r.sym(0.2), b)); if(r.chance(0.5)) s->GetField().SetComponent(1, r.sym(2)); break; } case 9: add(new Solenoid(nm, L, b)); break; case 10: add(new TWRFStructure(nm, L, r.logu(1e8, 1e10), b, r.sym(3))); break; case 11: add(new SWRFStructure(nm, r.range(1, 9), r.logu(1e8, 1e10), b, r.sym(3))); break; case 12: add(new TransverseRFStructure(nm, L, r.logu(1e8, 1e10), b, r.sym(3), r.sym(3))); break;
		case 13: add(new BPM(nm, r.pick({0.0, L}))); break; case 14: add(new Drift(nm, L)); break; default: add(new Marker(nm)); break;
		}
		if(rm && r.chance(0.3)) { auto cw = new CorrectorWinding(*rm); mc.AddModelElement(cw); w.extra.push_back(cw); }
		if(open && --open == 0) mc.EndFrame();
	}
	if(open) mc.EndFrame(); w.m.reset(mc.GetModel()); return w;
}
// what each kind of element offers
static const std::map<std::string, std::vector<std::string>>& keys() { static const std::map<std::string, std::vector<std::string>> k{{"Solenoid", {"Bz"}}, {"Quadrupole", {"B1"}}, {"Sextupole", {"B2"}}, {"Octupole", {"B3"}}, {"SkewQuadrupole", {"B1"}}, {"SkewSextupole", {"B2"}}, {"XCor", {"B0"}}, {"YCor", {"B0"}}, {"SectorBend", {"B0", "B1"}}, {"MagnetMover", {"X", "Y", "Roll"}}, {"TWRFStructure", {"E", "Phi", "Lambda", "K"}}, {"SWRFStructure", {"E", "Phi", "Lambda", "K"}}, {"TransverseRFStructure", {"E", "Phi", "Lambda", "K", "ROLL"}}, {"CorrectorWinding", {"X", "Y"}}, {"BPM", {"X", "Y"}}}; return k; }
static bool readonly(const std::string& t) { return t == "BPM"; }
// value and effect of a key, straight from the element
static double value(ModelElement* e, const std::string& k)
{
	if(auto w = dynamic_cast<CorrectorWinding*>(e)) return k == "X" ? w->GetBy() : w->GetBx(); if(auto m = dynamic_cast<RectMultipole*>(e)) return m->GetField().GetFieldScale(); if(auto b = dynamic_cast<SectorBend*>(e)) return k == "B0" ? b->GetField().GetFieldScale() : b->GetField().GetComponent(1).real(); if(auto s = dynamic_cast<Solenoid*>(e)) return s->GetBz();
	if(auto m = dynamic_cast<MagnetMover*>(e)) return k == "X" ? m->GetX() : k == "Y" ? m->GetY() : m->GetRoll(); if(auto f = dynamic_cast<RFStructure*>(e)) { if(k == "E") return f->GetAmplitude(); if(k == "Phi") return f->GetPhase(); if(k == "Lambda") return 299792458.0 / f->GetFrequency(); if(k == "K") return 2 * M_PI * f->GetFrequency() / 299792458.0; return dynamic_cast<TransverseRFStructure*>(e)->GetFieldOrientation(); } return 0;
}
// the state of the element after a write
static void apply(ModelElement* e, const std::string& k, double v, Snap& s)
{
	if(auto m = dynamic_cast<RectMultipole*>(e)) { (void) m; s[1] = v; return; } if(auto b = dynamic_cast<SectorBend*>(e)) { (void) b; if(k == "B0") s[2] = v; else s[5] = v / s[2]; if(k == "B1") s[6] = 0; return; } if(dynamic_cast<Solenoid*>(e)) { s[1] = v; return; }
	if(dynamic_cast<MagnetMover*>(e)) { s[k == "X" ? 0 : k == "Y" ? 1 : 2] = v; return; } s[k == "E" ? 1 : k == "Phi" ? 2 : k == "ROLL" ? 4 : 3] = k == "Lambda" ? 299792458.0 / v : k == "K" ? 299792458.0 * v / (2 * M_PI) : v;
}
static std::string pattern(Rng& r, const std::vector<ModelElement*>& all)
{
	ModelElement* e = r.pick(all); std::string t = e->GetType(), n = e->GetName(), k; auto it = keys().find(t); k = it == keys().end() ? "X" : r.pick(it->second); auto blur = [&](std::string s) { switch(r.range(0, 5)) { case 0: return std::string("*"); case 1: return s.substr(0, r.range(0, (int) s.size())) + "*"; case 2: return "*" + s.substr(r.range(0, (int) s.size())); case 3: { size_t a = r.range(0, (int) s.size()), b = r.range(0, (int) s.size()); if(a > b) std::swap(a, b); return s.substr(0, a) + "*" + s.substr(b); } default: return s; } };
	std::string T = r.chance(0.6) ? t : blur(t); while(T.find('.') != std::string::npos) T = t; std::string N = r.chance(0.4) ? n : blur(n), K = r.chance(0.4) ? k : r.chance(0.2) ? "B0|B1|B2|X" : blur(k); if(r.chance(0.1)) N += "|" + r.pick(all)->GetQualifiedName(); if(r.chance(0.05)) N = "NONE"; return T + "." + N + "." + K;
}
struct Found { std::string id; ModelElement* e; std::string key; };
static std::vector<Found> expect(const std::vector<ModelElement*>& in, const std::string& chid, bool rw)
{
	size_t a = chid.find('.'), b = chid.rfind('.'); std::string eid = chid.substr(0, b), kp = chid.substr(b + 1); (void) a; std::vector<Found> v; for(auto e : in) { if(!matches(eid, e->GetQualifiedName())) continue; auto it = keys().find(e->GetType()); if(it == keys().end()) continue; for(auto& k : it->second) if(matches(kp, k) && !(rw && readonly(e->GetType()))) v.push_back({e->GetQualifiedName() + "." + k, e, k}); } return v;
}
static std::vector<std::string> ids(const std::vector<Found>& v) { std::vector<std::string> s; for(auto& f : v) s.push_back(f.id); return s; }
FAMILY(channels, 1500, 20000)
{
	auto& r = c.rng; World w = world(c); std::vector<ModelElement*> all = w.line; all.insert(all.end(), w.extra.begin(), w.extra.end()); std::ostringstream sink; auto ob = MerlinIO::warning().rdbuf(sink.rdbuf()); auto line = w.m->GetBeamline();
	for(int q = r.range(1, 5); q > 0; q--)
	{
		std::string id = pattern(r, all); bool bl = r.chance(0.5); const auto& in = bl ? w.line : all; std::vector<ROChannel*> ro; std::vector<RWChannel*> rw; size_t have = r.chance(0.3) ? 1 : 0; std::vector<RWChannel*> pre; if(have) { w.m->GetRWChannels("*.*.*", pre); if(pre.empty()) have = 0; else { rw.push_back(pre[0]); } }
		size_t nro = bl ? w.m->GetROChannels(line, id, ro) : w.m->GetROChannels(id, ro), nrw = bl ? w.m->GetRWChannels(line, id, rw) : w.m->GetRWChannels(id, rw); auto er = expect(in, id, false), ew = expect(in, id, true); if(have) { c.check(!rw.empty() && rw[0] == pre[0], "append", "channels found earlier are lost"); rw.erase(rw.begin()); for(auto p : pre) delete p; }
		c.check(nro == ro.size() && nrw == rw.size(), "count", "%zu and %zu reported, %zu and %zu found for %s", nro, nrw, ro.size(), rw.size(), id.c_str()); std::vector<std::string> a, b; for(auto p : ro) { c.check(p, "null", "null channel"); a.push_back(p->GetID()); } for(auto p : rw) { c.check(p, "null", "null channel"); b.push_back(p->GetID()); }
		auto sa = a, sb = b, ea = ids(er), eb = ids(ew); for(auto v : {&sa, &sb, &ea, &eb}) std::sort(v->begin(), v->end()); c.check(sa == ea, "found-read", "%zu channels for %s instead of %zu", sa.size(), id.c_str(), ea.size()); c.check(sb == eb, "found-write", "%zu channels for %s instead of %zu", sb.size(), id.c_str(), eb.size());
		if(bl) { auto el = [&](const std::vector<std::string>& v) { std::vector<std::string> o; for(auto& s : v) o.push_back(s.substr(0, s.rfind('.'))); return o; }; c.check(el(a) == el(ids(er)) && el(b) == el(ids(ew)), "order", "channels of %s are not in the order of the beamline", id.c_str()); c.ev("beamline"); } else c.ev("repository"); if(ro.empty()) c.ev("none"); if(ro.size() > 1) c.ev("several"); if(ro.size() > rw.size()) c.ev("read-only"); if(id.find("|") != std::string::npos) c.ev("alternatives"); for(auto& s : a) if(std::count(s.begin(), s.end(), '.') > 2) c.ev("dots");
		// which element does each channel belong to? In beamline order for beamlines; by name otherwise (only unique names are used there)
		std::map<std::string, int> mult; for(auto e : all) mult[e->GetQualifiedName()]++; std::vector<ModelElement*> own(rw.size(), nullptr); if(bl) { size_t i = 0; for(; i < rw.size() && i < ew.size(); i++) own[i] = nullptr; std::vector<bool> used(ew.size()); size_t from = 0; for(i = 0; i < rw.size(); i++) { for(size_t j = from; j < ew.size(); j++) if(!used[j] && ew[j].id == b[i]) { own[i] = ew[j].e; used[j] = true; break; } while(from < ew.size() && used[from]) from++; } } else for(size_t i = 0; i < rw.size(); i++) for(auto& f : ew) if(f.id == b[i] && mult[f.e->GetQualifiedName()] == 1) own[i] = f.e;
		for(int op = r.range(0, 8); op > 0 && !rw.empty(); op--)
		{
			int i = r.range(0, (int) rw.size() - 1); if(!own[i]) continue; std::string k = b[i].substr(b[i].rfind('.') + 1); ModelElement* e = own[i]; auto cw = dynamic_cast<CorrectorWinding*>(e); std::map<ModelElement*, Snap> before; for(auto x : all) before[x] = snap(x);
			if(dynamic_cast<SectorBend*>(e) && before[e][2] == 0) continue; double now = value(e, k), v = k == "Lambda" || k == "K" ? r.logu(0.01, 100) : k == "Roll" ? r.sym(3) : r.pick({0.0, r.sym(2)}); if(v == 0 && (dynamic_cast<SectorBend*>(e) || dynamic_cast<RectMultipole*>(e))) v = 0.5; double rel = k == "Lambda" || k == "K" || k == "Roll" ? 1e-12 : 1e-14; c.near(rw[i]->Read(), now, 1e-15, rel, "read", "%s", b[i].c_str());
			double other = cw ? (k == "X" ? cw->GetBx() : cw->GetBy()) : 0; bool inc = r.chance(0.4); if(inc && (k == "Lambda" || k == "K")) v = now * r.uni(0.01, 1); if(inc && k == "Roll") v = r.sym(3) * 0.1; if(inc && k == "Roll" && std::fabs(now + v) > 3.1) continue; double want = inc ? now + v : v; if(dynamic_cast<SectorBend*>(e) && want == 0) continue; if(inc) { c.near(rw[i]->Increment(v), want, 1e-15, rel, "increment", "%s", b[i].c_str()); c.ev("increments"); } else { rw[i]->Write(v); c.ev("writes"); }
			double tol = cw ? 1e-15 * (std::fabs(now) + std::fabs(v)) * 10 : 0; c.near(rw[i]->Read(), want, 1e-15 + tol, rel, "written", "%s after writing", b[i].c_str()); c.near(value(e, k), want, 1e-15 + tol, rel, "written", "%s by its accessor after writing", b[i].c_str());
			if(cw) { c.near(k == "X" ? cw->GetBx() : cw->GetBy(), other, 1e-15, 1e-13, "other-plane", "other plane of %s", b[i].c_str()); c.ev("windings"); }
			for(auto x : all) { if(dynamic_cast<CorrectorWinding*>(x)) continue; Snap s = before[x], t = snap(x); bool mine = x == e; if(mine) apply(e, k, want, s); if(cw && x->GetName() == cw->GetName() && dynamic_cast<RectMultipole*>(x)) { s[2] = t[2]; s[3] = t[3]; } c.check(s.size() == t.size(), "others", "state of %s", x->GetQualifiedName().c_str()); for(size_t j = 0; j < s.size() && j < t.size(); j++) { double tl = mine ? 1e-12 * (std::fabs(s[j]) + 1e-3) : 0; c.check(std::fabs(s[j] - t[j]) <= tl, "others", "%s changed number %zu of %s from %.15g to %.15g", b[i].c_str(), j, x->GetQualifiedName().c_str(), s[j], t[j]); } }
			c.ev("operations");
		}
		for(auto p : ro) delete p; for(auto p : rw) delete p;
	}
	MerlinIO::warning().rdbuf(ob); c.note(fmt("%zu %zu %s", w.line.size(), w.extra.size(), w.line[0]->GetQualifiedName().c_str())); c.note((double) c.idx); c.nontrivial();
}
FAMILY(arrays, 400, 5000)
{
	auto& r = c.rng; AcceleratorModelConstructor mc; int n = r.range(0, 12); std::vector<Quadrupole*> qs; std::vector<double> val; for(int i = 0; i < n; i++) { val.push_back(r.sym(3)); auto q = new Quadrupole("Q" + std::to_string(i), 0.3, val[i]); mc.AppendComponent(*q); qs.push_back(q); } mc.AppendComponent(*new Marker("M")); std::unique_ptr<AcceleratorModel> m(mc.GetModel()); auto bl = m->GetBeamline(); std::ostringstream sink; auto ob = MerlinIO::warning().rdbuf(sink.rdbuf()); auto get = [&]() { std::vector<RWChannel*> v; m->GetRWChannels(bl, "Quadrupole.*.B1", v); return v; };
	auto same = [&](const char* key) { for(int i = 0; i < n; i++) c.near(qs[i]->GetFieldStrength(), val[i], 1e-14, 0, key, "magnet %d", i); };
	std::vector<ROChannel*> rv; m->GetROChannels(bl, "Quadrupole.*.B1", rv); ROChannelArray ro(rv); RWChannelArray first(get()); RWChannelArray rw(first); c.check(first.Size() == 0 && rw.Size() == (size_t) n && ro.Size() == (size_t) n, "size", "%zu %zu %zu of %d", first.Size(), rw.Size(), ro.Size(), n); RWChannelState st(get()); std::vector<double> saved = val;
	for(int k = r.range(3, 20); k > 0; k--)
	{
		double x = r.sym(2); RealVector v(n); for(int i = 0; i < n; i++) v[i] = r.sym(2); int i = n ? r.range(0, n - 1) : 0;
		switch(r.range(0, 9)) { case 0: if(n) { rw.Write(i, x); val[i] = x; } break; case 1: if(n) { rw.Increment(i, x); val[i] += x; } break; case 2: rw.WriteAll(x); for(auto& y : val) y = x; break; case 3: rw.WriteAll(v); for(int j = 0; j < n; j++) val[j] = v[j]; break; case 4: rw.IncrementAll(x); for(auto& y : val) y += x; break; case 5: rw.IncrementAll(v); for(int j = 0; j < n; j++) val[j] += v[j]; break; case 6: rw = v; for(int j = 0; j < n; j++) val[j] = v[j]; break; case 7: if(n) { qs[i]->SetFieldStrength(x); val[i] = x; } break; case 8: st.Reset(); val = saved; c.ev("resets"); break; default: st.CacheCurrentState(); saved = val; c.ev("caches"); }
		same("array"); RealVector a(n); ro.ReadAll(a); RealVector b = rw; for(int j = 0; j < n; j++) { c.near(a[j], val[j], 1e-14, 0, "read-all", "entry %d", j); c.near(b[j], val[j], 1e-14, 0, "read-all", "entry %d", j); c.near(rw.Read(j), val[j], 1e-14, 0, "read", "entry %d", j); c.near(ro[j].Read(), val[j], 1e-14, 0, "read", "entry %d", j); } c.ev("operations");
	}
	std::ostringstream o; o.precision(15); ro.Print(o); std::istringstream is(o.str()); std::string id, eq; double x; int k = 0; while(is >> id >> eq >> x) { if(k < n) { c.check(id == "Quadrupole.Q" + std::to_string(k) + ".B1" && eq == "=", "print", "row %d is %s", k, id.c_str()); c.near(x, val[k], 1e-13, 1e-13, "print", "row %d", k); } k++; } c.check(k == n, "print", "%d rows of %d", k, n);
	std::vector<RWChannel*> some = get(); if(n > 1) { delete some.back(); some.pop_back(); std::reverse(some.begin(), some.end()); c.check(rw.SetChannels(some) == (size_t) n - 1, "set", "size"); for(int j = 0; j < n - 1; j++) c.near(rw.Read(j), val[n - 2 - j], 1e-14, 0, "set", "entry %d", j); c.ev("replaced"); } else for(auto p : some) delete p;
	if(n == 0) c.ev("empty"); MerlinIO::warning().rdbuf(ob); c.note((uint64_t) n); c.note((double) c.idx); c.nontrivial();
}
FAMILY(klystrons, 500, 6000)
{
	auto& r = c.rng; int n = r.range(1, 8); bool vs = r.chance(0.5); std::vector<std::unique_ptr<RFStructure>> own; std::vector<RFStructure*> cv; typedef std::complex<long double> Z; auto ph = [](RFStructure* s) { return std::polar((long double) s->GetAmplitude() * (long double) s->GetLength(), (long double) s->GetPhase()); }; auto sum = [&]() { Z z = 0; for(auto s : cv) { long double a = (long double) s->GetAmplitude() * s->GetLength(); z += Z(a * cosl(s->GetPhase()), a * sinl(s->GetPhase())); } return z; }; (void) ph;
	for(int i = 0; i < n; i++) { auto s = new TWRFStructure("C" + std::to_string(i), r.uni(0.2, 3), 1e9, r.uni(0.1, 5), r.sym(0.8) + (vs ? 0 : 0)); own.emplace_back(s); cv.push_back(s); } Z z = sum(); std::vector<Z> rel; for(auto s : cv) rel.push_back(Z(s->GetVoltagePhasor()) / z); auto other = std::make_unique<TWRFStructure>("O", 1, 1e9, 1, 0.3);
	Klystron k("K", cv, vs ? Klystron::vector_sum : Klystron::balanced); c.check(k.GetNumberOfCavities() == (size_t) n, "cavities", "%zu", k.GetNumberOfCavities()); bool zero = false;
	for(int op = r.range(1, 10); op >= 0; op--)
	{
		Z s = sum(); double sc = (double) std::abs(z) + 1; c.near((double) s.real(), (double) z.real(), 1e-12 * sc, 0, "sum", "real part of the sum of %d cavities, %s", n, vs ? "vector sum" : "balanced"); c.near((double) s.imag(), (double) z.imag(), 1e-12 * sc, 0, "sum", "imaginary part of the sum of %d cavities, %s", n, vs ? "vector sum" : "balanced"); Complex kz = k.GetVoltagePhasor(); c.near(kz.real(), (double) z.real(), 1e-12 * sc, 0, "reading", "phasor of the klystron"); c.near(kz.imag(), (double) z.imag(), 1e-12 * sc, 0, "reading", "phasor of the klystron"); c.near(std::abs(k.GetVoltage()), (double) std::abs(z), 1e-12 * sc, 0, "reading", "voltage");
		for(int i = 0; i < n; i++) { Complex y = cv[i]->GetVoltagePhasor(); Z w = vs && !zero ? rel[i] * z : z / (long double) n; c.near(y.real(), (double) w.real(), 1e-11 * sc * (double) (std::abs(rel[i]) + 1), 0, "share", "cavity %d of %d, %s", i, n, vs ? "vector sum" : "balanced"); c.near(y.imag(), (double) w.imag(), 1e-11 * sc * (double) (std::abs(rel[i]) + 1), 0, "share", "cavity %d of %d, %s", i, n, vs ? "vector sum" : "balanced"); }
		c.check(other->GetPhase() == 0.3 && other->GetAmplitude() == 1, "others", "another cavity changed"); c.ev(vs ? "vector-sum" : "balanced"); if(!op) break;
		double V = k.GetVoltage(), P = k.GetPhase(); switch(r.range(0, 3)) { case 0: { double v = r.uni(0.01, 20); k.SetVoltage(v); z = std::polar((long double) v, (long double) P); break; } case 1: { double p = r.sym(3); k.SetPhase(p); z = std::polar((long double) V, (long double) p); c.near(k.GetPhase(), p, 1e-12, 0, "reading", "phase"); break; } case 2: { Complex y(r.sym(10), r.sym(10)); k.SetVoltagePhasor(y); z = Z(y); break; } default: if(r.chance(0.2)) { k.SetVoltage(0); z = 0; zero = true; c.ev("off"); } }
	}
	c.note((double) z.real()); c.note((double) n); c.nontrivial();
}
