// I03: the machine built from an optics table is the machine the table describes. An independent list model of
// the rows (types, names, lengths, positions, fields, frames) is compared with the constructed model.
#include "machine.h"
#include "MADInterface.h"
#include "AcceleratorModelConstructor.h"
#include "TComponentFrame.h"
#include "SequenceFrame.h"
#include "SectorBend.h"
#include "StandardMultipoles.h"
#include "CorrectorDipoles.h"
#include "Solenoid.h"
#include "SWRFStructure.h"
#include "TransverseRFStructure.h"
#include "Collimator.h"
#include "CrabMarker.h"
#include "HollowElectronLens.h"
#include "BPM.h"
#include "RMSProfileMonitor.h"
#include "Drift.h"
#include "Marker.h"
#include "MerlinException.h"
#include "MerlinIO.h"
#include <fstream>
#include <sstream>
using namespace vh;
static const double CL = 299792458.0;
struct Quiet { std::ostringstream s; std::streambuf* o, *e; std::ostream* a, *b, *d; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
struct Row { std::string kw, name; std::map<std::string, double> v; double operator[](const std::string& k) const { auto i = v.find(k); return i == v.end() ? 0 : i->second; } };
struct Want { std::string type, name; double L, z; Row row; double brho; int part; };
typedef std::vector<Row> Rows;
static const std::vector<std::string> COLS = {"S", "L", "ANGLE", "K0L", "K1L", "K2L", "K3L", "K4L", "TILT", "E1", "E2", "HKICK", "VKICK", "KS", "FREQ", "LAG", "VOLT", "MUX", "MUY"};
static std::string table(Rng& r, const Rows& rows, std::vector<std::string> cols, bool shuffle)
{
	std::vector<std::string> all = {"NAME", "KEYWORD"}; all.insert(all.end(), cols.begin(), cols.end()); if(r.chance(0.3)) all.push_back("PARENT"); if(r.chance(0.3)) all.push_back("SPARE"); if(shuffle) r.shuffle(all);
	std::ostringstream o; o.precision(17); o << "@ NAME %05s \"TWISS\"\n@ LENGTH %le 12.5\n*"; for(auto& c : all) o << " " << c; o << "\n$"; for(auto& c : all) o << (c == "NAME" || c == "KEYWORD" || c == "PARENT" ? " %s" : " %le"); o << "\n";
	for(auto& w : rows) { for(auto& c : all) { if(c == "NAME") o << " \"" << w.name << "\""; else if(c == "KEYWORD") o << " \"" << w.kw << "\""; else if(c == "PARENT") o << " \"P\""; else o << " " << w[c]; } o << "\n"; }
	return o.str();
}
static const std::vector<std::string> KINDS = {"DRIFT", "DRIFT", "RBEND", "SBEND", "QUADRUPOLE", "SKEWQUAD", "SEXTUPOLE", "SKEWSEXT", "OCTUPOLE", "YCOR", "XCOR", "VKICKER", "HKICKER", "SOLENOID", "RFCAVITY", "LCAV", "CRABMARKER", "CRABRF", "COLLIMATOR", "RCOLLIMATOR", "ECOLLIMATOR", "HEL", "MONITOR", "MARKER", "INSTRUMENT", "PLACEHOLDER", "VMONITOR", "HMONITOR", "KICKER", "TKICKER", "MATRIX"};
static Row row(Rng& r, int i, double& s, bool angles)
{
	Row w; w.kw = r.pick(KINDS); w.name = r.chance(0.3) ? "EL" : r.chance(0.2) ? "WS.X" + std::to_string(i) : w.kw.substr(0, 2) + "." + std::to_string(i); double L = r.chance(0.1) ? 0.0 : r.logu(0.05, 20); auto& v = w.v;
	bool mag = w.kw == "RBEND" || w.kw == "SBEND" || w.kw == "QUADRUPOLE" || w.kw == "SKEWQUAD" || w.kw == "SEXTUPOLE" || w.kw == "SKEWSEXT" || w.kw == "OCTUPOLE" || w.kw == "SOLENOID";
	if(w.kw == "MARKER") L = 0; if(w.kw == "RBEND" || w.kw == "SBEND") { if(L == 0) L = 1; double a = r.logu(1e-5, 0.3) * r.sgn(); if(angles) v["ANGLE"] = a; if(!angles || r.chance(0.6)) v["K0L"] = a; if(r.chance(0.3)) v["K1L"] = r.sym(0.1); if(r.chance(0.4)) v["E1"] = r.sym(0.2); if(r.chance(0.4)) v["E2"] = r.sym(0.2); if(r.chance(0.3)) v["TILT"] = r.sym(1.6); }
	bool zero = L == 0; auto k = [&](double x) { return zero ? 0.0 : r.chance(0.15) ? 0.0 : x; };
	if(w.kw == "QUADRUPOLE" || w.kw == "SKEWQUAD") v["K1L"] = k(r.sym(0.5)); if(w.kw == "SEXTUPOLE" || w.kw == "SKEWSEXT") v["K2L"] = k(r.sym(10)); if(w.kw == "OCTUPOLE") v["K3L"] = k(r.sym(500)); if(w.kw == "SOLENOID") v["KS"] = k(r.sym(0.5));
	if(w.kw == "VKICKER") v["VKICK"] = r.sym(1e-4); if(w.kw == "HKICKER") v["HKICK"] = r.sym(1e-4); if(w.kw == "KICKER") { v["HKICK"] = r.sym(1e-4); v["VKICK"] = r.sym(1e-4); }
	if(w.kw == "RFCAVITY" || w.kw == "LCAV") { int n = r.range(1, 9); double f = r.uni(50, 1500); v["FREQ"] = f; v["LAG"] = r.uni(-0.5, 1); v["VOLT"] = r.sym(20); L = n * CL / (f * 1e6) / 2; v["CELLS"] = n; }
	if(w.kw == "CRABMARKER") { v["MUX"] = r.uni(0, 5); v["MUY"] = r.uni(0, 5); }
	(void) mag; v["L"] = L; s += L; v["S"] = s; return w;
}
struct Opt { bool single = false, sr = false, flat = false, honour = false; std::set<std::string> drift, zero; };
// what the rows mean
static std::vector<Want> expect(const Rows& rows, double& P, double& z, const Opt& o)
{
	static const std::map<std::string, std::string> T = {{"DRIFT", "Drift"}, {"RBEND", "SectorBend"}, {"SBEND", "SectorBend"}, {"QUADRUPOLE", "Quadrupole"}, {"SKEWQUAD", "SkewQuadrupole"}, {"SEXTUPOLE", "Sextupole"}, {"SKEWSEXT", "SkewSextupole"}, {"OCTUPOLE", "Octupole"}, {"YCOR", "YCor"}, {"XCOR", "XCor"}, {"VKICKER", "YCor"}, {"HKICKER", "XCor"}, {"SOLENOID", "Solenoid"}, {"RFCAVITY", "SWRFStructure"}, {"LCAV", "SWRFStructure"}, {"CRABMARKER", "CrabMarker"}, {"CRABRF", "TransverseRFStructure"}, {"COLLIMATOR", "Collimator"}, {"RCOLLIMATOR", "Collimator"}, {"ECOLLIMATOR", "Collimator"}, {"HEL", "HollowElectronLens"}, {"MARKER", "Marker"}};
	std::vector<Want> w; std::set<std::string> drift = {"INSTRUMENT", "PLACEHOLDER", "VMONITOR", "HMONITOR", "KICKER", "TKICKER", "MATRIX"}, zero = {"RCOLLIMATOR"}; drift.insert(o.drift.begin(), o.drift.end()); zero.insert(o.zero.begin(), o.zero.end());
	for(auto& r : rows)
	{
		double L = r["L"], brho = P * 1e9 / CL; if(r.kw == "LINE") continue; if(L == 0 && zero.count(r.kw)) continue; bool bend = r.kw == "SBEND" || r.kw == "RBEND"; double ang = r["ANGLE"] ? r["ANGLE"] : r["K0L"];
		if(drift.count(r.kw) || r.kw == "DRIFT") { if(L != 0) { w.push_back({"Drift", r.name, L, z, r, brho, 0}); z += L; } }
		else if(r.kw == "MONITOR") { w.push_back({r.name.substr(0, 2) == "WS" ? "RMSProfileMonitor" : "BPM", r.name, L, z, r, brho, 0}); z += L; }
		else if(o.single && T.at(r.kw) == "SWRFStructure") { double h = CL / (r["FREQ"] * 1e6) / 2; w.push_back({"SWRFStructure", r.name, h, z, r, brho, 1}); z += h; w.push_back({"Drift", "Drift_" + r.name, L - h, z, r, brho, 0}); z += L - h; }
		else { w.push_back({T.at(r.kw), r.name, L, z, r, brho, 0}); z += L; }
		if(bend && o.sr) P -= 8.85e-5 / (2 * M_PI) * pow(P, 4) * ang * ang / L;
	}
	return w;
}
static void field(Case& c, AcceleratorComponent* a, const Want& w, const char* what)
{
	auto m = dynamic_cast<RectMultipole*>(a); const Row& r = w.row; double L = w.L, B = w.brho;
	if(m)
	{
		for(int i = 0; i < 2; i++)
		{
			double x = i ? 0.013 : -0.004, y = i ? -0.007 : 0.011; std::complex<double> z(x, y), f(0, 0), I(0, 1); double sc = 0; auto k = [&](double kl) { sc = fabs(B * kl); return L ? B * kl / L : 0.0; };
			if(w.type == "Quadrupole") f = k(r["K1L"]) * z; if(w.type == "Sextupole") f = k(r["K2L"]) * z * z / 2.0; if(w.type == "Octupole") f = k(r["K3L"]) * z * z * z / 6.0;
			if(w.type == "SkewQuadrupole") { SkewQuadrupole q("x", 1, k(r["K1L"])); auto b = q.GetField().GetBFieldAt(Point3D(x, y, 0)); f = {b.y, b.x}; } if(w.type == "SkewSextupole") { SkewSextupole q("x", 1, k(r["K2L"])); auto b = q.GetField().GetBFieldAt(Point3D(x, y, 0)); f = {b.y, b.x}; }
			if(w.type == "XCor" && r.kw == "HKICKER") f = -B * r["HKICK"] / (L ? L : 1); if(w.type == "YCor" && r.kw == "VKICKER") f = I * (B * r["VKICK"] / (L ? L : 1));
			auto b = m->GetField().GetBFieldAt(Point3D(x, y, 0)); double tol = 1e-9 * (abs(f) + 1e-12); (void) sc;
			c.check(fabs(b.y - f.real()) <= tol && fabs(b.x - f.imag()) <= tol, "field", "%s %s (%s, L %g): field (%g, %g) at (%g, %g), row says (%g, %g)", what, w.name.c_str(), r.kw.c_str(), L, b.x, b.y, x, y, f.imag(), f.real()); c.ev("fields");
		}
	}
	if(auto b = dynamic_cast<SectorBend*>(a))
	{
		double ang = r["ANGLE"] ? r["ANGLE"] : r["K0L"], h = ang / L; c.near(b->GetGeometry().GetCurvature(), h, 0, 1e-12, "bend-curvature", "%s %s", what, w.name.c_str()); c.near(b->GetB0(), B * h, 0, 1e-9, "bend-field", "%s %s: dipole field", what, w.name.c_str());
		c.near(b->GetGeometry().GetTilt(), r["TILT"], 0, 1e-12, "bend-tilt", "%s %s", what, w.name.c_str()); for(double x : {0.01, -0.02}) { auto f = b->GetField().GetBFieldAt(Point3D(x, 0, 0)); c.near(f.y, B * (h + r["K1L"] / L * x), 1e-12 * fabs(B), 1e-9, "bend-gradient", "%s %s: field at x=%g", what, w.name.c_str(), x); }
		auto& pf = b->GetPoleFaceInfo(); c.near(pf.entrance ? pf.entrance->rot : 0, r["E1"], 0, 1e-12, "pole-face", "%s %s: entrance pole face", what, w.name.c_str()); c.near(pf.exit ? pf.exit->rot : 0, r["E2"], 0, 1e-12, "pole-face", "%s %s: exit pole face", what, w.name.c_str()); c.ev("bends"); if(r["E1"] || r["E2"]) c.ev("pole_faces");
	}
	if(auto s = dynamic_cast<Solenoid*>(a)) { c.near(s->GetBz(), L ? B * r["KS"] / L : 0, 0, 1e-9, "solenoid-field", "%s %s (L %g)", what, w.name.c_str(), L); c.ev("solenoids"); }
	if(auto s = dynamic_cast<SWRFStructure*>(a)) { double full = w.part ? w.L : w.L; c.near(s->GetFrequency(), r["FREQ"] * 1e6, 0, 1e-12, "rf-frequency", "%s %s", what, w.name.c_str()); c.near(s->GetAmplitude() * full, r["VOLT"] * 1e-3, 1e-15, 1e-9, "rf-voltage", "%s %s: voltage", what, w.name.c_str()); double lag = 2 * M_PI * (r["LAG"] - 0.25); c.near(cos(s->GetPhase()), cos(lag), 1e-9, 0, "rf-phase", "%s %s: phase", what, w.name.c_str()); c.near(sin(s->GetPhase()), sin(lag), 1e-9, 0, "rf-phase", "%s %s: phase", what, w.name.c_str()); c.ev("cavities"); }
	if(auto s = dynamic_cast<CrabMarker*>(a)) { c.near(s->GetMuX(), r["MUX"], 0, 1e-12, "crab-phase", "%s", what); c.near(s->GetMuY(), r["MUY"], 0, 1e-12, "crab-phase", "%s", what); }
}
static void compare(Case& c, AcceleratorModel& m, const std::vector<Want>& w, const char* what)
{
	std::vector<AcceleratorComponent*> el; auto bl = m.GetBeamline(); for(auto i = bl.begin(); i != bl.end(); ++i) if((*i)->IsComponent()) el.push_back(&(*i)->GetComponent());
	if(!c.check(el.size() == w.size(), "component-count", "%s: %zu components for a table that describes %zu", what, el.size(), w.size())) { for(size_t i = 0; i < std::min(el.size(), w.size()); i++) if(el[i]->GetName() != w[i].name) { c.check(false, "component-missing", "%s: component %zu is %s, row says %s %s", what, i, el[i]->GetName().c_str(), w[i].row.kw.c_str(), w[i].name.c_str()); break; } return; }
	for(size_t i = 0; i < w.size(); i++)
	{
		auto a = el[i]; auto& x = w[i]; if(!c.check(a->GetType() == x.type && a->GetName() == x.name, "component-type", "%s: component %zu is %s %s, row %s describes %s %s", what, i, a->GetType().c_str(), a->GetName().c_str(), x.row.kw.c_str(), x.type.c_str(), x.name.c_str())) continue;
		c.near(a->GetLength(), x.L, 1e-12, 1e-9, "component-length", "%s: %s %s", what, x.type.c_str(), x.name.c_str()); c.near(a->GetComponentLatticePosition(), x.z, 1e-9, 1e-9, "component-position", "%s: %s %s", what, x.type.c_str(), x.name.c_str()); field(c, a, x, what); c.ev("components");
	}
}
template<class T> static void typed(Case& c, AcceleratorModel& m, const std::vector<Want>& w, const char* type) { std::vector<TComponentFrame<T>*> f; m.ExtractTypedComponents(f); size_t n = 0; bool ok = true; for(auto& x : w) if(x.type == type) { if(n < f.size()) ok = ok && f[n]->GetComponent().GetName() == x.name; n++; } c.check(f.size() == n && ok, "typed-frames", "%zu %s frames found, the table has %zu", f.size(), type, n); if(n) c.ev("typed_found"); std::vector<T*> e; m.ExtractTypedElements(e); size_t k = 0; for(auto p : e) if(p->GetType() == type) k++; c.check(k == n, "typed-elements", "%zu %s elements found, the table has %zu", k, type, n); }
static Rows rows(Rng& r, int n, bool angles, bool lines, int& depth)
{
	Rows v; double s = 0; std::vector<std::string> st; depth = 0; static const char* pre[] = {"F_", "S_", "G_", "M_", "", ""};
	for(int i = 0; i < n; i++)
	{
		if(lines && r.chance(0.15) && st.size() < 4) { Row w; w.kw = "LINE"; w.name = pre[r.range(0, 5)] + std::string("SEC") + std::to_string(i); st.push_back(w.name); v.push_back(w); depth = std::max(depth, (int) st.size()); v.push_back(row(r, i, s, angles)); }
		else if(lines && !st.empty() && r.chance(0.2)) { Row w; w.kw = "LINE"; w.name = st.back(); st.pop_back(); v.push_back(w); }
		else v.push_back(row(r, i, s, angles));
	}
	while(!st.empty()) { Row w; w.kw = "LINE"; w.name = st.back(); st.pop_back(); v.push_back(w); } return v;
}
static std::vector<std::string> columns(bool angles) { std::vector<std::string> v; for(auto& x : COLS) if(angles || x != "ANGLE") v.push_back(x); return v; }

FAMILY(tables, 160, 1600)
{
	auto& r = c.rng; Quiet q; int depth; bool angles = r.chance(0.7), lines = r.chance(0.4), viaFile = r.chance(0.3); Rows v = rows(r, r.range(1, 60), angles, lines, depth); double P = r.logu(0.5, 7000), z = 0; if(r.chance(0.1)) P = -P; Opt o; o.single = r.chance(0.25); o.sr = r.chance(0.25) && P > 0; if(o.sr) P = r.logu(1, 60); o.flat = r.chance(0.3); o.honour = r.chance(0.5);
	double P0 = P; if(r.chance(0.3)) { o.drift.insert(r.pick<std::string>({"SEXTUPOLE", "VKICKER", "MONITOR", "COLLIMATOR", "SBEND"})); c.ev("as_drift"); } if(r.chance(0.3)) { o.zero.insert(r.pick<std::string>({"MONITOR", "COLLIMATOR", "HKICKER", "QUADRUPOLE", "ECOLLIMATOR"})); c.ev("ignore_zero"); } if(o.drift.count("SBEND")) o.sr = false;
	auto w = expect(v, P, z, o); std::string t = table(r, v, columns(angles), r.chance(0.5)); std::istringstream is(t); std::string fn = vh::scratch() + "/i03.tfs"; if(viaFile) { std::ofstream f(fn); f << t; c.ev("from_file"); }
	std::unique_ptr<MADInterface> mad; std::unique_ptr<AcceleratorModel> m; std::ostringstream log;
	try { mad.reset(viaFile ? new MADInterface(fn, P0) : new MADInterface(&is, P0)); mad->SetSingleCellRF(o.single); mad->ScaleForSynchRad(o.sr); mad->ConstructFlatLattice(o.flat); mad->HonourMadStructure(o.honour); mad->SetLogFile(log); if(r.chance(0.3)) mad->SetLoggingOn(); for(auto& x : o.drift) mad->TreatTypeAsDrift(x); for(auto& x : o.zero) mad->IgnoreZeroLengthType(x); m.reset(mad->ConstructModel()); }
	catch(std::exception& e) { c.check(false, "refused", "valid table refused: %s", e.what()); return; } catch(MerlinException& e) { c.check(false, "refused", "valid table refused: %s", e.Msg()); return; }
	compare(c, *m, w, "table"); c.near(mad->GetMomentum(), P, 0, 1e-12, "momentum-after", "reference momentum after the lattice (radiation scaling %d)", (int) o.sr); if(o.sr && P != P0) c.ev("radiation"); if(o.single) c.ev("single_cell");
	typed<Quadrupole>(c, *m, w, "Quadrupole"); typed<YCor>(c, *m, w, "YCor"); typed<XCor>(c, *m, w, "XCor"); typed<SectorBend>(c, *m, w, "SectorBend"); typed<BPM>(c, *m, w, "BPM"); typed<Sextupole>(c, *m, w, "Sextupole"); typed<Drift>(c, *m, w, "Drift"); typed<SWRFStructure>(c, *m, w, "SWRFStructure"); typed<Collimator>(c, *m, w, "Collimator"); typed<Solenoid>(c, *m, w, "Solenoid");
	// frames
	std::map<std::string, std::string> fr; std::set<std::string> open; for(auto& x : v) if(x.kw == "LINE") { bool pfx = x.name[1] == '_'; if(!o.flat && (pfx || o.honour)) fr[pfx ? x.name.substr(2) : x.name] = !pfx || x.name[0] == 'F' ? "SequenceFrame" : x.name[0] == 'S' ? "SimpleMount" : x.name[0] == 'G' ? "GirderMount" : "MagnetMover"; open.insert(x.name); }
	for(auto& f : fr) { std::vector<ModelElement*> e; m->ExtractModelElements("*." + f.first, e); size_t n = 0; for(auto p : e) if(p->GetName() == f.first && p->GetType() == f.second) n++; c.check(n == 1, "frames", "%zu %s called %s in the model", n, f.second.c_str(), f.first.c_str()); c.ev("frames"); }
	if(fr.empty() && !open.empty()) { for(auto& x : open) { std::vector<ModelElement*> e; m->ExtractModelElements("*." + x, e); c.check(e.empty(), "frames", "frame %s made although structure is not wanted", x.c_str()); } c.ev("flattened"); }
	c.note((uint64_t) w.size()); c.note(z); c.nontrivial(); c.sample(fmt("%zu rows, %zu components, %.4g m, P %.4g GeV, depth %d", v.size(), w.size(), z, P0, depth));
}
FAMILY(appended, 40, 400)
{
	auto& r = c.rng; Quiet q; int n = r.range(2, 4), d; std::vector<std::string> fs; std::vector<Want> w; double z = 0; std::vector<double> Ps; Opt o;
	for(int i = 0; i < n; i++) { Rows v = rows(r, r.range(1, 20), true, r.chance(0.3), d); double P = r.logu(1, 5000); Ps.push_back(P); auto x = expect(v, P, z, o); w.insert(w.end(), x.begin(), x.end()); fs.push_back(vh::scratch() + fmt("/i03_%d.tfs", i)); std::ofstream f(fs.back()); f << table(r, v, columns(true), true); }
	std::unique_ptr<AcceleratorModel> m; try { MADInterface mad(fs[0], Ps[0]); for(int i = 0; i < n; i++) mad.AppendModel(fs[i], Ps[i]); m.reset(mad.GetModel()); } catch(std::exception& e) { c.check(false, "append-refused", "appended tables refused: %s", e.what()); return; } catch(MerlinException& e) { c.check(false, "append-refused", "appended tables refused: %s", e.Msg()); return; }
	if(!c.check(m != nullptr, "append-model", "no model")) return; compare(c, *m, w, "appended tables"); c.ev("appended", n); c.note((uint64_t) w.size()); c.note(z); c.nontrivial();
}
FAMILY(refusals, 60, 600)
{
	auto& r = c.rng; Quiet q; int d, k = c.idx % 6; Rows v = rows(r, r.range(2, 15), true, false, d); double P = 100, z = 0; Opt o; std::string what; bool must = true, drift = false; std::vector<Want> w;
	size_t at = r.range(0, v.size()); Row x; x.name = "ODD"; std::vector<std::string> cols = columns(true);
	if(k == 0) { x.kw = r.pick<std::string>({"MULTIPOLE", "WIRE", "BEAMBEAM"}); x.v["L"] = 0; must = false; what = "zero-length row of unknown type"; w = expect(v, P, z, o); v.insert(v.begin() + at, x); }
	if(k == 1) { x.kw = r.pick<std::string>({"ACDIPOLE", "ELSEPARATOR", "NLLENS", "DIPEDGE"}); x.v["L"] = r.uni(0.1, 3); drift = true; what = "long row of unknown type"; Rows u = v; Row y = x; y.kw = "DRIFT"; u.insert(u.begin() + at, y); w = expect(u, P, z, o); v.insert(v.begin() + at, x); }
	if(k == 2) { x.kw = r.pick<std::string>({"QUADRUPOLE", "SEXTUPOLE", "OCTUPOLE", "SBEND", "SOLENOID"}); for(auto s : {"K1L", "K2L", "K3L", "KS", "ANGLE", "K0L"}) x.v[s] = 0.01; what = "zero-length " + x.kw + " with integrated strength"; v.insert(v.begin() + at, x); }
	if(k == 3) { std::string miss = r.pick<std::string>({"NAME", "KEYWORD", "L"}); what = "table without the column " + miss; std::string t = table(r, v, cols, false); size_t p; while((p = t.find(" " + miss + " ")) != std::string::npos) t.replace(p, miss.size() + 2, " XX" + miss + " "); if((p = t.find(" " + miss + "\n")) != std::string::npos) t.replace(p, miss.size() + 2, " XX" + miss + "\n"); std::istringstream is(t); bool ref = false; try { MADInterface m(&is, P); std::unique_ptr<AcceleratorModel> a(m.ConstructModel()); } catch(std::exception&) { ref = true; } catch(MerlinException&) { ref = true; } c.check(ref, "bad-table", "%s accepted", what.c_str()); c.ev("refused"); c.note((uint64_t) c.idx); c.note((uint64_t) k); c.nontrivial(); return; }
	if(k == 4) { bool ref = false; try { if(r.chance(0.5)) { MADInterface m(vh::scratch() + "/absent.tfs", P); } else { std::istringstream bad(""); bad.setstate(std::ios::failbit); MADInterface m(&bad, P); } } catch(std::exception&) { ref = true; } catch(MerlinException&) { ref = true; } c.check(ref, "missing-file", "an unreadable file was accepted"); c.ev("refused"); c.note((uint64_t) c.idx); c.note((uint64_t) k); c.nontrivial(); return; }
	if(k == 5) { x = v[0]; std::string t = table(r, v, cols, false); size_t p = t.rfind(' '); what = "row with a missing field"; t = t.substr(0, p) + "\n"; std::istringstream is(t); bool ref = false; try { MADInterface m(&is, P); std::unique_ptr<AcceleratorModel> a(m.ConstructModel()); } catch(std::exception&) { ref = true; } catch(MerlinException&) { ref = true; } c.check(ref, "bad-table", "%s accepted", what.c_str()); c.ev("refused"); c.note((uint64_t) c.idx); c.note((uint64_t) k); c.nontrivial(); return; }
	std::string t = table(r, v, cols, false); std::istringstream is(t); bool ref = false; std::unique_ptr<AcceleratorModel> m; try { MADInterface mad(&is, 100); m.reset(mad.ConstructModel()); } catch(std::exception&) { ref = true; } catch(MerlinException&) { ref = true; }
	if(ref) c.ev("refused"); else if(k < 2) { compare(c, *m, w, what.c_str()); c.ev("skipped"); } else c.check(!must, "thin-strength", "%s (row %zu) accepted", what.c_str(), at);
	(void) drift; c.note((uint64_t) c.idx); c.note((uint64_t) k); c.nontrivial();
}
