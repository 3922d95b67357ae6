// I04: XTFF files written column by column become the components, frames, apertures and beam they describe.
#include "coll.h"
#include "XTFFInterface.h"
#include "Components.h"
#include "TWRFStructure.h"
#include "TransverseRFStructure.h"
#include "RMSProfileMonitor.h"
#include "SupportStructure.h"
#include "MagnetMover.h"
#include "BeamData.h"
#include "Aperture.h"
#include "RectMultipole.h"
#include <fstream>
#include <unistd.h>
#include <complex>
using namespace coll;
typedef std::complex<double> Cx; static const double CL = 299792458.0, E0 = 1.602176634e-19;
struct Rec { std::string kw, label; double d[11] = {0}; double mu[15] = {0}; };
static std::string fw(double v, int w, int p) { char b[64]; snprintf(b, sizeof b, "%*.*E", w, p, v); return std::string(b).substr(0, w); } // as written; v is what it reads back as
static double q16(double v) { return atof(fw(v, 16, 9).c_str()); } static double q12(double v) { char b[32]; snprintf(b, sizeof b, "%12.6f", v); return atof(b); }
static std::string pad(std::string s, size_t n) { s.resize(n, ' '); return s; }
static std::string lines(const Rec& x) { char l[32]; snprintf(l, sizeof l, "%12.6f", x.d[0]); std::string a = pad(x.kw, 4) + pad(x.label, 16) + l + fw(x.d[1], 16, 9) + fw(x.d[2], 16, 9) + fw(x.d[3], 16, 9) + fw(x.d[4], 16, 9) + " " + pad("TYPE", 16) + " " + fw(x.d[5], 16, 9) + "\n", b; for(int i = 6; i < 11; i++) b += fw(x.d[i], 16, 9); b += " " + pad("fdn", 24) + "\n"; for(int i = 0; i < 15; i++) b += fw(x.mu[i], 16, 9) + (i % 5 == 4 ? "\n" : ""); return a + b; }
struct Want { std::string kw, label, type; double L = 0, brho = 0; Rec r; int ap = 0; double a[2] = {0, 0}; std::vector<std::string> frames; };
struct Opt { bool girders = false, aper = true; std::set<std::string> drift; double nb = 0; };
struct Quiet2 { std::ostringstream e, o; std::streambuf *pe, *po; Quiet2() { pe = std::cerr.rdbuf(e.rdbuf()); po = std::cout.rdbuf(o.rdbuf()); } ~Quiet2() { std::cerr.rdbuf(pe); std::cout.rdbuf(po); } };
static std::string write(Rng& r, const Rec& init, const std::vector<Rec>& v) { std::string h = pad("TWISS  TAPE  8.52/0s", 56); char n[16]; snprintf(n, sizeof n, "%9zu", v.size() + 1); std::string t = h + n + pad("", r.range(0, 20)) + "\n" + pad("title", 80) + "\n" + lines(init); for(auto& x : v) t += lines(x); if(r.chance(0.5)) t += "   0.1 0.2 summary\n"; return t; }
static std::vector<Rec> records(Rng& r, int n, bool girders)
{
	std::vector<Rec> v; std::vector<std::string> st; for(int i = 0; i < n; i++)
	{
		Rec x; x.label = r.pick<std::string>({"E", "QF", "Q1.A", "LONGNAME12345678"}) + ""; if(x.label.size() < 16) x.label += std::to_string(i); x.d[0] = q12(r.uni(0.05, 5)); for(auto& q : x.mu) q = q16(r.sym(100)); x.d[5] = q16(r.logu(1, 100)); if(r.chance(0.5)) x.d[4] = q16(r.logu(1e-3, 0.1)); double s = r.sgn();
		if(r.chance(0.12)) { x.kw = "MARK"; x.d[0] = 0; if(st.size() && r.chance(0.45)) { x.label = st.back(); if(girders) st.pop_back(); else st.pop_back(); } else if(st.size() < 3) { x.label = r.pick<std::string>({"F_", "S_", "G_", "M_"}) + "X" + std::to_string(i); st.push_back(x.label); Rec y = x; v.push_back(y); x = Rec(); x.kw = "DRIF"; x.label = "IN" + std::to_string(i); x.d[0] = q12(r.uni(0.05, 5)); } else x.label = "MK"; v.push_back(x); continue; }
		switch(r.range(0, 21))
		{
		case 0: case 1: x.kw = "QUAD"; x.d[2] = q16(s * r.logu(1e-3, 2)); if(r.chance(0.3)) x.d[6] = q16(r.pick({0.785398163, -0.785398163})); break; case 2: x.kw = "SEXT"; x.d[3] = q16(s * r.logu(1e-2, 50)); if(r.chance(0.3)) x.d[6] = q16(r.pick({0.523598776, -0.523598776})); break;
		case 3: x.kw = "OCTU"; x.d[7] = q16(s * r.logu(1e-2, 500)); break; case 4: x.kw = "DECA"; x.d[7] = q16(s * r.logu(1e-2, 500)); break;
		case 5: case 6: case 7: x.kw = r.chance(0.5) ? "SBEN" : "RBEN"; x.d[1] = q16(r.chance(0.1) ? 0 : s * r.logu(1e-5, 0.5)); if(x.d[1] != 0 && r.chance(0.4)) x.d[2] = q16(r.sym(0.5)); if(r.chance(0.3)) x.d[6] = q16(r.sym(3)); if(x.kw == "SBEN") { if(r.chance(0.6)) x.d[7] = q16(r.sym(0.3)); if(r.chance(0.6)) x.d[8] = q16(r.sym(0.3)); } break;
		case 8: case 9: case 10: x.kw = "LCAV"; x.d[7] = q16(r.logu(100, 12000)); x.d[8] = q16(r.chance(0.05) ? 0 : r.logu(0.1, 300)); x.d[9] = q16(r.pick({0.0, r.sym(0.2), r.sym(0.5)})); if(r.chance(0.5)) x.d[10] = q16(r.logu(1e12, 1e15)); break;
		case 11: x.kw = "LCAV"; x.label = r.pick<std::string>({"CRABH", "CRABV"}) + std::to_string(i); x.d[7] = q16(r.logu(100, 12000)); x.d[8] = q16(r.sym(20)); x.d[9] = q16(r.sym(0.5)); break;
		case 12: x.kw = "SOLE"; x.d[7] = q16(s * r.logu(1e-3, 1)); break; case 13: x.kw = r.pick<std::string>({"HKIC", "VKIC"}); if(r.chance(0.5)) x.d[0] = 0; if(r.chance(0.2)) x.d[x.kw == "HKIC" ? 6 : 7] = q16(s * r.logu(1e-6, 1e-3)); break; case 14: x.kw = r.pick<std::string>({"MONI", "HMON", "VMON"}); if(r.chance(0.5)) x.d[0] = 0; break; case 15: x.kw = "WIRE"; if(r.chance(0.5)) x.d[0] = 0; break;
		case 16: x.kw = "RCOL"; x.d[4] = 0; x.d[6] = q16(r.logu(1e-4, 1e-2)); x.d[7] = q16(r.logu(1e-4, 1e-2)); break; case 17: x.kw = "SROT"; x.d[0] = 0; x.d[7] = q16(r.sym(1)); break; case 18: x.kw = r.pick<std::string>({"ECOL", "MULT", "INST", "ROLL", "BLMO"}); break; case 19: x.kw = "MARK"; x.label = r.pick<std::string>({"VPIV", "MK", "M"}); x.d[0] = 0; break; default: x.kw = "DRIF";
		}
		v.push_back(x);
	}
	while(st.size()) { Rec x; x.kw = "MARK"; x.label = st.back(); st.pop_back(); v.push_back(x); } return v;
}
static std::vector<Want> expect(const std::vector<Rec>& v, const Opt& o, double& P, double& z, std::vector<std::string>& warned)
{
	std::vector<Want> w; std::vector<std::string> st; for(auto& x : v)
	{
		Want a; a.r = x; a.kw = x.kw; a.label = x.label; a.L = x.d[0]; std::string kw = x.kw; if(o.drift.count(kw) || ((kw == "HMON" || kw == "VMON") && o.drift.count("MONI"))) { warned.push_back(o.drift.count(kw) ? kw : "MONI"); kw = "DRIF"; }
		static const std::map<std::string, std::string> T{{"DRIF", "Drift"}, {"QUAD", "Quadrupole"}, {"SBEN", "SectorBend"}, {"RBEN", "SectorBend"}, {"SEXT", "Sextupole"}, {"OCTU", "Octupole"}, {"DECA", "Decapole"}, {"LCAV", "TWRFStructure"}, {"SOLE", "Solenoid"}, {"HKIC", "XCor"}, {"VKIC", "YCor"}, {"MONI", "BPM"}, {"HMON", "BPM"}, {"VMON", "BPM"}, {"WIRE", "RMSProfileMonitor"}, {"MARK", "Marker"}, {"RCOL", "Drift"}};
		if(kw == "SROT") continue; if(kw == "MARK" && o.girders && x.label.size() > 1 && x.label[1] == '_') { if(st.size() && st.back() == x.label) st.pop_back(); else st.push_back(x.label); continue; }
		if(!T.count(kw)) { warned.push_back(kw); a.type = "Drift"; } else a.type = T.at(kw); if(kw == "MARK") a.L = 0; a.kw = kw; a.brho = P * 1e9 / CL; a.frames = st;
		if(kw == "QUAD" && x.d[6] != 0) a.type = "SkewQuadrupole"; if(kw == "SEXT" && x.d[6] != 0) a.type = "SkewSextupole"; if(kw == "LCAV" && x.label.compare(0, 4, "CRAB") == 0) a.type = "TransverseRFStructure"; if(kw == "RBEN" && x.d[1] != 0) a.L = x.d[0] * (x.d[1] / 2) / sin(x.d[1] / 2);
		if(kw == "LCAV" && a.type == "TWRFStructure") { P += x.d[8] * 1e-3 * cos(2 * M_PI * x.d[9]) - x.d[10] * o.nb * E0 * 1e-9; }
		if(o.aper && x.d[4] != 0) { a.ap = 1; a.a[0] = x.d[4]; } else if(o.aper && kw == "RCOL") { a.ap = 2; a.a[0] = x.d[6]; a.a[1] = x.d[7]; }
		z += a.L; w.push_back(a);
	}
	return w;
}
static void field(Case& c, AcceleratorComponent* e, const Want& w)
{
	auto& r = c.rng; auto near = [&](double a, double b, const char* k, const char* what) { c.near(a, b, 1e-15, 3e-9, k, "%s %s %s", w.type.c_str(), w.label.c_str(), what); };
	auto at = [&](double x, double y) { Vector3D B = e->GetEMField()->GetBFieldAt(Point3D(x, y, 0), 0); return Cx(B.y, B.x); }; const double* d = w.r.d; double x = r.sym(0.05), y = r.sym(0.05); Cx Z(x, y), F = 0; bool mult = false;
	if(w.type == "Quadrupole" || w.type == "SkewQuadrupole") F = w.brho * d[2] * Z * std::polar(1.0, -2 * d[6]), mult = true; if(w.type == "Sextupole" || w.type == "SkewSextupole") F = w.brho * d[3] / 2 * Z * Z * std::polar(1.0, -3 * d[6]), mult = true; if(w.type == "Octupole") F = w.brho * d[7] / 6 * Z * Z * Z, mult = true; if(w.type == "Decapole") F = w.brho * d[7] / 24 * Z * Z * Z * Z, mult = true;
	if(mult) { Cx G = at(x, y); c.check(std::abs(G - F) <= 1e-7 * std::abs(F) + 1e-18, "field/multipole", "%s %s: (%g,%g) at (%g,%g), record gives (%g,%g)", w.type.c_str(), w.label.c_str(), G.real(), G.imag(), x, y, F.real(), F.imag()); c.ev("multipoles"); if(d[6]) c.ev(d[6] < 0 ? "skew-negative" : "skew"); return; }
	if(auto b = dynamic_cast<SectorBend*>(e))
	{
		double h = d[1] / w.L; near(b->GetGeometry().GetCurvature(), h, "field/bend", "curvature"); Cx G = at(x, y), B = w.brho * (h + d[2] * Z); c.check(std::abs(G - B) <= 3e-9 * std::abs(B) + 1e-15, "field/bend", "%s: (%g,%g), record gives (%g,%g)", w.label.c_str(), G.real(), G.imag(), B.real(), B.imag()); near(b->GetGeometry().GetTilt(), d[6], "field/bend", "tilt");
		auto& pf = b->GetPoleFaceInfo(); double e1 = w.kw == "RBEN" ? d[1] / 2 : d[7], e2 = w.kw == "RBEN" ? d[1] / 2 : d[8]; near(pf.entrance ? pf.entrance->rot : 0, e1, "field/pole-face", "entrance"); near(pf.exit ? pf.exit->rot : 0, e2, "field/pole-face", "exit"); if(pf.entrance) near(pf.entrance->hgap, d[4], "field/pole-face", "gap"); if(pf.exit) near(pf.exit->hgap, d[4], "field/pole-face", "gap"); c.ev(w.kw == "RBEN" ? "rbends" : "sbends"); if(d[1] == 0) c.ev("straight-bends"); return;
	}
	if(auto s = dynamic_cast<Solenoid*>(e)) { near(s->GetBz(), w.brho * d[7], "field/solenoid", "Bz"); c.ev("solenoids"); }
	if(auto f = dynamic_cast<RFStructure*>(e)) { near(f->GetAmplitude(), d[8] * 1e-3 / w.L, "field/cavity", "gradient"); near(f->GetFrequency(), d[7] * 1e6, "field/cavity", "frequency"); c.near(f->GetPhase(), 2 * M_PI * d[9], 1e-12, 1e-12, "field/cavity", "phase of %s", w.label.c_str()); if(auto t = dynamic_cast<TransverseRFStructure*>(e)) { near(t->GetFieldOrientation(), w.label[4] == 'V' ? M_PI / 2 : 0, "field/cavity", "orientation"); c.ev("crabs"); } else c.ev("cavities"); }
	if(w.type == "XCor" || w.type == "YCor") { double k = d[w.type == "XCor" ? 6 : 7]; Cx G = at(0, 0); double B = w.brho * k / (w.L > 0 ? w.L : 1); Cx F2 = w.type == "XCor" ? Cx(-B, 0) : Cx(0, B); if(k == 0) c.check(G == Cx(0, 0), "field/corrector", "%s has a field without a kick", w.label.c_str()); else c.check(std::abs(G - F2) <= 1e-8 * std::abs(F2), "kicker-strength", "%s %s: kick %g of the record, field (%g,%g)", w.kw.c_str(), w.label.c_str(), k, G.real(), G.imag()); c.ev("correctors"); }
	if(auto m = dynamic_cast<RMSProfileMonitor*>(e)) { (void) m; c.ev("wires"); }
}
static void compare(Case& c, AcceleratorModel& m, const std::vector<Want>& w, const Opt& o)
{
	std::vector<AcceleratorComponent*> el; std::vector<ComponentFrame*> fr; auto bl = m.GetBeamline(); for(auto i = bl.begin(); i != bl.end(); ++i) if((*i)->IsComponent()) { el.push_back(&(*i)->GetComponent()); fr.push_back(*i); }
	if(!c.check(el.size() == w.size(), "component-count", "%zu components for records of %zu", el.size(), w.size())) return; double z = 0;
	for(size_t i = 0; i < w.size(); i++)
	{
		auto a = el[i]; auto& x = w[i]; if(!c.check(a->GetType() == x.type && a->GetName() == x.label, "component-type", "component %zu is %s %s, record %s describes %s %s", i, a->GetType().c_str(), a->GetName().c_str(), x.r.kw.c_str(), x.type.c_str(), x.label.c_str())) continue;
		c.near(a->GetLength(), x.L, 1e-15, 1e-12, "component-length", "%s %s", x.type.c_str(), x.label.c_str()); field(c, a, x); c.near(fr[i]->GetPosition(), z + (fr[i]->GetGeometryLength() / 2), 1e-9, 1e-11, "component-position", "%s %s", x.type.c_str(), x.label.c_str()); z += x.L; c.ev("components");
		auto ap = a->GetAperture(); if(x.ap == 0) c.check(ap == nullptr, "aperture", "%s has an aperture its record does not define", x.label.c_str()); else if(c.check(ap != nullptr, "aperture", "%s lacks its aperture", x.label.c_str())) for(int k = 0; k < 6; k++) { double s = k & 1 ? 0.999 : 1.001, t = c.rng.uni(0, 2 * M_PI), px, py; if(x.ap == 1) { px = s * x.a[0] * cos(t); py = s * x.a[0] * sin(t); } else { bool hx = c.rng.chance(0.5); px = x.a[0] * (hx ? s * c.rng.sgn() : c.rng.sym(0.99)); py = x.a[1] * (hx ? c.rng.sym(0.99) : s * c.rng.sgn()); } c.check(ap->CheckWithinApertureBoundaries(px, py, 0) == (s < 1), "aperture", "%s %s: (%g, %g) %s for sizes %g %g", x.r.kw.c_str(), x.label.c_str(), px, py, s < 1 ? "refused" : "accepted", x.a[0], x.a[1]); c.ev(x.ap == 1 ? "round-apertures" : "rectangular-apertures"); }
	}
	// frames: what a component moves with
	if(o.girders) { std::map<std::string, std::vector<size_t>> in; for(size_t i = 0; i < w.size(); i++) for(auto& f : w[i].frames) in[f].push_back(i); for(auto& f : in) { std::vector<ModelElement*> e; m.ExtractModelElements("*." + f.first.substr(2), e); SequenceFrame* s = nullptr; size_t n = 0; for(auto p : e) if(p->GetName() == f.first.substr(2)) if(auto q = dynamic_cast<SequenceFrame*>(p)) { s = q; n++; } if(!c.check(n == 1, "frames", "%zu frames called %s", n, f.first.c_str())) continue; std::string t = f.first[0] == 'F' ? "SequenceFrame" : f.first[0] == 'S' ? "SimpleMount" : f.first[0] == 'G' ? "GirderMount" : "MagnetMover"; c.check(s->GetType() == t, "frames", "%s is a %s", f.first.c_str(), s->GetType().c_str());
		std::vector<std::vector<double>> before; auto pose = [&](size_t i) { Transform3D T = fr[i]->GetPhysicalTransform(); return std::vector<double>{T.X().x, T.X().y, T.X().z}; }; for(size_t i = 0; i < fr.size(); i++) before.push_back(pose(i)); s->Translate(0, 1e-3, 0); std::set<size_t> moved(f.second.begin(), f.second.end()); for(size_t i = 0; i < fr.size(); i++) { auto p = pose(i); double q = 0; for(int k = 0; k < 3; k++) q += fabs(p[k] - before[i][k]); c.check((q > 1e-4) == (moved.count(i) > 0), "frames", "%s %s with %s", w[i].label.c_str(), q > 1e-4 ? "moves" : "does not move", f.first.c_str()); } s->ClearLocalFrameTransform(); c.ev("frames"); } }
}
static Rec initial(Rng& r, double P) { Rec i; i.kw = "    "; i.label = "INITIAL"; i.d[5] = q16(P); for(int k = 0; k < 15; k++) i.mu[k] = q16(k == 1 || k == 6 ? r.logu(0.1, 100) : r.sym(1)); return i; }
static void beam(Case& c, const BeamData& b, const Rec& i, double nb) { const double* m = i.mu; c.check(b.alpha_x == m[0] && b.beta_x == m[1] && b.Dx == m[3] && b.Dxp == m[4] && b.alpha_y == m[5] && b.beta_y == m[6] && b.Dy == m[8] && b.Dyp == m[9] && b.x0 == m[10] && b.xp0 == m[11] && b.y0 == m[12] && b.yp0 == m[13], "beam", "initial conditions differ from the header"); c.near(b.p0, i.d[5], 0, 1e-15, "beam", "momentum"); c.near(b.charge, nb, 0, 1e-15, "beam", "charge"); c.check(b.emit_x == 0 && b.emit_y == 0 && b.sig_dp == 0 && b.sig_z == 0 && b.ct0 == 0, "beam", "what the header does not give is not zero"); }
static void warnings(Case& c, const std::string& e, const std::vector<std::string>& w) { std::istringstream in(e); std::string l; std::vector<std::string> got; while(std::getline(in, l)) { size_t p = l.find("treating "); if(p != std::string::npos) got.push_back(l.substr(p + 9, l.find(' ', p + 9) - p - 9)); } c.check(got == w, "reports", "%zu reports of elements treated as drifts, expected %zu; first \"%s\"", got.size(), w.size(), got.empty() ? "" : got[0].c_str()); c.ev("reports", w.size()); }
static Opt options(Rng& r) { Opt o; o.girders = r.chance(0.5); o.aper = r.chance(0.8); if(r.chance(0.4)) o.drift.insert(r.pick<std::string>({"QUAD", "HMON", "MONI", "LCAV", "RCOL", "WIRE", "SBEN", "VKIC"})); o.nb = r.pick({0.0, r.logu(1e9, 1e11)}); return o; }
static void setup(Case& c, XTFFInterface& x, const Opt& o) { x.IncludeApertures(o.aper); x.ConstructGirders(o.girders); for(auto d : o.drift) { if(c.rng.chance(0.5)) for(auto& q : d) q = tolower(q); x.TreatTypeAsDrift(d); c.ev("as-drift"); } }
FAMILY(files, 250, 3000)
{
	auto& r = c.rng; Opt o = options(r); double P = r.logu(1, 500); auto v = records(r, r.range(1, 60), o.girders); Rec ini = initial(r, P); P = ini.d[5]; double Pr = r.chance(0.3) ? r.logu(1, 500) : P, Pe = Pr, z = 0; std::vector<std::string> warn; auto w = expect(v, o, Pe, z, warn); std::string fn = vh::scratch() + "/i04.xtff"; { std::ofstream f(fn); f << write(r, ini, v); }
	std::ostringstream log; std::unique_ptr<AcceleratorModel> m; std::unique_ptr<BeamData> b; Quiet2 q; try { bool wl = r.chance(0.5); XTFFInterface x(fn, o.nb, wl ? &log : nullptr); setup(c, x, o); auto p = Pr == P ? x.Parse() : x.Parse(Pr); m.reset(p.first); b.reset(p.second); if(Pr != P) c.ev("reference-momentum"); if(wl) { size_t k = log.str().find("beam energy: ", log.str().find("Final")); if(c.check(k != std::string::npos, "log", "no final energy")) c.near(atof(log.str().c_str() + k + 13), Pe, 2e-3, 1e-5, "log", "final energy"); c.ev("logs"); } }
	catch(std::exception& e) { c.fail("refused", vh::fmt("valid file refused: %s", e.what())); return; } catch(MerlinException& e) { c.fail("refused", vh::fmt("valid file refused: %s", e.Msg())); return; }
	if(!c.check(m && b, "refused", "no model")) return; beam(c, *b, ini, o.nb); compare(c, *m, w, o); warnings(c, q.e.str(), warn); if(o.nb) c.ev("beam-loading"); unlink(fn.c_str()); c.note((uint64_t) w.size()); c.note(z); c.nontrivial(); c.sample(vh::fmt("%zu records, %zu components, %.4g m, %.4g GeV", v.size(), w.size(), z, Pe));
}
FAMILY(appended, 80, 800) // several files, then another model from the same reader
{
	auto& r = c.rng; Opt o = options(r); Quiet2 q; XTFFInterface x(o.nb); setup(c, x, o); int models = r.range(1, 3); std::string fn = vh::scratch() + "/i04a.xtff"; std::vector<std::string> warn;
	for(int k = 0; k < models; k++)
	{
		int n = r.range(1, 3); double P = 0, z = 0; std::vector<Want> w; Rec first; for(int i = 0; i < n; i++) { auto v = records(r, r.range(1, 20), o.girders); for(auto& e : v) if(e.kw == "MARK" && e.label.size() > 1 && e.label[1] == '_') e.label += (char) ('a' + i); Rec ini = initial(r, r.logu(1, 500)); if(i == 0) { first = ini; P = ini.d[5]; } auto ww = expect(v, o, P, z, warn); w.insert(w.end(), ww.begin(), ww.end()); { std::ofstream f(fn); f << write(r, ini, v); }
			try { if(r.chance(0.1)) { bool ref = false; try { x.AppendModel(vh::scratch() + "/absent.xtff"); } catch(std::exception&) { ref = true; } c.check(ref, "missing-file", "a missing file was accepted"); c.ev("missing"); } x.AppendModel(fn); } catch(std::exception& e) { c.fail("refused", vh::fmt("valid file refused: %s", e.what())); return; } catch(MerlinException& e) { c.fail("refused", vh::fmt("valid file refused: %s", e.Msg())); return; } }
		auto p = x.GetModel(); std::unique_ptr<AcceleratorModel> m(p.first); std::unique_ptr<BeamData> b(p.second); if(!c.check(m && b, "refused", "no model")) return; beam(c, *b, first, o.nb); compare(c, *m, w, o); c.ev("appended", n); if(k) c.ev("second-model"); c.note(z); c.note((uint64_t) w.size());
	}
	warnings(c, q.e.str(), warn); unlink(fn.c_str()); c.nontrivial();
}
FAMILY(refusals, 60, 600)
{
	auto& r = c.rng; Quiet2 q; Opt o; int k = c.idx % 4; auto v = records(r, r.range(3, 15), false); Rec ini = initial(r, 10); std::string t, fn = vh::scratch() + "/i04r.xtff", what; bool ref = false; size_t warned = 0;
	if(k == 0) { try { XTFFInterface x(vh::scratch() + "/absent.xtff"); } catch(std::exception&) { ref = true; } c.check(ref, "missing-file", "a missing file was accepted"); c.ev("missing"); c.note((uint64_t) c.idx); c.note(0.0); c.nontrivial(); return; }
	t = write(r, ini, v); if(k == 1) { std::string u; std::istringstream in(t); std::string l; int n = 0, stop = 2 + 5 * (r.range(1, (int) v.size() - 1) + 1); while(n++ < stop && std::getline(in, l)) u += l + "\n"; t = u; what = "truncated file"; } // header promises more records
	if(k == 2) { Rec x; x.kw = "LCAV"; x.label = r.pick<std::string>({"CRAB", "CRABX1"}); x.d[0] = 1; x.d[7] = 1000; v[0] = x; t = write(r, ini, v); what = "crab cavity without a plane"; }
	if(k == 3) { Rec x; x.kw = r.pick<std::string>({"QUAD", "SEXT", "OCTU", "DECA"}); x.label = "TILTED"; x.d[0] = 1; x.d[2] = 1; x.d[6] = q16(r.sgn() * r.uni(0.05, 0.4)); v[0] = x; t = write(r, ini, v); what = "tilt that cannot be modelled"; }
	{ std::ofstream f(fn); f << t; } std::unique_ptr<AcceleratorModel> m; try { XTFFInterface x(fn); auto p = x.Parse(); m.reset(p.first); delete p.second; } catch(std::exception&) { ref = true; } catch(MerlinException&) { ref = true; } warned = q.e.str().find("TILTED") != std::string::npos;
	c.check(ref || (k == 3 && warned), "reports", "%s: neither refused nor reported", what.c_str()); c.ev(k == 1 ? "truncated" : k == 2 ? "crab-plane" : "tilts"); unlink(fn.c_str()); c.note((uint64_t) c.idx); c.note((uint64_t) v.size()); c.nontrivial();
}
