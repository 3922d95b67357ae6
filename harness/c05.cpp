// C05: aperture tables configure a lattice with the apertures of its own place.
#include "machine.h"
#include "aper.h"
#include "ApertureConfiguration.h"
#include "ApertureSurvey.h"
#include "CollimatorAperture.h"
#include <fstream>
using namespace vh; using namespace mach; using namespace aper;
struct Entry { double s; int k; std::array<double, 4> p; };
struct Quiet { std::ostringstream s; std::streambuf* o; Quiet() : o(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); } };
// everything except octagons can be written as a rect-ellipse
static std::array<L, 4> re(const Entry& e) { switch(e.k) { case CIRCLE: return {e.p[0], e.p[0], e.p[0], e.p[0]}; case ELLIPSE: return {e.p[0], e.p[1], e.p[0], e.p[1]}; case RECTANGLE: return {e.p[0], e.p[1], e.p[0] * M_SQRT2l, e.p[1] * M_SQRT2l}; default: return {e.p[0], e.p[1], e.p[2], e.p[3]}; } }
FAMILY(configure, 2500, 60000)
{
	int cls = c.rng.range(0, 3); // 0,1: ellipse family, 2: octagons, 3: with rectangles
	int n = c.rng.range(2, c.rng.pick({4, 10, 25})); AcceleratorModelConstructor mc; struct El { AcceleratorComponent* a; double s, len; bool own, pre; }; std::vector<El> els; std::vector<Entry> ent;
	std::ostringstream rows; double s = 0; rows << std::fixed << std::setprecision(c.rng.pick({9, 12})); double base[4]; randomShape(c, cls == 2 ? OCTAGON : RECTELLIPSE, base); for(int i = 0; i < 2; i++) base[i] = 0.01 + 0.05 * c.rng.u(); if(cls == 2) { double d = atan2(base[1], base[0]); base[2] = d * 0.6; base[3] = d + (M_PI / 2 - d) * 0.4; } else { base[2] = base[0] * c.rng.uni(0.8, 1.3); base[3] = base[1] * c.rng.uni(0.8, 1.3); }
	int lastk = -1; std::array<double, 4> lastp{}; long nrow = 0; double density = c.rng.pick({1.0, 0.7, 0.4});
	auto row = [&](double end, double len)
	{
		Entry e; e.k = cls == 2 ? OCTAGON : c.rng.pick({(int) CIRCLE, (int) ELLIPSE, (int) RECTELLIPSE, cls == 3 ? (int) RECTANGLE : (int) CIRCLE}); if(lastk >= 0 && c.rng.chance(0.3)) { e.k = lastk; e.p = lastp; }
		else { for(int i = 0; i < 4; i++) e.p[i] = cls == 2 && i > 1 ? base[i] : base[i] * c.rng.pick({1.0, c.rng.uni(0.6, 1.6)}); if(cls == 2) { double d = atan2(e.p[1], e.p[0]); e.p[2] = std::min(e.p[2], 0.9 * d); e.p[3] = std::max(e.p[3], d + (M_PI / 2 - d) * 0.1); } if(e.k == CIRCLE) e.p[1] = e.p[2] = e.p[3] = 0; if(e.k == ELLIPSE || e.k == RECTANGLE) e.p[2] = e.p[3] = 0; if(e.k == RECTANGLE) { e.p[0] = base[0]; e.p[1] = base[1]; } }
		lastk = e.k; lastp = e.p; rows << "\"E" << nrow << "\" \"X\" " << end << " " << len << " " << e.p[0] << " " << e.p[1] << " " << e.p[2] << " " << e.p[3] << " \"" << kname[e.k] << "\"\n"; nrow++;
		e.s = end - len; ent.push_back(e); e.s = end; ent.push_back(e);
	};
	std::vector<std::unique_ptr<Aperture> > given;
	for(int i = 0; i < n; i++)
	{
		bool drift = c.rng.chance(0.55); int t = drift ? DRIFT : c.rng.pick({(int) QUAD, (int) SEXT, (int) SBEND, (int) MARKER, (int) XCOR, (int) SOLENOID, (int) COLL, (int) QUAD});
		double len = c.rng.pick({0.5, 1.0, c.rng.uni(0.2, 5)}); auto* a = make(c, t, fmt("E%d", i), len, 100); if(t == MARKER) len = 0; len = a->GetLength(); a->SetComponentLatticePosition(s);
		bool pre = t == COLL || c.rng.chance(0.05); if(pre && t != MARKER) { given.emplace_back(new CollimatorAperture(0.003, 0.004, 0, len)); a->SetAperture(given.back().get()); } else pre = false;
		switch(t) { case DRIFT: mc.AppendComponent(*static_cast<Drift*>(a)); break; case QUAD: mc.AppendComponent(*static_cast<Quadrupole*>(a)); break; case SEXT: mc.AppendComponent(*static_cast<Sextupole*>(a)); break; case SBEND: mc.AppendComponent(*static_cast<SectorBend*>(a)); break; case MARKER: mc.AppendComponent(*static_cast<Marker*>(a)); break; case XCOR: mc.AppendComponent(*static_cast<XCor*>(a)); break; case SOLENOID: mc.AppendComponent(*static_cast<Solenoid*>(a)); break; default: mc.AppendComponent(*static_cast<Collimator*>(a)); }
		bool own = c.rng.chance(density);
		if(own && t == DRIFT && c.rng.chance(0.3)) { int k = c.rng.range(2, 3); double p = s; for(int j = 0; j < k; j++) { double l = len / k; if(c.rng.chance(0.7)) row(p + l, c.rng.chance(0.3) ? 0 : l); p += l; } c.ev("several-rows"); }
		else if(own) row(s + len, len);
		else if(c.rng.chance(0.5)) { rows << "\"E" << i << "\" \"X\" " << s + len << " " << len << " 0 0 0 0 \"" << kname[CIRCLE] << "\"\n"; c.ev("zero-row"); }
		els.push_back({a, s, len, own, pre}); s += len;
	}
	double total = s; std::unique_ptr<AcceleratorModel> model(mc.GetModel());
	std::string fn = scratch() + "/ap.tfs"; { std::ofstream f(fn); f << "@ NAME %05s \"APERT\"\n* NAME KEYWORD S L APER_1 APER_2 APER_3 APER_4 APERTYPE\n$ %s %s %le %le %le %le %le %le %s\n" << rows.str(); }
	Quiet q; std::ostringstream log;
	std::unique_ptr<ApertureConfiguration> conf(new ApertureConfiguration(fn)); if(c.rng.chance(0.3)) conf->SetLogFile(log);
	if(!c.check(conf->ApertureDataTable.Length() == ent.size(), "entries-read", "%zu of %zu", conf->ApertureDataTable.Length(), ent.size())) return;
	if(ent.empty()) { bool th = false; try { conf->ConfigureElementApertures(model.get()); } catch(std::exception&) { th = true; } for(auto& e : els) c.check(e.pre || e.a->GetAperture() == nullptr, "empty-table"); c.ev("empty-table"); return; }
	conf->ConfigureElementApertures(model.get());
	std::vector<Entry> prof; { Entry e = ent.back(); e.s -= total; prof.push_back(e); } prof.insert(prof.end(), ent.begin(), ent.end()); { Entry e = ent.front(); e.s += total; prof.push_back(e); }
	size_t gi = 0;
	for(auto& e : els)
	{
		Aperture* ap = e.a->GetAperture();
		if(e.pre) { c.check(ap == given[gi++].get(), "existing-aperture-kept"); c.ev("kept"); continue; }
		if(e.len == 0) { c.check(ap == nullptr, "zero-length-untouched"); c.ev("zero-length"); continue; }
		if(!c.check(ap != nullptr, "aperture-installed", "%s", e.a->GetType().c_str())) continue;
		bool drift = e.a->GetType() == "Drift"; if(!drift && !e.own) c.ev("gap-element");
		c.ev(drift ? "drifts" : "magnets");
		for(int i = 0; i < 25; i++)
		{
			double z = c.rng.pick({0.0, e.len, c.rng.uni(0, e.len), c.rng.uni(0, e.len), c.rng.uni(0, e.len)}); if(drift && c.rng.chance(0.2)) { const Entry& x = c.rng.pick(ent); if(x.s > e.s && x.s < e.s + e.len) z = x.s - e.s; }
			double at = e.s + z; bool yes = false, no = false, skip = false; std::array<L, 4> pa{}; int kk = cls == 2 ? OCTAGON : RECTELLIPSE;
			std::vector<std::array<L, 4> > cand;
			if(!drift) // constant: the first table entry at or behind the entrance
			{
				for(auto& x : ent) { std::array<L, 4> a; if(cls == 2) for(int m = 0; m < 4; m++) a[m] = x.p[m]; else a = re(x); if(x.s > e.s - 1e-6) cand.push_back(a); if(x.s > e.s + 1e-6) break; }
				if(cand.empty()) { const Entry& x = ent.back(); std::array<L, 4> a; if(cls == 2) for(int m = 0; m < 4; m++) a[m] = x.p[m]; else a = re(x); cand.push_back(a); c.ev("behind-table"); }
			}
			else for(size_t j = 1; j < prof.size(); j++) if(prof[j].s > prof[j - 1].s + 1e-6)
				{
					if(!(at > prof[j - 1].s - 1e-6 && at < prof[j].s + 1e-6)) continue;
					const Entry &a = prof[j - 1], &b = prof[j]; L f = std::min<L>(1, std::max<L>(0, ((L) at - a.s) / ((L) b.s - a.s)));
					if((a.k == RECTANGLE) != (b.k == RECTANGLE)) { if(f > 0 && f < 1) skip = true; }
					std::array<L, 4> x, y; if(cls == 2) for(int m = 0; m < 4; m++) { x[m] = a.p[m]; y[m] = b.p[m]; } else { x = re(a); y = re(b); }
					for(int m = 0; m < 4; m++) x[m] += f * (y[m] - x[m]); cand.push_back(x); if(a.p != b.p) c.ev("tapered"); if(a.k != b.k) c.ev("type-change"); if(j == 1 || j + 1 == prof.size()) c.ev("wrapped");
				}
			if(drift) for(auto& x : prof) if(fabs(x.s - at) < 1e-6) { std::array<L, 4> a; if(cls == 2) for(int m = 0; m < 4; m++) a[m] = x.p[m]; else a = re(x); cand.push_back(a); }
			if(cand.empty() || skip) continue;
			if(cand.size() > 1) // rounding may put the position inside the step: anything between the two shapes is possible there
			{
				std::array<L, 4> mn = cand[0], mx = cand[0]; for(auto& a : cand) for(int m = 0; m < 4; m++) { mn[m] = std::min(mn[m], a[m]); mx[m] = std::max(mx[m], a[m]); }
				if(cls == 2 && (mn[2] != mx[2] || mn[3] != mx[3])) continue; cand.push_back(mn); cand.push_back(mx); c.ev("joint");
			}
			double x, y; probe(c, kk, cand[0].data(), x, y); for(auto& a : cand) { L m = margin(kk, a.data(), x, y); if(fabsl(m) < 2e-5L) skip = true; (m > 0 ? yes : no) = true; } if(skip) continue;
			bool in = ap->CheckWithinApertureBoundaries(x, y, z); c.check(in ? yes : no, "profile", "%s %s len %g z=%.12g at (%.9g,%.9g): accepted %d, margin %Lg, aperture %s", e.a->GetType().c_str(), e.a->GetName().c_str(), e.len, z, x, y, in, margin(kk, cand[0].data(), x, y), ap->GetType().c_str()); c.ev(in ? "inside" : "outside");
		}
	}
	// survey
	{
		int mode = c.rng.range(0, 2); double step = mode == 0 ? c.rng.range(1, 5) : c.rng.uni(0.1, 1.5); std::ostringstream os; os << std::setprecision(12);
		ApertureSurvey::ApertureSurvey(model.get(), &os, ApertureSurvey::SurveyType(mode), step); std::istringstream is(os.str()); std::string line; std::getline(is, line); size_t nl = 0; double lastS = -1; std::map<std::string, AcceleratorComponent*> by; std::map<std::string, double> pos; for(auto& e : els) { by[e.a->GetName()] = e.a; pos[e.a->GetName()] = e.s; }
		std::vector<double> seen;
		while(std::getline(is, line))
		{
			std::istringstream ls(line); std::string nm, ty; double se, len, ss, l[4]; ls >> nm >> ty >> se >> len >> ss >> l[0] >> l[1] >> l[2] >> l[3]; if(!c.check(bool(ls) && by.count(nm), "survey-line", "%s", line.c_str())) break; nl++; seen.push_back(ss);
			auto* a = by[nm]; c.check(ty == a->GetType(), "survey-type"); c.near(len, a->GetLength(), 1e-9, 1e-9, "survey-length"); c.near(se, pos[nm] + len, 1e-9, 1e-9, "survey-end"); c.check(ss >= pos[nm] - 1e-9 && ss <= se + 1e-9, "survey-inside"); c.check(ss >= lastS - 1e-9, "survey-order"); lastS = ss;
			double z = ss - pos[nm]; if(z < 1e-6 || z > len - 1e-6) continue; bool joint = false; for(auto& x : prof) if(fabs(x.s - ss) < 1e-6) joint = true; if(joint) continue;
			if(a->GetAperture()) for(int d = 0; d < 4; d++) { double ux = d == 0 ? 1 : d == 1 ? -1 : 0, uy = d == 2 ? 1 : d == 3 ? -1 : 0; if(l[d] < 1 - 2e-6) c.check(a->GetAperture()->CheckWithinApertureBoundaries(ux * (l[d] - 2e-6), uy * (l[d] - 2e-6), z) && !a->GetAperture()->CheckWithinApertureBoundaries(ux * (l[d] + 2e-6), uy * (l[d] + 2e-6), z), "survey-limit", "dir %d limit %g", d, l[d]); c.ev("surveyed"); }
		}
		if(mode == 0) { size_t e0 = 0; for(auto& e : els) if(e.len > 0) e0 += size_t(step); c.check(nl == e0, "survey-count", "%zu of %zu", nl, e0); }
		if(mode == 2) for(size_t i = 1; i < seen.size(); i++) c.near(seen[i] - seen[i - 1], step, 1e-9, 1e-9, "survey-step");
	}
	// deleting all apertures leaves none (ours are owned by the model's user; hide them first)
	for(auto& e : els) if(e.pre) e.a->SetAperture(nullptr);
	conf->DeleteAllApertures(model.get()); for(auto& e : els) c.check(e.a->GetAperture() == nullptr, "deleted");
	c.note(total); c.note(uint64_t(ent.size())); c.note(uint64_t(n)); c.nontrivial();
}
