// G01: geometry transforms along paths.
#include "vh.h"
#include "pose.h"
#include "ArcGeometry.h"
#include "RectangularGeometry.h"
#include "SequenceFrame.h"
#include "ComponentFrame.h"
#include "PatchFrame.h"
#include "GeometryPatch.h"
#include "SectorBend.h"
#include "Drift.h"
#include "StandardMultipoles.h"
#include "Marker.h"
using namespace vh;
typedef long double L;
typedef AcceleratorGeometry AG;

static double curv(Case& c, double len) { double a = c.rng.pick({0.0, c.rng.sgn() * c.rng.logu(1e-12, 1e-3), c.rng.sym(1.5), c.rng.sym(6)}); return len > 0 ? a / len : 0; }
template<class F> static bool refused(F f) { try { f(); } catch(AG::BeyondExtent&) { return true; } return false; }

FAMILY(single, 20000, 600000)
{
	double len = c.rng.pick({0.0, 1.0, c.rng.logu(1e-6, 1e3)}); bool isarc = c.rng.chance(0.6); double h = isarc ? curv(c, len) : 0;
	std::unique_ptr<AG> g(isarc ? (AG*) new ArcGeometry(len, h) : (AG*) new RectangularGeometry(len));
	auto path = [&](L a, L b) { return pose::arc(b - a, h); };
	L sc = len + 1e-300;
	auto cmp = [&](const Transform3D& t, const pose::T& e, const char* key) { c.check(pose::diff(pose::of(t), e, sc) < 1e-14, key, "len=%g h=%g diff=%Lg", len, h, pose::diff(pose::of(t), e, sc)); };
	for(int i = 0; i < 6; i++)
	{
		auto pos = [&]() { double p = c.rng.pick({-len / 2, len / 2, 0.0, c.rng.uni(-len / 2, len / 2)}); return p; };
		double a = pos(), b = pos(), d = pos();
		Transform3D ab = g->GetGeometryTransform(a, b);
		cmp(ab, path(a, b), "path"); cmp(g->GetGeometryTransform(b), path(0, b), "from-origin");
		cmp(g->GetGeometryTransform(b, a) * ab, pose::T(), "there-and-back"); cmp(g->GetGeometryTransform(b, d) * ab, path(a, d), "compose");
		c.ev(b < a ? "backward" : "forward");
	}
	cmp(g->GetTotalGeometryTransform(), path(0, len), "total"); cmp(g->GetGeometryTransform(AG::entrance), path(0, -len / 2), "entrance"); cmp(g->GetGeometryTransform(AG::exit), path(0, len / 2), "exit");
	AG::Extent e = g->GetGeometryExtent(); c.check(e.first == -len / 2 && e.second == len / 2 && g->GetGeometryLength() == len && ToLength(e) == len, "extent");
	double out = (len / 2 + c.rng.logu(1e-9, 10) * (len + 1)) * c.rng.sgn();
	c.check(refused([&] { g->GetGeometryTransform(0, out); }) && refused([&] { g->GetGeometryTransform(out, 0); }) && refused([&] { g->GetGeometryTransform(out); }), "outside-accepted", "len=%g s=%g", len, out); c.ev("outside");
	c.ev(isarc ? (h == 0 ? "flat-arc" : h > 0 ? "arc+" : "arc-") : "straight"); c.note(len); c.note(h); c.nontrivial();
	c.sample(fmt("%s len=%g h=%g", isarc ? "arc" : "straight", len, h));
}

// nested sequences: leaves as (length, curvature) or patch transform
struct Leaf { L len; L h; bool patch; pose::T t; };
struct Model
{
	std::vector<AcceleratorComponent*> comps; std::vector<LatticeFrame*> frames; std::vector<GeometryPatch*> patches;
	~Model() { for(auto f : frames) delete f; for(auto x : comps) delete x; }
};
static bool gridlen;
static LatticeFrame* leaf(Case& c, Model& m, std::vector<Leaf>& out, bool patches)
{
	double len = gridlen ? c.rng.pick({0.25, 0.5, 1.0, 2.0}) : c.rng.pick({c.rng.uni(0.01, 3), 0.1, 0.3, 0.7, c.rng.logu(1e-3, 50)});
	int k = c.rng.range(0, patches ? 4 : 3);
	if(k == 4)
	{
		GeometryPatch* g = new GeometryPatch; pose::T t;
		for(int i = c.rng.range(0, 3); i > 0; i--)
		{
			double a = c.rng.sym(0.5);
			switch(c.rng.range(0, 3))
			{
			case 0: g->RotateX(a); t = pose::rotT(0, a) * t; break;
			case 1: g->RotateY(a); t = pose::rotT(1, a) * t; break;
			case 2: g->RotateZ(a); t = pose::rotT(2, a) * t; break;
			default: { double x = c.rng.sym(1), y = c.rng.sym(1), z = c.rng.sym(1); g->Translate(x, y, z); t = pose::trans(x, y, z) * t; }
			}
		}
		auto f = new PatchFrame(g, "patch"); m.frames.push_back(f); out.push_back({0, 0, true, t}); c.ev("patch"); return f;
	}
	AcceleratorComponent* a;
	if(k == 0) { a = new Marker("m"); out.push_back({0, 0, false, pose::T()}); }
	else if(k == 1) { a = c.rng.chance(0.5) ? (AcceleratorComponent*) new Drift("d", len) : new Quadrupole("q", len, 1.0); out.push_back({len, 0, false, pose::T()}); }
	else { double h = curv(c, len) / 3; if(fabs(h) > 20) h = 0.1; a = new SectorBend("b", len, h, 1.0); out.push_back({len, h, false, pose::T()}); }
	m.comps.push_back(a); auto f = new ComponentFrame(*a); m.frames.push_back(f); return f;
}
static const SequenceFrame::Origin ORG[3] = {SequenceFrame::originAtEntrance, SequenceFrame::originAtCenter, SequenceFrame::originAtExit};
struct Seq { SequenceFrame* f; int org; size_t i0, i1; };
static SequenceFrame* sequence(Case& c, Model& m, std::vector<Leaf>& out, std::vector<Seq>& seqs, int depth, bool patches, int big)
{
	int org = c.rng.range(0, 2); auto f = new SequenceFrame("s", ORG[org]); m.frames.push_back(f); size_t i0 = out.size();
	int n = big ? big : c.rng.pick({1, 2, 3, 5, 8}); if(!big && c.rng.chance(0.03)) n = 0;
	for(int i = 0; i < n; i++)
		if(depth > 0 && c.rng.chance(0.3)) f->AppendFrame(*sequence(c, m, out, seqs, depth - 1, patches, 0));
		else f->AppendFrame(*leaf(c, m, out, patches));
	seqs.push_back({f, org, i0, out.size()});
	return f;
}
static void seqcase(Case& c, bool patches, int big)
{
	gridlen = c.rng.chance(0.4) && !patches;
	Model m; std::vector<Leaf> lv; std::vector<Seq> seqs; SequenceFrame* top = sequence(c, m, lv, seqs, big ? 1 : 3, patches, big);
	bool pre = c.rng.chance(0.1); // geometry is meaningful before consolidation as well
	if(!pre) top->ConsolidateConstruction(); else c.ev("before-consolidation");
	LatticeFrame* cp = nullptr; if(c.rng.chance(0.3)) { cp = static_cast<LatticeFrame*>(top->Copy()); c.ev("copies"); seqs.push_back({static_cast<SequenceFrame*>(cp), seqs.back().org, 0, lv.size()}); }
	for(size_t q = 0; q < seqs.size(); q++)
	{
		if(seqs.size() > 4 && !c.rng.chance(0.6) && q + 1 < seqs.size()) continue;
		SequenceFrame* f = seqs[q].f; L total = 0; std::vector<L> edges{0}; std::vector<L> pat;
		for(size_t i = seqs[q].i0; i < seqs[q].i1; i++) { if(lv[i].patch) pat.push_back(total); total += lv[i].len; edges.push_back(total); }
		L off = seqs[q].org == 0 ? 0 : seqs[q].org == 1 ? -total / 2 : -total;
		auto pose_at = [&](L s, bool end = false) { pose::T t; L l = 0; for(size_t i = seqs[q].i0; i < seqs[q].i1; i++) { if(lv[i].patch) { if(s > l + 1e-9L || end) t = lv[i].t * t; continue; } L d = std::min(lv[i].len, std::max<L>(0, s - l)); t = pose::arc(d, lv[i].h) * t; l += lv[i].len; } return t; };
		double ro = total > 0 ? 0 : 0; (void) ro;
		L hm = 0; for(auto& l : lv) hm = std::max(hm, fabsl(l.h));
		L sc = total + 1, tol = 2e-15 * (20 + 4 * (seqs[q].i1 - seqs[q].i0)) + 4e-12 * (top->GetGeometryLength() + 1) * (1 + hm);
		if(patches) tol *= 5;
		std::string desc; if(seqs[q].i1 - seqs[q].i0 < 25) for(size_t i = seqs[q].i0; i < seqs[q].i1; i++) desc += lv[i].patch ? " P" : fmt(" %.3Lg/%.2Lg", lv[i].len, lv[i].h);
		auto near_patch = [&](L s) { for(L p : pat) if(fabsl(p - s) < 1e-7L) return true; return false; };
		auto cmp = [&](const Transform3D& t, const pose::T& e, const char* key) { L d = pose::diff(pose::of(t), e, sc); c.check(d < tol, key, "leaves=%zu total=%Lg origin=%d diff=%Lg tol=%Lg %s", seqs[q].i1 - seqs[q].i0, total, seqs[q].org, d, tol, desc.c_str()); };
		AG::Extent e = f->GetLocalGeometryExtent(); double len = f->GetGeometryLength();
		c.near(e.first, off, 1e-13 * sc, 0, "extent"); c.near(e.second, off + total, 1e-13 * sc, 0, "extent"); c.near(len, total, 1e-13 * sc, 0, "length");
		bool mid_patch = false; for(L p : pat) if(fabsl(p + off) < 1e-7L) mid_patch = true;
		if(seqs[q].org != 1 && mid_patch) c.ev("patch-at-origin");
		cmp(f->GetTotalGeometryTransform(), pose_at(total, true), "total");
		if(!mid_patch)
		{
			cmp(f->GetGeometryTransform(AG::entrance), pose::T() * pose_at(-off).inv(), "entrance"); cmp(f->GetGeometryTransform(AG::exit), pose_at(total, true) * pose_at(-off).inv(), "exit");
		}
		auto pos = [&]() { double p; switch(c.rng.range(0, 4)) { case 0: p = c.rng.pick(edges); break; case 1: p = c.rng.pick(edges) + c.rng.sgn() * c.rng.logu(1e-16, 1e-9); break; default: p = c.rng.uni(0, total); } p += off; return std::min(e.second, std::max(e.first, p)); };
		for(int i = 0; i < (big ? 40 : 12); i++)
		{
			double a = pos(), b = pos(); if(a != e.first && a != e.second && near_patch(a - off)) continue; if(b != e.first && b != e.second && near_patch(b - off)) continue; if(e.first == e.second) continue;
			auto PA = [&](double x) { return x == e.first ? pose_at(0) : x == e.second ? pose_at(total, true) : pose_at(x - off); }; auto NP = [&](double x) { return x != e.first && x != e.second && near_patch(x - off); };
			pose::T pa = PA(a), pb = PA(b);
			Transform3D t = f->GetGeometryTransform(a, b); cmp(t, pb * pa.inv(), "path"); cmp(f->GetGeometryTransform(b, a), pa * pb.inv(), "backward");
			double d = pos(); if(!NP(d)) cmp(f->GetGeometryTransform(b, d) * t, PA(d) * pa.inv(), "compose");
			if(!mid_patch) cmp(f->GetGeometryTransform(b), pb * pose_at(-off).inv(), "from-origin");
			c.ev(b < a ? "seq-backward" : "seq-forward");
		}
		double o = c.rng.chance(0.5) ? e.second + c.rng.logu(1e-6, 10) : e.first - c.rng.logu(1e-6, 10);
		if(total > 0 || 1) c.check(refused([&] { f->GetGeometryTransform(o, e.first); }) && refused([&] { f->GetGeometryTransform(e.second, o); }), "seq-outside-accepted", "o=%g extent %g %g", o, e.first, e.second);
		c.ev("sequences"); c.ev(seqs[q].org == 0 ? "origin-entrance" : seqs[q].org == 1 ? "origin-centre" : "origin-exit");
		// positions of sub-frames after consolidation are checked through the frame's own extent
		if(!pre) for(auto fr : m.frames) if(fr->GetGlobalFrame() == top && fr != top && c.rng.chance(0.2))
		{
			AG::Extent x = fr->GetGeometryExtent(top); c.near(ToLength(x), fr->GetGeometryLength(), 1e-12 * sc, 0, "frame-extent");
			AG::Extent te = top->GetLocalGeometryExtent(); c.check(x.first >= te.first - 1e-10 && x.second <= te.second + 1e-10, "frame-outside-parent");
		}
	}
	if(!pre && !m.frames.empty())
	{
		// leaves tile the top frame
		std::vector<std::pair<double, double> > ex; for(auto fr : m.frames) if(!dynamic_cast<SequenceFrame*>(fr) && fr->GetGlobalFrame() == top) ex.push_back(fr->GetGeometryExtent(top));
		L s = top->GetLocalGeometryExtent().first; size_t k = 0;
		if(ex.size() == lv.size()) for(auto& l : lv) { c.near(ex[k].first, s, 1e-11 * (top->GetGeometryLength() + 1), 0, "leaf-position"); s += l.len; k++; }
	}
	if(cp) { // frames of the copy are owned by the copy only logically: collect and free
		struct Tr : FrameTraverser { std::vector<LatticeFrame*> v; void ActOn(LatticeFrame* f) { v.push_back(f); } } tr; cp->Traverse(tr);
		c.check(tr.v.size() == m.frames.size(), "copy-frame-count", "%zu %zu", tr.v.size(), m.frames.size()); for(auto f : tr.v) delete f;
	}
	c.note(uint64_t(lv.size())); for(auto& l : lv) { c.note((double) l.len); c.note((double) l.h); } c.nontrivial();
	c.sample(fmt("%zu leaves in %zu sequences, copy=%d pre=%d", lv.size(), seqs.size(), cp != nullptr, pre));
}
FAMILY(sequences, 6000, 200000) { seqcase(c, false, 0); }
FAMILY(patched, 3000, 100000) { seqcase(c, true, 0); }
FAMILY(long_lines, 60, 2000) { seqcase(c, false, c.rng.range(200, 800)); }
