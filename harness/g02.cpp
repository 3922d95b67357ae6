// G02: misalignment of nested frames, supports and movers against a forward-kinematics model.
#include "vh.h"
#include "pose.h"
#include "SequenceFrame.h"
#include "ComponentFrame.h"
#include "SupportStructure.h"
#include "MagnetMover.h"
#include "AcceleratorSupport.h"
#include "SectorBend.h"
#include "Drift.h"
#include "StandardMultipoles.h"
#include "Marker.h"
using namespace vh;
typedef long double L;
typedef pose::T T;
typedef AcceleratorGeometry AG;

enum Kind { SEQ, GIRDER, SIMPLE, MOVER, COMP };
struct Node
{
	Kind k; LatticeFrame* f; Node* up = nullptr; std::vector<Node*> kids; int org = 1; L len = 0, h = 0; L s0 = 0; // s0: position of own origin in parent
	T loc; bool has = false; L mx = 0, my = 0, mr = 0; AcceleratorSupportList sup; pose::V o1{{0, 0, 0}}, o2{{0, 0, 0}}; pose::M Rg = pose::I(); // Rg: orientation when consolidated
	Vector3D lastoff1{0, 0, 0}, lastoff2{0, 0, 0};
};
struct World
{
	std::vector<AcceleratorComponent*> comps; std::vector<Node*> nodes; Node* top = nullptr; bool own = true;
	~World() { for(auto n : nodes) { if(own) delete n->f; delete n; } for(auto x : comps) delete x; }
};
static void leaves(const Node* n, std::vector<const Node*>& v) { if(n->k == COMP) v.push_back(n); for(auto k : n->kids) leaves(k, v); }
static L e0(const Node* n) { return n->org == 0 ? 0 : n->org == 1 ? -n->len / 2 : -n->len; }
// ideal pose along node n at distance s from its entrance
static T walk(const Node* n, L s) { std::vector<const Node*> v; leaves(n, v); T t; L l = 0; for(auto x : v) { L d = std::min(x->len, std::max<L>(0, s - l)); t = pose::arc(d, x->h) * t; l += x->len; } return t; }
// ideal pose at s (relative to origin) seen from the origin of n
static T G(const Node* n, L s) { return walk(n, s - e0(n)) * walk(n, -e0(n)).inv(); }
static T LF(const Node* n)
{
	if(n->k == MOVER) { T t; t.A = pose::rot(2, n->mr); t.o = pose::V{{n->mx, n->my, 0}}; return t * n->loc; }
	if(n->k == GIRDER || n->k == SIMPLE) return pose::of(n->f->GetLocalFrameTransform()); // its support part is checked on its own
	return n->loc;
}
static T phys(const Node* n, const Node* s) { if(n == s) return T(); T t = LF(n); return n->up ? t * G(n->up, n->s0) * phys(n->up, s) : t; }
static L pos(const Node* n, const Node* s) { return n == s || !n->up ? 0 : n->s0 + pos(n->up, s); }
static Node* build(Case& c, World& w, int depth, Node* up, Kind force = SEQ)
{
	Node* n = new Node; n->up = up; w.nodes.push_back(n); size_t me = w.nodes.size(); (void) me;
	if(depth == 0 || (up && c.rng.chance(0.45)))
	{
		n->k = COMP; double len = c.rng.pick({c.rng.uni(0.1, 4), 1.0, 0.5}); AcceleratorComponent* a; 
		switch(c.rng.range(0, 3)) { case 0: a = new Marker("m"); len = 0; break; case 1: a = new Drift("d", len); break; case 2: a = new Quadrupole("q", len, 1); break; default: { double h = c.rng.pick({0.0, c.rng.sym(0.5), c.rng.sym(1e-3)}) / len; n->h = h; a = new SectorBend("b", len, h, 1); } }
		n->len = len; w.comps.push_back(a); n->f = new ComponentFrame(*a); return n;
	}
	n->k = up ? (Kind) c.rng.range(0, 3) : force; SequenceFrame* f;
	switch(n->k) { case GIRDER: f = new GirderMount("g"); break; case SIMPLE: f = new SimpleMount("s"); break; case MOVER: f = new MagnetMover("mm"); break; default: n->org = up ? c.rng.range(0, 2) : c.rng.pick({0, 1, 1, 2}); f = new SequenceFrame("seq", n->org == 0 ? SequenceFrame::originAtEntrance : n->org == 1 ? SequenceFrame::originAtCenter : SequenceFrame::originAtExit); }
	n->f = f; int m = c.rng.range(1, up ? 3 : 5);
	for(int i = 0; i < m; i++) { Node* k = build(c, w, depth - 1, n); n->kids.push_back(k); f->AppendFrame(*k->f); n->len += k->len; }
	if(n->k == GIRDER && n->len == 0) { Node* k = build(c, w, 0, n); while(k->len == 0) { w.nodes.pop_back(); delete k->f; delete k; k = build(c, w, 0, n); } n->kids.push_back(k); f->AppendFrame(*k->f); n->len += k->len; }
	if(n->k == GIRDER || n->k == SIMPLE) { int q = static_cast<SupportStructure*>(f)->ExportSupports(n->sup); c.check(q == (n->k == GIRDER ? 2 : 1) && (int) n->sup.size() == q, "export-supports"); }
	return n;
}
static void place(Node* n) { L s = e0(n); for(auto k : n->kids) { s -= e0(k); k->s0 = s; s += e0(k) + k->len; place(k); } }
static L tolscale(World& w) { return w.top->len + 3; }
static void compare(Case& c, World& w, double tol, bool tilt = true)
{
	L sc = tolscale(w);
	for(auto n : w.nodes)
	{
		auto cmp = [&](const Transform3D& t, const T& e, const char* key) { L d = pose::diff(pose::of(t), e, sc); return c.check(d < tol, key, "kind=%d depth-up=%d len=%Lg diff=%Lg", n->k, n->up ? 1 : 0, n->len, d); };
		cmp(n->f->GetPhysicalTransform(), phys(n, nullptr), "physical-transform");
		std::vector<Node*> anc; for(Node* a = n; a; a = a->up) anc.push_back(a);
		Node* a = c.rng.pick(anc);
		cmp(n->f->GetPhysicalTransform(a->f), phys(n, a), "physical-relative"); c.near(n->f->GetPosition(a->f), pos(n, a), 1e-12 * sc, 0, "position");
		cmp(n->f->GetFrameTransform(a->f), phys(n, a) * (a == n ? T() : G(a, pos(n, a)).inv()), "frame-transform");
		AG::Extent x = n->f->GetGeometryExtent(a->f); c.near(x.first, pos(n, a) + e0(n), 1e-12 * sc, 0, "extent"); c.near(x.second, pos(n, a) + e0(n) + n->len, 1e-12 * sc, 0, "extent");
		if(n->k != GIRDER && n->k != SIMPLE) cmp(n->f->GetLocalFrameTransform(), LF(n), "local-transform");
		cmp(n->f->GetFrameTransform(), phys(n, w.top) * (n == w.top ? T() : G(w.top, pos(n, w.top)).inv()), "frame-transform-global");
		// entrance and exit planes of n seen from the innermost frame of which they are not a boundary
		for(int p = 0; p < 2; p++)
		{
			Node* F = n; if(F != w.top) do { Node* u = F->up; bool edge = p == 0 ? u->kids.front() == F : u->kids.back() == F; F = u; if(!edge) break; } while(F != w.top);
			T e = T(); if(n != w.top) { L sp = p == 0 ? e0(n) : e0(n) + n->len; e = G(n, sp) * phys(n, F) * G(F, pos(n, F) + sp).inv(); }
			if(p == 0) cmp(n->f->GetEntrancePlaneTransform(), e, "entrance-plane"); else cmp(n->f->GetExitPlaneTransform(), e.inv(), "exit-plane");
			c.ev(p ? "exit-plane" : "entrance-plane");
		}
		// supports
		if(n->k == GIRDER || n->k == SIMPLE)
		{
			T Ts = n->loc.inv() * LF(n); L sp = n->k == GIRDER ? e0(n) : 0;
			auto moved = [&](L s) { T pl = G(n, s) * Ts * G(n, s).inv(); pose::V d = (n->k == GIRDER ? G(n, s).inv().A : pose::I()) * pl.o; return n->Rg.t() * d; }; // displacement of the plane origin in global axes
			pose::V d1 = moved(sp); bool same = n->k == SIMPLE || (n->lastoff1 == n->lastoff2);
			pose::V w1 = n->o1; L m = 0; for(int i = 0; i < 3; i++) m = std::max(m, fabsl(d1[i] - w1[i]));
			c.check(m < 1e-13 * sc, "support-entrance-offset", "kind=%d got (%Lg %Lg %Lg) expected (%Lg %Lg %Lg)", n->k, d1[0], d1[1], d1[2], w1[0], w1[1], w1[2]);
			if(n->k == GIRDER)
			{
				pose::V d2 = moved(e0(n) + n->len), ent = n->o2; L ang = 0; { std::vector<const Node*> v; leaves(n, v); for(auto q : v) ang += fabsl(q->h * q->len); }
				pose::V diff = d2 - ent, dx = n->o2 - n->o1; L mag = sqrtl(dx[0] * dx[0] + dx[1] * dx[1] + dx[2] * dx[2]);
				// in the girder's entrance axes: transverse offsets followed to second order, longitudinal stretch neglected
				pose::M Re = G(n, e0(n)).A * n->Rg; pose::V loc = Re * diff, ldx = Re * dx; L len = n->len; { T ex = walk(n, n->len); len = sqrtl(ex.o[0] * ex.o[0] + ex.o[2] * ex.o[2]); }
				L tl = 1e-13 * sc + 2 * mag * mag / len + mag * (ang * ang + 0.0L) + fabsl(ldx[2]) * ang;
				if(same) for(int i = 0; i < 3; i++) c.check(fabsl(diff[i]) < 1e-13 * sc, "girder-translation");
				else if(ang < 0.7L && tilt) { c.check(fabsl(loc[0]) < tl && fabsl(loc[1]) < tl, "girder-exit-offset", "residual (%Lg %Lg %Lg) tol %Lg offset (%Lg %Lg %Lg) angle %Lg len %Lg", loc[0], loc[1], loc[2], tl, dx[0], dx[1], dx[2], ang, len); c.ev("girder-tilt"); }
			}
			c.ev(n->k == GIRDER ? "girder" : "simple-mount");
		}
	}
}
static void seqops(Case& c, double big)
{
	World w; w.top = build(c, w, c.rng.range(1, 4), nullptr, c.rng.chance(0.85) ? SEQ : (Kind) c.rng.range(1, 3)); place(w.top); double tol = 4e-13 * (big > 0.1 ? 4 : 1);
	auto mis = [&](Node* n)
	{
		switch(c.rng.range(0, 6))
		{
		case 0: { double x = c.rng.sym(big), y = c.rng.sym(big), z = c.rng.sym(big); n->f->Translate(x, y, z); n->loc = pose::trans(x, y, z) * n->loc; break; }
		case 1: { double a = c.rng.sym(big); n->f->RotateX(a); n->loc = pose::rotT(0, a) * n->loc; break; }
		case 2: { double a = c.rng.sym(big); n->f->RotateY(a); n->loc = pose::rotT(1, a) * n->loc; break; }
		case 3: { double a = c.rng.sym(big); n->f->RotateZ(a); n->loc = pose::rotT(2, a) * n->loc; break; }
		case 4: { double x = c.rng.sym(big), a = c.rng.sym(big); Transform3D t(Point3D(x, -x, 0), Rotation3D::rotationY(a)); T e; e.o = pose::V{{x, -x, 0}}; e.A = pose::rot(1, a); n->f->SetLocalFrameTransform(t); n->loc = e; break; }
		case 5: { double x = c.rng.sym(big), a = c.rng.sym(big); Transform3D t(Point3D(x, 0, -x), Rotation3D::rotationX(a)); T e; e.o = pose::V{{x, 0, -x}}; e.A = pose::rot(0, a); n->f->ApplyLocalFrameTransform(t); n->loc = e * n->loc; break; }
		default: n->f->ClearLocalFrameTransform(); n->loc = T(); c.ev("clear");
		}
	};
	bool early = c.rng.chance(0.2), tilt = true; if(early && c.rng.chance(0.5)) { for(int i = 0; i < 3; i++) mis(c.rng.pick(w.nodes)); tilt = false; c.ev("misaligned-before-consolidation"); }
	static_cast<SequenceFrame*>(w.top->f)->ConsolidateConstruction();
	for(auto n : w.nodes) if(n->k == GIRDER || n->k == SIMPLE)
	{
		n->Rg = n->k == GIRDER ? (G(n, e0(n)) * phys(n, nullptr)).A : phys(n, nullptr).A; if(n->k == GIRDER) n->Rg = G(n, e0(n)).inv().A * n->Rg; // orientation of the frame's own axes
		// ideal locations of the supports
		auto at = [&](L s) { return (G(n, s) * phys(n, nullptr)).o; }; L sp = n->k == GIRDER ? e0(n) : 0; pose::V l1 = at(sp);
		c.near(n->sup[0]->GetLocation().x, l1[0], 1e-12 * tolscale(w), 0, "support-location"); c.near(n->sup[0]->GetLocation().y, l1[2], 1e-12 * tolscale(w), 0, "support-location"); c.near(n->sup[0]->GetArcPosition(), pos(n, w.top) + sp, 1e-12 * tolscale(w), 0, "support-arc-position");
		if(n->k == GIRDER) { pose::V l2 = at(e0(n) + n->len); c.near(n->sup[1]->GetLocation().x, l2[0], 1e-12 * tolscale(w), 0, "support-location"); c.near(n->sup[1]->GetLocation().y, l2[2], 1e-12 * tolscale(w), 0, "support-location"); c.near(n->sup[1]->GetArcPosition(), pos(n, w.top) + e0(n) + n->len, 1e-12 * tolscale(w), 0, "support-arc-position"); }
	}
	compare(c, w, tol, tilt);
	int ops = c.rng.range(1, 10);
	for(int i = 0; i < ops; i++)
	{
		Node* n = c.rng.pick(w.nodes);
		std::map<Node*, T> before; for(auto m : w.nodes) before[m] = pose::of(m->f->GetPhysicalTransform());
		if(!n->sup.empty() && c.rng.chance(0.6))
		{
			double so = c.rng.pick({1e-6, 1e-3, 1e-2}); int q = c.rng.range(0, (int) n->sup.size() - 1); pose::V& o = q ? n->o2 : n->o1; Vector3D v(c.rng.sym(so), c.rng.sym(so), c.rng.sym(so));
			if(c.rng.chance(0.3)) for(auto s : n->sup) { s->SetOffset(v); n->o1 = n->o2 = pose::V{{v.x, v.y, v.z}}; }
			else switch(c.rng.range(0, 3))
			{
			case 0: n->sup[q]->SetOffset(v); o = pose::V{{v.x, v.y, v.z}}; break;
			case 1: n->sup[q]->SetOffset(v.x, v.y, v.z); o = pose::V{{v.x, v.y, v.z}}; break;
			case 2: { n->sup[q]->IncrementOffset(v); o = o + pose::V{{v.x, v.y, v.z}}; break; }
			default: n->sup[q]->Reset(); o = pose::V{{0, 0, 0}};
			}
			const Vector3D& g = n->sup[q]->GetOffset(); c.check(fabsl(g.x - o[0]) < 1e-16 && fabsl(g.y - o[1]) < 1e-16 && fabsl(g.z - o[2]) < 1e-16, "support-offset-readback");
			n->lastoff1 = n->sup[0]->GetOffset(); n->lastoff2 = n->sup.back()->GetOffset(); c.ev("support-motion");
		}
		else if(n->k == MOVER && c.rng.chance(0.7))
		{
			MagnetMover* m = static_cast<MagnetMover*>(n->f); double v = c.rng.sym(big);
			switch(c.rng.range(0, 4)) { case 0: case 3: m->SetX(v); n->mx = v; break; case 1: m->SetY(v); n->my = v; break; case 2: m->SetRoll(v); n->mr = v; break; default: m->Reset(); n->mx = n->my = n->mr = 0; }
			c.check(m->GetX() == (double) n->mx && m->GetY() == (double) n->my, "mover-readback"); c.near(m->GetRoll(), n->mr, 1e-15, 1e-14, "mover-readback"); c.ev("mover-motion");
		}
		else { mis(n); c.ev("frame-motion"); }
		for(auto m : w.nodes)
		{
			bool inside = false; for(Node* a = m; a; a = a->up) if(a == n) inside = true;
			if(!inside) { c.check(pose::diff(pose::of(m->f->GetPhysicalTransform()), before[m], 1) == 0, "outsider-moved"); c.ev("outsiders"); }
		}
		if(c.rng.chance(0.5) || i == ops - 1) compare(c, w, tol, tilt);
	}
	if(c.rng.chance(0.3))
	{
		// a copy carries the same state and is independent afterwards
		LatticeFrame* cp = static_cast<LatticeFrame*>(w.top->f->Copy());
		struct Tr : FrameTraverser { std::vector<LatticeFrame*> v; void ActOn(LatticeFrame* f) { v.push_back(f); } } tr, orig; cp->Traverse(tr); w.top->f->Traverse(orig);
		if(c.check(tr.v.size() == orig.v.size(), "copy-structure"))
		{
			for(size_t i = 0; i < tr.v.size(); i++) { c.check(pose::diff(pose::of(tr.v[i]->GetPhysicalTransform()), pose::of(orig.v[i]->GetPhysicalTransform()), 1) < 1e-13 && tr.v[i]->GetType() == orig.v[i]->GetType(), "copy-differs", "%s %s", tr.v[i]->GetType().c_str(), orig.v[i]->GetType().c_str()); }
			size_t k = c.rng.range(0, (int) tr.v.size() - 1); T was = pose::of(orig.v[k]->GetPhysicalTransform()); tr.v[k]->Translate(1, 0, 0); c.check(pose::diff(was, pose::of(orig.v[k]->GetPhysicalTransform()), 1) == 0, "copy-shares-state"); c.ev("copies");
		}
		for(auto f : tr.v) delete f;
	}
	for(auto n : w.nodes) { n->f->ClearLocalFrameTransform(); n->loc = T(); for(auto s : n->sup) s->Reset(); n->o1 = n->o2 = pose::V{{0, 0, 0}}; n->lastoff1 = n->lastoff2 = Vector3D(0, 0, 0); if(n->k == MOVER) { static_cast<MagnetMover*>(n->f)->Reset(); n->mx = n->my = n->mr = 0; } }
	for(auto n : w.nodes) c.check(n->f->GetLocalFrameTransform().isIdentity() && n->f->GetEntrancePlaneTransform().isIdentity() && n->f->GetExitPlaneTransform().isIdentity(), "not-restored", "kind %d", n->k);
	compare(c, w, tol); c.ev("restored");
	c.note(uint64_t(w.nodes.size())); c.note((double) w.top->len); c.note(uint64_t(ops)); c.nontrivial(); c.sample(fmt("%zu frames, %d operations, amplitude %g", w.nodes.size(), ops, big));
}
FAMILY(small, 6000, 200000) { seqops(c, c.rng.pick({1e-6, 1e-4, 1e-2})); }
FAMILY(large, 4000, 100000) { seqops(c, 1.0); }
FAMILY(replace, 3000, 50000)
{
	// replacing a sub-frame leaves order and neighbours alone
	int n = c.rng.range(1, 6), k = c.rng.range(0, n - 1); std::vector<AcceleratorComponent*> cs; std::vector<ComponentFrame*> fs; SequenceFrame top("t"); std::vector<double> ls;
	for(int i = 0; i <= n; i++) { double l = c.rng.uni(0.1, 2); if(i == n) l = ls[k]; ls.push_back(l); cs.push_back(new Drift("d", l)); fs.push_back(new ComponentFrame(*cs[i])); if(i < n) top.AppendFrame(*fs[i]); }
	bool ok = top.ReplaceSubFrame(fs[k], fs[n]); c.check(ok, "replace-refused"); ComponentFrame stranger(*cs[0]); c.check(!top.ReplaceSubFrame(&stranger, fs[k]), "replace-stranger");
	top.ConsolidateConstruction(); struct Tr : FrameTraverser { std::vector<LatticeFrame*> v; void ActOn(LatticeFrame* f) { v.push_back(f); } } tr; top.Traverse(tr);
	L s = -top.GetGeometryLength() / 2; bool good = tr.v.size() == size_t(n + 1); for(int i = 0; i < n && good; i++) { good &= tr.v[i + 1] == (i == k ? fs[n] : fs[i]) && fabsl(tr.v[i + 1]->GetPosition() - (s + ls[i] / 2)) < 1e-12; s += ls[i]; }
	c.check(good, "replace-order"); for(auto f : fs) delete f; for(auto x : cs) delete x; c.note(uint64_t(n * 10 + k)); c.note(ls[0]); c.nontrivial();
}
