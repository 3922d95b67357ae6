// T07: RF cavities: energy gain, focusing, reference momentum, splitting, bookkeeping.
#include "lattice.h"
#include "SWRFfield.h"
#include "TWRFfield.h"
typedef long double LD;
static const double clight = 299792458.0;
static const char* SN[] = {"transport", "symplectic", "thin-lens"};
static std::unique_ptr<ParticleBunch> bun(double P0, const PV& v) { auto b = std::make_unique<ParticleBunch>(P0, 1.0); for(auto& p : v) b->AddParticle(p); return b; }
static void track(Case& c, ParticleBunch& b, AcceleratorComponent& a, int is, int steps, bool equal = true)
{
	ParticleComponentTracker ct(iset(is)); ct.SetBunch(b); a.PrepareTracker(ct); double L = a.GetLength();
	if(steps == 1) { ct.Track(); return; }
	double rem = L; for(int i = 0; i < steps; i++) rem = ct.TrackStep(i == steps - 1 ? rem : equal ? L / steps : c.rng.u() * rem);
}
struct W { double P0, f, phi, k, lam; };
static W wave(Case& c)
{
	W w; w.P0 = c.rng.logu(0.05, 5000); w.f = c.rng.pick({1.3e9, 400.79e6, 3.9e9, c.rng.logu(1e8, 3e10)}); w.k = 2 * M_PI * w.f / clight; w.lam = clight / w.f;
	int s = c.rng.range(0, 5); w.phi = s == 0 ? 0 : s == 1 ? M_PI / 2 : s == 2 ? -M_PI / 2 : s == 3 ? M_PI : c.rng.uni(-7, 7); if(s == 1 || s == 2) c.ev("zero-crossing"); return w;
}
static PV parts(Case& c, const W& w, int n, bool sym)
{
	PV v; for(int i = 0; i < n; i++) { PSvector p = part(c, i); p.ct() = c.rng.pick({0.0, c.rng.sym(1e-3), c.rng.sym(2) * w.lam}); p.dp() = c.rng.pick({0.0, c.rng.sym(1e-3), c.rng.uni(-0.3, 0.3)}); if(i == 0) p = PSvector(0); v.push_back(p); }
	(void) sym; return v;
}
// relative comparison on physically sensible scales
static void cmp(Case& c, const PSvector& p, const LD* e, const char* key, LD rx = 1, double tol = 1e-11)
{
	double sx = tol * (1e-3 * (1 + (double) std::fabs(rx))) , s[6] = {sx, tol * 1e-3, sx, tol * 1e-3, 1e-12, tol};
	static const char* n[] = {"x", "x'", "y", "y'", "ct", "dp"}; for(int i = 0; i < 6; i++) c.near(p[i], (double) e[i], s[i] + tol * std::fabs((double) e[i]), 0, key, "%s of particle %g", n[i], (double) p.id());
}
FAMILY(travelling, 2500, 40000)
{
	W w = wave(c); bool full = c.rng.chance(0.8); double L = c.rng.logu(0.1, 12), u0 = c.rng.pick({c.rng.sym(1e-3), c.rng.sym(0.3), c.rng.uni(-0.5, 20), 0.0, c.rng.sym(1e-9)}); double A = u0 * w.P0 / L; int is = c.rng.pick({0, 2});
	TWRFStructure s("T", L, w.f, A, w.phi); if(!full) s.GetField().SetFullAcceleration(false);
	PV v = parts(c, w, 12, false); PV keep; double cr = cos(w.phi); if(1 + u0 * cr < 0.1) { c.nontrivial(); return; }
	for(auto& p : v) if((1 + p.dp()) + u0 * cos(w.phi - w.k * p.ct()) > 0.1) keep.push_back(p);     // not stopped by the cavity
	auto b = bun(w.P0, keep); track(c, *b, s, is, 1); std::string S = SN[is]; c.ev(full ? "full" : "plain"); if(u0 == 0) c.ev("off");
	LD P1 = full ? (LD) w.P0 + (LD) A * L * cr : w.P0; c.near(b->GetReferenceMomentum(), (double) P1, 0, 1e-13, (S + "/reference").c_str(), "reference momentum after a gain of %g", A * L * cr);
	c.near(s.GetBeamVoltage(), A * L * cr, 1e-13 * std::fabs(A * L), 0, "beam-voltage", "nominal energy gain");
	size_t i = 0; for(auto& p : *b)
	{
		const PSvector& q = keep[i++]; LD cp = cosl((LD) w.phi - (LD) w.k * q.ct()), P = (LD) w.P0 * (1 + (LD) q.dp()), dP = (LD) A * L * cp, Po = P + dP, x = q.x(), xp = q.xp(), y = q.y(), yp = q.yp();
		if(full)
		{
			LD a = -0.5L * A * cp / P, u = dP / P, r = u == 0 ? L : L * log1pl(u) / u; xp += a * x; yp += a * y; x += r * xp; y += r * yp; xp *= P / Po; yp *= P / Po; a = 0.5L * A * cp / Po; xp += a * x; yp += a * y;
			LD e[6] = {x, xp, y, yp, q.ct(), Po / P1 - 1}; cmp(c, p, e, (S + "/map").c_str(), (1 + fabsl(a) * r) * (1 + r), 1e-10); c.ev("particles");
		}
		double tol = 1e-12 * (1 + std::fabs(u0)) * w.P0 * (1 + w.k * std::fabs(q.ct())); c.near(p.dp() * w.P0 * (double) (P1 / w.P0), (double) (Po - P1), tol + 1e-12 * (double) P1, 0, (S + "/momentum").c_str(), "momentum gained at phase offset %g", w.k * q.ct());
		c.near(p.ct(), q.ct(), 1e-9 * L + L * 1e-5, 0, (S + "/time").c_str(), "time of flight"); if(p.ct() == q.ct()) c.ev("isochronous");
		if(!full) { LD xe = x + L * xp, ye = y + L * yp; if(u0 == 0) { c.near(p.x(), (double) xe, 1e-14, 1e-12, (S + "/off").c_str(), "x behind a cavity without field"); c.near(p.y(), (double) ye, 1e-14, 1e-12, (S + "/off").c_str(), "y"); c.near(p.xp(), q.xp(), 0, 0, (S + "/off").c_str(), "x'"); } }
	}
	c.note(fmt("%.12g", L)); c.nontrivial(); c.sample(fmt("L %g V/P0 %g phi %g", L, u0, w.phi));
	// splitting into steps gives exactly the same result, in full acceleration
	if(full) { auto d = bun(w.P0, keep); track(c, *d, s, is, c.rng.range(2, 7), c.rng.chance(0.5)); c.ev("split"); auto j = d->begin(); for(auto& p : *b) { LD e[6]; for(int k = 0; k < 6; k++) e[k] = p[k]; cmp(c, *j, e, (S + "/split").c_str(), 1 + L, 1e-9 * (1 + std::fabs(u0))); j++; } c.near(d->GetReferenceMomentum(), b->GetReferenceMomentum(), 0, 1e-12, (S + "/split").c_str(), "reference momentum"); }
	// several cavities in a row: reference momentum adds up, and physical momenta are those of the single passes
	auto d = bun(w.P0, keep); double ref = w.P0; std::vector<LD> Pp; for(auto& q : keep) Pp.push_back((LD) w.P0 * (1 + (LD) q.dp()));
	for(int n = 0; n < 4; n++) { TWRFStructure t("T", L, w.f, std::fabs(A) * 0.3, c.rng.uni(-1, 1)); track(c, *d, t, is, 1); ref += t.GetVoltage() * cos(t.GetPhase()); size_t m = 0; for(auto& p : *d) { Pp[m] += (LD) t.GetVoltage() * cosl((LD) t.GetPhase() - (LD) w.k * p.ct()); c.near(d->GetReferenceMomentum() * (1 + p.dp()), (double) Pp[m], 1e-11 * (w.P0 + ref), 1e-11, (S + "/chain").c_str(), "momentum of particle %zu after cavity %d", m, n); m++; } c.near(d->GetReferenceMomentum(), ref, 0, 1e-12, (S + "/chain").c_str(), "reference momentum"); }
}
FAMILY(travelling_symplectic, 1500, 25000)
{
	W w = wave(c); double L = c.rng.logu(0.1, 12), u0 = c.rng.pick({c.rng.sym(1e-3), c.rng.sym(0.3), c.rng.sym(1e-9), 0.0}), A = u0 * w.P0 / L; TWRFStructure s("T", L, w.f, A, w.phi); Drift h("D", L / 2);
	PV v = parts(c, w, 10, true); auto b = bun(w.P0, v), d = bun(w.P0, v); track(c, *b, s, 1, 1); c.near(b->GetReferenceMomentum(), w.P0, 0, 0, "reference", "reference momentum in the symplectic set");
	track(c, *d, h, 1, 1); for(auto& p : *d) p.dp() = (double) ((LD) p.dp() + (LD) u0 * cosl((LD) w.phi - (LD) w.k * p.ct())); track(c, *d, h, 1, 1); auto j = d->begin();
	for(auto& p : *b) { LD e[6]; for(int k = 0; k < 6; k++) e[k] = (*j)[k]; cmp(c, p, e, "map", 1 + L, 1e-9); c.near(w.P0 * p.dp(), (double) (w.P0 * e[5]), 1e-11 * w.P0, 0, "momentum", "momentum"); j++; c.ev("particles"); } c.note(fmt("%.12g", L)); c.nontrivial();
}
FAMILY(standing, 2500, 40000)
{
	W w = wave(c); int n = c.rng.pick({1, 2, 7, 9, c.rng.range(1, 200)}); double L = n * w.lam / 2, u0 = c.rng.pick({c.rng.sym(1e-3), c.rng.sym(0.3), c.rng.uni(-0.5, 10), 0.0, c.rng.sgn() * c.rng.logu(1e-9, 1e-5)}), A = u0 * w.P0 / L; int is = c.rng.range(0, 1); std::string S = SN[is];
	double cr = cos(w.phi); if(1 + u0 * cr < 0.1) { c.nontrivial(); return; }
	SWRFStructure s("S", n, w.f, A, w.phi); c.near(s.GetLength(), L, 0, 1e-14, "length", "length of %d cells", n); PV v = parts(c, w, 10, is == 1), keep; for(auto& p : v) if((1 + p.dp()) + u0 * cos(w.phi - w.k * p.ct()) > 0.1) keep.push_back(p);
	auto b = bun(w.P0, keep); track(c, *b, s, is, 1); LD P1 = (LD) w.P0 * (1 + (LD) u0 * cr); c.near(b->GetReferenceMomentum(), (double) P1, 0, 1e-13, (S + "/reference").c_str(), "reference momentum");
	if(u0 == 0)
	{ c.ev("off"); Drift h("D", L); auto d = bun(w.P0, keep); track(c, *d, h, is, 1); auto j = d->begin(); for(auto& p : *b) { for(int k = 0; k < 6; k++) c.near(p[k], (*j)[k], k == 4 ? 1e-5 * L + 1e-6 : 1e-14, 1e-12, (S + "/off").c_str(), "coordinate %d behind a cavity without field", k); j++; } }
	else
	{
		// Rosenzweig-Serafini matrix of the pi mode (pure standing wave)
		LD u = (LD) u0 * cr, al = u0 * (u == 0 ? 1 : log1pl(u) / u) / sqrtl(8), C = cosl(al), D = sinl(al), r2 = sqrtl(2), d0 = 1 + u; LD m11 = C - r2 * cr * D, m12 = sqrtl(8) * L / u0 * D, m21 = -u0 / d0 / L * (cr * (LD) cr / r2 + 1 / sqrtl(8)) * D, m22 = (C + r2 * cr * D) / d0;
		size_t i = 0; c.ev("on"); for(auto& p : *b)
		{
			const PSvector& q = keep[i++]; LD cp = cosl((LD) w.phi - (LD) w.k * q.ct()), dp = ((LD) q.dp() + u0 * (cp - (LD) cr)) / d0; LD k0 = is == 1 ? sqrtl((1 + (LD) q.dp()) * (1 + (LD) q.dp()) - (LD) q.xp() * q.xp() - (LD) q.yp() * q.yp()) : 1;
			LD xp = q.xp() / k0, yp = q.yp() / k0, e[6] = {m11 * q.x() + m12 * xp, m21 * q.x() + m22 * xp, m11 * q.y() + m12 * yp, m21 * q.y() + m22 * yp, q.ct(), dp};
			c.near((double) (P1 * (1 + (LD) p.dp())), (double) (w.P0 * (1 + (LD) q.dp()) + (LD) A * L * cp), 1e-12 * w.P0 * (1 + std::fabs(u0)) * (1 + w.k * std::fabs(q.ct())), 0, (S + "/momentum").c_str(), "physical momentum behind the cavity"); c.ev("particles");
			if(is == 1) { LD kk = sqrtl((1 + dp) * (1 + dp) - e[1] * e[1] - e[3] * e[3]); e[1] *= kk; e[3] *= kk; }
			cmp(c, p, e, (S + "/map").c_str(), 1 + fabsl(m12) + 1e3 * fabsl(m21), 1e-9);
		}
		// damping: the area of the transverse phase space shrinks as the momentum ratio (difference quotients of the tracked map)
		PSvector z(0), ex(0), ep(0); double h = 1e-7; ex.x() = h; ep.xp() = h; auto j = bun(w.P0, {z, ex, ep}); track(c, *j, s, is, 1); auto& t = j->GetParticles(); double det = (t[1].x() * t[2].xp() - t[2].x() * t[1].xp()) / (h * h);
		c.near(det, (double) (1 / d0), 1e-9 * (double) (fabsl(m11 * m22) + fabsl(m12 * m21)), 1e-8, (S + "/damping").c_str(), "determinant of the transverse map at momentum ratio %g", (double) d0); c.ev("damping");
	}
	c.note(fmt("%.12g", L)); c.nontrivial();
}
FAMILY(transverse, 2000, 30000)
{
	W w = wave(c); double L = c.rng.logu(0.1, 12), u0 = c.rng.pick({c.rng.sym(1e-3), c.rng.sym(1e-2), 0.0}), A = u0 * w.P0 / L, th = c.rng.pick({0.0, M_PI / 2, c.rng.sym(4)}); TransverseRFStructure s("R", L, w.f, A, w.phi, th); int is = c.rng.pick({0, 2}); std::string S = SN[is];
	PV v = parts(c, w, 12, false); auto b = bun(w.P0, v), d = bun(w.P0, v); track(c, *b, s, is, 1); c.near(b->GetReferenceMomentum(), w.P0, 0, 0, (S + "/reference").c_str(), "reference momentum"); c.near(s.GetFieldOrientation(), th, 0, 0, "orientation", "field orientation");
	size_t i = 0; for(auto& p : *b)
	{
		const PSvector& q = v[i++]; LD a = (LD) u0 * cosl((LD) w.phi - (LD) w.k * q.ct()) / (1 + (LD) q.dp()), ax = a * cosl(th), ay = a * sinl(th); LD e[6] = {q.x() + L * ((LD) q.xp() + ax / 2), q.xp() + ax, q.y() + L * ((LD) q.yp() + ay / 2), q.yp() + ay, p.ct(), q.dp()};
		cmp(c, p, e, (S + "/map").c_str(), 1 + L, 1e-10 * (1 + w.k * std::fabs(q.ct()))); c.near(p.ct(), q.ct(), 1e-5 * L, 0, (S + "/time").c_str(), "time of flight"); c.ev("particles"); if(u0 == 0) c.ev("off");
	}
	track(c, *d, s, is, c.rng.range(2, 6), c.rng.chance(0.5)); auto j = d->begin(); i = 0; for(auto& p : *b) { LD e[6]; for(int k = 0; k < 6; k++) e[k] = p[k]; e[4] = j->ct(); double slip = w.k * 1e-5 * L; (void) slip; cmp(c, *j, e, (S + "/split").c_str(), 1 + L, u0 == 0 ? 1e-9 : 1e-9 + 1e-9 * w.k * 0); j++; } c.ev("split"); c.note(fmt("%.12g", L)); c.nontrivial();
}
// a synchronous, a leading and a trailing particle in a ring: motion inside the bucket conserves the pendulum invariant with the momentum compaction of the ring
FAMILY(accessors, 1500, 20000)
{
	W w = wave(c); double L = c.rng.logu(0.1, 20), A = c.rng.sgn() * c.rng.logu(1e-6, 1); int kind = c.rng.range(0, 2); std::unique_ptr<RFStructure> s; if(kind == 0) s.reset(new TWRFStructure("T", L, w.f, A, w.phi)); else if(kind == 1) { int n = c.rng.range(1, 50); s.reset(new SWRFStructure("S", n, w.f, A, w.phi)); L = n * w.lam / 2; } else s.reset(new TransverseRFStructure("R", L, w.f, A, w.phi, 0.3));
	auto all = [&](double f, double a, double ph) { double R = 1e-13; c.near(s->GetFrequency(), f, 0, R, "frequency", "frequency"); c.near(s->GetWavelength(), clight / f, 0, R, "frequency", "wavelength"); c.near(s->GetK(), 2 * M_PI * f / clight, 0, R, "frequency", "wavenumber"); c.near(s->GetAmplitude(), a, 0, R, "amplitude", "amplitude"); c.near(s->GetPhase(), ph, 1e-15, R, "phase", "phase"); c.near(s->GetVoltage(), a * L, 0, R, "voltage", "voltage"); c.near(s->GetBeamVoltage(), a * L * cos(ph), 1e-13 * std::fabs(a) * L, R, "voltage", "beam voltage"); auto z = s->GetVoltagePhasor(); c.near(z.real(), a * L * cos(ph), 1e-13 * std::fabs(a * L), R, "phasor", "phasor"); c.near(z.imag(), a * L * sin(ph), 1e-13 * std::fabs(a * L), R, "phasor", "phasor"); c.near(s->GetLength(), L, 0, 1e-14, "length", "length"); };
	double f = w.f, a = A, ph = w.phi; all(f, a, ph); for(int n = 0; n < 12; n++)
	{
		switch(c.rng.range(0, 6))
		{
		case 0: f = c.rng.logu(1e8, 1e10); s->SetFrequency(f); break; case 1: { double l = c.rng.logu(1e-2, 3); f = clight / l; s->SetWavelength(l); break; } case 2: { double k = c.rng.logu(1, 300); f = k * clight / (2 * M_PI); s->SetK(k); break; }
		case 3: a = c.rng.sym(1); s->SetAmplitude(a); break; case 4: { double V = c.rng.sym(3); a = V / L; s->SetVoltage(V); break; } case 5: ph = c.rng.sym(7); s->SetPhase(ph); break;
		default: { std::complex<double> z = std::polar(c.rng.logu(1e-6, 1), c.rng.sym(3.1)); s->SetVoltagePhasor(z); a = std::abs(z) / L; ph = std::arg(z); }
		}
		all(f, a, ph); c.ev("set");
	}
	std::unique_ptr<RFStructure> k(static_cast<RFStructure*>(s->Copy())); c.near(k->GetVoltage(), a * L, 0, 1e-13, "copy", "voltage of a copy"); c.near(k->GetPhase(), ph, 0, 0, "copy", "phase of a copy"); k->SetPhase(ph + 1); k->SetVoltage(a * L + 1); all(f, a, ph); c.near(k->GetFrequency(), f, 0, 1e-13, "copy", "frequency of a copy"); c.note(fmt("%.12g", A)); c.nontrivial();
}
// energy gain from the stated field of the cavity, integrated along the trajectory at the speed of light
FAMILY(stated_field, 600, 10000)
{
	W w = wave(c); w.P0 = 1000; w.phi = c.rng.uni(-3, 3); bool sw = c.rng.chance(0.5); int n = c.rng.range(1, 9); double L = n * w.lam / 2, A = 1e-3; std::unique_ptr<RFStructure> s; if(sw) s.reset(new SWRFStructure("S", n, w.f, A, w.phi)); else s.reset(new TWRFStructure("T", L, w.f, A, w.phi));
	PSvector p(0); p.ct() = c.rng.uni(-0.2, 0.2) * w.lam; auto b = bun(w.P0, {p}); track(c, *b, *s, 0, 1); double got = b->GetReferenceMomentum() * (1 + b->begin()->dp()) - w.P0; LD sum = 0; int N = 200 * n; auto& F = s->GetField();
	for(int i = 0; i < N; i++) { double z = (i + 0.5) * L / N, t = (z - p.ct()) / clight; sum += F.Ez(z, t) * (L / N); auto E = F.GetEFieldAt(Point3D(0, 0, z), t); c.near(E.z, F.Ez(z, t), 0, 0, "field-z", "field"); c.check(E.x == 0 && E.y == 0, "field-z", "transverse field"); }
	if(!sw) c.near(got, (double) sum, 1e-9, 0, "twrf-phase", "gain at phase %g, offset %g lambda", w.phi, p.ct() / w.lam); else c.near(got, (double) sum, 1e-9 + 1e-4 * A * L, 0, "swrf-amplitude", "gain"); 
	if(sw) c.near(got, 2 * (double) sum, 1e-9 + 1e-3 * A * L, 0, "swrf-shape", "gain against twice the field integral"); else { PSvector q(0); q.ct() = -p.ct(); (void) q; LD s2 = 0; for(int i = 0; i < N; i++) { double z = (i + 0.5) * L / N, t = (z + p.ct()) / clight; s2 += F.Ez(z, t) * (L / N); } c.near(got, (double) s2, 1e-9, 0, "twrf-shape", "gain against the field at the mirrored phase"); }
	c.ev(sw ? "swrf" : "twrf"); c.note(fmt("%.12g", p.ct())); c.nontrivial();
}
