// S01 / S02: composed programs. A pool of machines, bunches, collimation data and ground motion, on which random legal
// operations are done in any order and whose objects are destroyed in any order. The instruments (strict sanitizers,
// debug containers, valgrind) judge; the program itself checks only that the library stays usable.
#include "lattice.h"
#include "ProtonBunch.h"
#include "ElectronBunch.h"
#include "MuonBunch.h"
#include "SpinParticleProcess.h"
#include "SMPBunch.h"
#include "SMPBunchConstructor.h"
#include "SMPTracker.h"
#include "SMPWakeFieldProcess.h"
#include "SMPTransform3D.h"
#include "BunchConverter.h"
#include "ParticleDistributionGenerator.h"
#include "HaloParticleDistributionGenerator.h"
#include "BunchFilter.h"
#include "BeamData.h"
#include "RandomNG.h"
#include "WakeFieldProcess.h"
#include "WakePotentials.h"
#include "CollimatorWakeProcess.h"
#include "CollimatorWakePotentials.h"
#include "SynchRadParticleProcess.h"
#include "RingDeltaTProcess.h"
#include "CollimateParticleProcess.h"
#include "CollimateProtonProcess.h"
#include "ScatteringModelsMerlin.h"
#include "MaterialData.h"
#include "CollimatorAperture.h"
#include "ApertureSurvey.h"
#include "LossMapCollimationOutput.h"
#include "DetailedCollimationOutput.h"
#include "MonitorProcess.h"
#include "HollowElectronLens.h"
#include "HollowELensProcess.h"
#include "AcceleratorErrors.h"
#include "ClosedOrbit.h"
#include "TransferMatrix.h"
#include "Dispersion.h"
#include "LatticeFunctions.h"
#include "ChannelServer.h"
#include "Channels.h"
#include "SimpleATL.h"
#include "ATL2D.h"
#include "MerlinIO.h"
#include "MerlinException.h"
#include <fstream>
#include <unistd.h>
typedef SMPTracking::SMPBunch MB;
struct Exp : WakePotentials { double Wlong(double z) const override { return 1e3 * exp(-z / 1e-3); } double Wtrans(double z) const override { return 1e5 * z; } };
struct CExp : CollimatorWakePotentials { CExp() : CollimatorWakePotentials(2) {} double Wlong(double z, int m) const override { return 1e3 * m * exp(-z / 1e-3); } double Wtrans(double z, int m) const override { return 1e3 * m * z; } double Wlong(double) const override { return 0; } double Wtrans(double) const override { return 0; } };
static StandardMaterialData& data() { static StandardMaterialData* d = new StandardMaterialData; return *d; }
struct Mach { L l; double P0; bool ring = false, bends = false; std::vector<std::unique_ptr<Aperture>> ap; std::unique_ptr<SimpleATL> a; std::unique_ptr<ATL2D> b; AcceleratorSupportList sup; Exp w; CExp cw; };
struct World { std::vector<std::unique_ptr<Mach>> m; std::vector<std::unique_ptr<ParticleBunch>> b; std::vector<std::unique_ptr<MB>> s; };
static void machine(Case& c, World& w)
{
	auto& r = c.rng; auto m = std::make_unique<Mach>(); m->P0 = r.pick({1.0, 7000.0, r.logu(0.5, 1000)});
	if(r.chance(0.3)) // a ring of simple cells
	{
		AcceleratorModelConstructor mc; int n = r.range(4, 10); double h = 2 * M_PI / (2 * n), R = m->P0 / 0.299792458; for(int i = 0; i < n; i++) { mc.AppendComponent(*new Quadrupole("QF", 0.5, 0.5 * R)); mc.AppendComponent(*new SectorBend("B", 1, h, h * R)); mc.AppendComponent(*new Drift("D", 0.5)); mc.AppendComponent(*new Quadrupole("QD", 0.5, -0.5 * R)); mc.AppendComponent(*new SectorBend("B", 1, h, h * R)); if(r.chance(0.3)) mc.AppendComponent(*new Sextupole("S", 0.2, r.sym(1) * R)); if(i == 0) mc.AppendComponent(*new SWRFStructure("RF", 2, 5e8, r.pick({0.0, 1e-4 * m->P0}), M_PI / 2)); }
		m->l.m.reset(mc.GetModel()); auto bl = m->l.m->GetBeamline(); for(auto i = bl.begin(); i != bl.end(); i++) m->l.f.push_back(*i); m->ring = true;
	}
	else { m->l = lattice(c, m->P0, r.range(1, 20)); }
	double s = 0; for(auto f : m->l.f) if(f->IsComponent())
	{
		auto& a = f->GetComponent(); m->bends = m->bends || a.GetType() == "SectorBend"; a.SetComponentLatticePosition(s); s += a.GetLength(); if(r.chance(0.3)) a.SetWakePotentials(r.chance(0.3) ? (WakePotentials*) &m->cw : &m->w);
		double b = r.logu(1e-3, 3e-2); if(a.GetType() == "SWRFStructure") continue; if(auto k = dynamic_cast<Collimator*>(&a)) { k->SetMaterialProperties(data().property[r.pick<std::string>({"Cu", "W", "C", "Glidcop"})]); auto p = new CollimatorAperture(b, b * 2, r.sym(1.5), a.GetLength()); p->SetExitWidth(b); p->SetExitHeight(2 * b); m->ap.emplace_back(p); a.SetAperture(p); }
		else if(r.chance(0.5)) { Aperture* p; switch(r.range(0, 3)) { case 0: p = new CircularAperture("CIRCLE", s, b); break; case 1: p = new RectangularAperture("RECTANGLE", s, b, b); break; case 2: p = new EllipticalAperture("ELLIPSE", s, b, b / 2); break; default: p = new RectEllipseAperture("RECTELLIPSE", s, b, b, b, b / 2); } m->ap.emplace_back(p); a.SetAperture(p); }
	}
	w.m.push_back(std::move(m)); c.ev("machines");
}
static BeamData beam(Case& c, double P0) { auto& r = c.rng; BeamData b; b.beta_x = r.logu(1, 30); b.beta_y = r.logu(1, 30); b.emit_x = r.logu(1e-10, 1e-7); b.emit_y = r.logu(1e-10, 1e-7); b.alpha_x = r.sym(1); b.sig_z = r.logu(1e-5, 1e-2); b.sig_dp = r.logu(1e-6, 1e-3); b.p0 = P0; b.charge = (r.chance(0.9) ? 1 : -1) * r.logu(1e5, 1e11); return b; }
static void bunches(Case& c, World& w)
{
	auto& r = c.rng; double P0 = w.m.empty() ? 10 : w.m[r.range(0, w.m.size() - 1)]->P0; BeamData d = beam(c, P0); RandomNG::init((uint32_t) r.next()); size_t n = r.pick({1, 2, r.range(3, 40)}); c.ev("bunches");
	if(r.chance(0.2)) { SMPTracking::SMPBunchConstructor k(d, r.range(1, 8), r.range(1, 4)); w.s.emplace_back(static_cast<MB*>(k.ConstructBunch(0))); return; }
	std::unique_ptr<ParticleDistributionGenerator> g; if(r.chance(0.5)) g.reset(new NormalParticleDistributionGenerator(r.pick({0.0, 3.0}))); else if(r.chance(0.5)) g.reset(new UniformParticleDistributionGenerator); else g.reset(new HorizonalHalo1ParticleDistributionGenerator(2)); std::unique_ptr<HorizontalHaloParticleBunchFilter> f; if(r.chance(0.2)) { f.reset(new HorizontalHaloParticleBunchFilter); f->SetHorizontalLimit(0.1 * sqrt(d.emit_x * d.beta_x)); f->SetHorizontalOrbit(0); }
	switch(r.range(0, 5)) { case 0: w.b.emplace_back(new ParticleBunch(n, *g, d, f.get())); break; case 1: case 2: w.b.emplace_back(new ProtonBunch(n, *g, d, f.get())); break; case 3: w.b.emplace_back(new ElectronBunch(n, *g, d, f.get())); break; case 4: { auto b = new MuonBunch(P0, 1); w.b.emplace_back(b); for(size_t i = 0; i < n; i++) b->AddParticle(part(c, i)); break; } default: { auto b = new SpinParticleBunch(P0, r.chance(0.8) ? 1 : -1); w.b.emplace_back(b); for(size_t i = 0; i < n; i++) { if(r.chance(0.5)) b->AddParticle(part(c, i), SpinVector(r.sym(0.7), r.sym(0.7), r.sym(0.1))); else b->AddParticle(part(c, i)); } } }
}
static void copies(Case& c, World& w)
{
	auto& r = c.rng; if(w.b.empty()) return; auto& b = w.b[r.range(0, w.b.size() - 1)]; c.ev("copies");
	switch(r.range(0, 6))
	{
	case 0: w.b.emplace_back(new ParticleBunch(*b)); break; case 1: if(auto s = dynamic_cast<SpinParticleBunch*>(b.get())) w.b.emplace_back(new SpinParticleBunch(*s)); else if(auto p = dynamic_cast<ProtonBunch*>(b.get())) w.b.emplace_back(new ProtonBunch(*p)); break;
	case 2: b->SortByCT(); break; case 3: { std::ostringstream o; b->Output(o); std::istringstream i(o.str()); ParticleBunch t(1, 1); if(b->size()) { t.Input(1, i); w.b.emplace_back(new ParticleBunch(t)); } break; }
	case 4: if(b->size() > 1) { auto i = b->begin(); std::advance(i, r.range(0, b->size() - 1)); b->erase(i); } break; case 5: if(b->size()) { PSmoments S; b->GetMoments(S); PSvector q; b->GetCentroid(q); PSmoments2D P; b->GetProjectedMoments(ps_X, ps_Y, P); c.note(S.std(0)); } break;
	default: if(b->size()) { std::string fn = vh::scratch() + "/b.txt"; std::ofstream f(fn); b->Output(f); }
	}
	while(w.b.size() > 6) w.b.erase(w.b.begin() + r.range(0, w.b.size() - 1));
}
// Brings particles that an unstable machine has driven away back to the axis, so that no program
// depends on what the library makes of coordinates without physical meaning.
struct Guard : ParticleBunchProcess
{
	double P0; Guard(double P0) : ParticleBunchProcess("GUARD", 0), P0(P0) {}
	void SetCurrentComponent(AcceleratorComponent& a) override { currentComponent = &a; active = true; tame(*currentBunch, P0); }
	void DoProcess(double) override {} double GetMaxAllowedStepSize() const override { return 1e9; }
	static void tame(ParticleBunch& b, double P0) { for(auto& p : b) { bool ok = true; for(int k = 0; k < 6; k++) ok = ok && fabs(p[k]) < 0.05; if(!ok) for(int k = 0; k < 6; k++) p[k] = 1e-6 * (k + 1); } double q = b.GetReferenceMomentum(); if(!(q > 0.8 * P0 && q < 1.2 * P0)) b.SetReferenceMomentum(P0); }
};
static void track(Case& c, World& w)
{
	auto& r = c.rng; if(w.m.empty() || w.b.empty()) return; auto& m = *w.m[r.range(0, w.m.size() - 1)]; auto b = w.b[r.range(0, w.b.size() - 1)].get(); if(!b->size() || (m.bends && b->GetTotalCharge() < 0)) return; b->SetReferenceMomentum(m.P0); for(auto& p : *b) for(int k = 0; k < 6; k++) if(!(fabs(p[k]) < 0.03)) p[k] = r.sym(1e-3);
	bool run = r.chance(0.4); std::unique_ptr<ParticleBunch> home; ParticleBunch* src = b; int n = m.l.f.size(), i0 = r.chance(0.5) ? 0 : r.range(0, n - 1), i1 = r.chance(0.5) ? n - 1 : r.range(i0, n - 1); ScatteringModelMerlin model; LossMapCollimationOutput lm(r.pick({tencm, nearestelement, precise})); DetailedCollimationOutput det; det.AddIdentifier("*");
	std::unique_ptr<ParticleTracker> t(m.ring && r.chance(0.5) ? new ParticleTracker(m.l.m->GetRing(r.range(0, n - 1)), src, false) : new ParticleTracker(m.l.m->GetBeamline(i0, i1), src, false)); if(r.chance(0.3)) { if(r.chance(0.5)) t->SetIntegratorSet(new SYMPLECTIC::StdISet); else t->SetIntegratorSet(new THIN_LENS::StdISet); } if(r.chance(0.2)) t->AssumeFlatLattice(true); if(r.chance(0.2)) t->InjectBeamOnAxis(true);
	t->AddProcess(new Guard(m.P0)); bool col = false; std::ostringstream log; int np = r.range(0, 4); for(int k = 0; k < np; k++) switch(r.range(0, 8))
		{
		case 0: { auto p = new ParticleTracking::WakeFieldProcess(r.range(1, 5), r.range(2, 60), r.uni(2, 10)); p->ApplyImpulseAt(r.chance(0.5) ? ParticleTracking::WakeFieldProcess::atCentre : ParticleTracking::WakeFieldProcess::atExit); p->IncludeTransverseWake(r.chance(0.7)); t->AddProcess(p); c.ev("wakes"); break; }
		case 1: if(m.P0 < 5 && src->GetParticleMass() > 0) { auto p = new SynchRadParticleProcess(r.range(1, 5), r.chance(0.5)); p->SetNumComponentSteps(r.range(1, 4)); p->GeneratePhotons(r.chance(0.5)); p->AdjustBunchReferenceEnergy(r.chance(0.3)); t->AddProcess(p); c.ev("radiation"); } break;
		case 2: { auto p = new RingDeltaTProcess(2); p->SetBendScale(r.sym(1e-5)); t->AddProcess(p); break; }
		case 3: case 4: { if(col) break; col = true; CollimateParticleProcess* p; if(dynamic_cast<ProtonBunch*>(src)) { auto q = new CollimateProtonProcess(3, COLL_AT_EXIT | COLL_AT_ENTRANCE, &log); q->SetScatteringModel(&model); q->ScatterAtCollimator(false); p = q; c.ev("protons"); // tables of the diffractive model take too long to prepare here; C06 to C08 exercise them
 } else { p = new CollimateParticleProcess(3, r.pick({1, 4, 7}), &log); p->ScatterAtCollimator(false); } p->SetLossThreshold(200); p->SetOutputBinSize(r.pick({0.1, 0.5})); if(r.chance(0.5)) p->IndexParticles(true); if(r.chance(0.5)) p->SetCollimationOutput(&lm); if(r.chance(0.5)) p->SetCollimationOutput(&det); t->AddProcess(p); c.ev("collimation"); break; }
		case 5: if(dynamic_cast<SpinParticleBunch*>(src)) { t->AddProcess(new SpinParticleProcess(4, r.range(1, 3))); c.ev("spins"); } break; case 6: { auto p = new MonitorProcess("M", 6, vh::scratch() + "/s01_"); p->AddElement("Q1"); t->AddProcess(p); break; } case 7: t->AddProcess(new HollowELensProcess(3)); break;
		default: { auto p = new CollimatorWakeProcess(2, 5, r.range(2, 40), 4); t->AddProcess(p); c.ev("collimator-wakes"); }
		}
	if(r.chance(0.2)) { t->SetLogStream(log); t->SetLoggingOn(); }
	try
	{
		if(run) { t->Run(); if(r.chance(0.5)) t->Continue(); if(r.chance(0.5)) home.reset(new ParticleBunch(t->GetTrackedBunch())); } else if(r.chance(0.7)) { t->Track(src); if(r.chance(0.3)) t->Track(src); } else { t->InitStepper(src->Clone()); int k = r.range(1, 2 * n), j = 0; while(j++ < k && t->StepComponent()) { c.note(t->GetCurrentFrame().GetGeometryLength()); } c.ev("stepped"); }
		c.ev("tracked");
	}
	catch(MerlinException& e) { c.ev("refusals"); }
	if(r.chance(0.5)) { t.reset(); } lm.Finalise(); std::ostringstream o; lm.Output(&o); det.Output(&o); if(home) { w.b.push_back(std::move(home)); } c.note((uint64_t) b->size());
	while(w.b.size() > 6) w.b.erase(w.b.begin() + r.range(0, w.b.size() - 1));
}
static void macro(Case& c, World& w)
{
	auto& r = c.rng; if(w.m.empty() || w.s.empty()) return; auto& m = *w.m[r.range(0, w.m.size() - 1)]; auto b = w.s[r.range(0, w.s.size() - 1)].get(); if(m.bends && b->GetTotalCharge() < 0) return; b->SetReferenceMomentum(m.P0); if(r.chance(0.3)) { auto p = SMPBunchConverter(b, r.range(1, 30)); w.b.emplace_back(p); c.ev("converted"); return; } if(r.chance(0.2)) { w.s.emplace_back(new MB(*b)); if(w.s.size() > 4) w.s.erase(w.s.begin()); return; }
	SMPTracking::SMPTracker t(m.l.m->GetBeamline(), b); if(r.chance(0.4)) t.AddProcess(new SMPTracking::WakeFieldProcess(2, r.logu(1e-5, 1e-3))); try { t.Track(b); c.ev("macro-tracked"); } catch(MerlinException&) { c.ev("refusals"); }
}
static void adjust(Case& c, World& w)
{
	auto& r = c.rng; if(w.m.empty()) return; auto& m = *w.m[r.range(0, w.m.size() - 1)]; c.ev("adjustments");
	switch(r.range(0, 6))
	{
	case 0: { AcceleratorErrors e; std::ostringstream o; if(r.chance(0.5)) e.Report(&o); auto bl = m.l.m->GetBeamline(); e.SetErrors(r.logu(1e-6, 1e-4), r.logu(1e-6, 1e-4)); if(r.chance(0.5)) e.ApplyShifts(bl, r.pick<std::string>({"*", "*.Q*|*.B", "NONE"})); else { e.SetErrors(1e-5, 1e-5, 1e-4); e.ApplyRotations(bl, "*"); } break; }
	case 1: { std::vector<RWChannel*> ch; size_t n = m.l.m->GetRWChannels(r.pick<std::string>({"*.*", "Quadrupole.*.B1", "XCor.*.B0", "MagnetMover.*.*"}), ch); if(n && r.chance(0.7)) { auto a = ch[r.range(0, n - 1)]; double v = a->Read(); a->Write(v * 1.0001); a->Increment(0); } { RWChannelArray arr(ch); RealVector v = arr; arr = v; } c.ev("channels"); break; }
	case 2: { if(m.a || m.b) break; m.l.m->GetAcceleratorSupports(m.sup); if(m.sup.empty()) break; if(r.chance(0.5)) m.a.reset(new SimpleATL(1e-13, m.sup, r.pick({0.0, 1e-7}))); else m.b.reset(new ATL2D(1e-13, m.sup, Point2D(0, 0))); c.ev("grounds"); break; }
	case 3: { std::ostringstream o; if(m.a) { m.a->DoStep(r.logu(1, 1e6)); m.a->RecordOffsets(o); if(r.chance(0.2)) m.a->Reset(); } if(m.b) { m.b->DoStep(r.logu(1, 1e6)); m.b->RecordOffsets(o); if(r.chance(0.2)) m.b->Reset(); } break; }
	case 4: { std::ostringstream o; m.l.m->ReportModelStatistics(o); ApertureSurvey::ApertureSurvey(m.l.m.get(), &o, r.pick({ApertureSurvey::points_per_element, ApertureSurvey::distance, ApertureSurvey::abs_distance}), r.range(1, 3)); c.ev("surveys"); break; }
	case 5: { auto v = m.l.m->GetIndexes("*.Q*"); std::vector<ComponentFrame*> f; m.l.m->ExtractComponents("*", f); std::vector<TComponentFrame<Quadrupole>*> q; m.l.m->ExtractTypedComponents(q); std::vector<Sextupole*> s; m.l.m->ExtractTypedElements(s); for(auto x : q) x->GetComponent().SetFieldStrength(x->GetComponent().GetFieldStrength()); auto b = m.l.m->GetReversedBeamline(); double L = b.First().GetGeometryLength() + b.Last().GetGeometryLength(); c.note(L + v.size() + f.size()); break; }
	default: for(auto f : m.l.f) if(r.chance(0.2)) { f->TranslateX(1e-5 * r.sym(1)); f->RotateZ(1e-4 * r.sym(1)); if(r.chance(0.2)) f->ClearLocalFrameTransform(); }
	}
}
static void optics(Case& c, World& w)
{
	auto& r = c.rng; for(auto& m : w.m) if(m->ring && r.chance(0.5))
		{
			AM* a = m->l.m.get(); PSvector p(0); try { switch(r.range(0, 3)) { case 0: { ClosedOrbit o(a, m->P0); o.TransverseOnly(true); o.FindClosedOrbit(p); break; } case 1: { RealMatrix M(6); ::TransferMatrix t(a, m->P0); t.FindTM(M, p); break; } case 2: { LatticeFunctionTable t(a, m->P0); t.RemoveAllFunctions(); t.AddFunction(1, 1, 1); t.AddFunction(3, 3, 2); t.AddFunction(0, 0, 1); t.Calculate(); std::ostringstream o; t.PrintTable(o); break; } default: { Dispersion d(a, m->P0); d.FindDispersion(0); c.note(d.Dx); } } c.ev("optics"); } catch(MerlinException&) { c.ev("refusals"); } catch(std::exception&) { c.ev("refusals"); }
		}
}
static void drop(Case& c, World& w)
{
	auto& r = c.rng; switch(r.range(0, 3)) { case 0: if(w.m.size() > 1) w.m.erase(w.m.begin() + r.range(0, w.m.size() - 1)); break; case 1: if(w.b.size()) w.b.erase(w.b.begin() + r.range(0, w.b.size() - 1)); break; case 2: if(w.s.size()) w.s.erase(w.s.begin()); break; default: break; } c.ev("destroyed");
}
FAMILY(programs, 3000, 60000)
{
	static bool cd = [] { return chdir(vh::scratch().c_str()) == 0; }(); (void) cd; Quiet q; auto a = MerlinIO::std_warn, b = MerlinIO::std_err; MerlinIO::std_warn = &q.s; MerlinIO::std_err = &q.s2; World w; auto& r = c.rng; machine(c, w); bunches(c, w); int n = r.range(4, 25);
	for(int i = 0; i < n; i++) switch(r.range(0, 11)) { case 0: if(w.m.size() < 3) machine(c, w); break; case 1: case 2: if(w.b.size() < 6) bunches(c, w); break; case 3: copies(c, w); break; case 4: case 5: case 6: track(c, w); break; case 7: macro(c, w); break; case 8: case 9: adjust(c, w); break; case 10: optics(c, w); break; default: drop(c, w); }
	if(r.chance(0.5)) w.m.clear(); else { w.b.clear(); w.s.clear(); } MerlinIO::std_warn = a; MerlinIO::std_err = b; c.note(r.u()); c.nontrivial();
}
