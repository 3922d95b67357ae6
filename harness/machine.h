// Shared helpers: random components and models.
#pragma once
#include "vh.h"
#include "AcceleratorModel.h"
#include "AcceleratorModelConstructor.h"
#include "ComponentFrame.h"
#include "TComponentFrame.h"
#include "PatchFrame.h"
#include "SequenceFrame.h"
#include "SupportStructure.h"
#include "MagnetMover.h"
#include "AcceleratorSupport.h"
#include "Drift.h"
#include "Marker.h"
#include "SectorBend.h"
#include "StandardMultipoles.h"
#include "CorrectorDipoles.h"
#include "Solenoid.h"
#include "TWRFStructure.h"
#include "SWRFStructure.h"
#include "TransverseRFStructure.h"
#include "Monitor.h"
#include "BPM.h"
#include "RMSProfileMonitor.h"
#include "Collimator.h"
#include "CrabMarker.h"
#include "MADInterface.h"
namespace mach
{
enum CT { DRIFT, MARKER, QUAD, SKEWQUAD, SEXT, SKEWSEXT, OCT, DECA, XCOR, YCOR, SBEND, SOLENOID, TWRF, SWRF, TRF, MONITOR, BPMT, RMSPM, COLL, CRAB, NCT };
inline const char* tname(int t)
{
	static const char* n[] = {"Drift", "Marker", "Quadrupole", "SkewQuadrupole", "Sextupole", "SkewSextupole", "Octupole", "Decapole", "XCor", "YCor", "SectorBend", "Solenoid", "TWRFStructure", "SWRFStructure", "TransverseRFStructure", "Monitor", "BPM", "RMSProfileMonitor", "Collimator", "CrabMarker"}; return n[t];
}
// a component of type t, gentle enough for a beam of momentum P0 (GeV/c): k's are normalised strengths
inline AcceleratorComponent* make(vh::Case& c, int t, const std::string& id, double len, double P0 = 1, double scale = 1)
{
	auto& r = c.rng; const double brho = P0 / 0.299792458; auto s = [&](double a) { return scale * r.sym(a) * brho; };
	switch(t)
	{
	case DRIFT: return new Drift(id, len);
	case MARKER: return new Marker(id);
	case QUAD: return new Quadrupole(id, len, s(1));
	case SKEWQUAD: return new SkewQuadrupole(id, len, s(1));
	case SEXT: return new Sextupole(id, len, s(10));
	case SKEWSEXT: return new SkewSextupole(id, len, s(10));
	case OCT: return new Octupole(id, len, s(100));
	case DECA: return new Decapole(id, len, s(1000));
	case XCOR: return new XCor(id, len, s(1e-3));
	case YCOR: return new YCor(id, len, s(1e-3));
	case SBEND: { double h = scale * r.sym(0.2); return new SectorBend(id, len, h, h * brho); }
	case SOLENOID: return new Solenoid(id, len, s(0.2));
	case TWRF: return new TWRFStructure(id, len, 1.3e9, scale * r.sym(1e-3) * P0, r.uni(0, 6));
	case SWRF: return new SWRFStructure(id, r.range(1, 9), 1.3e9, scale * r.sym(1e-3) * P0, r.uni(0, 6));
	case TRF: return new TransverseRFStructure(id, len, 3.9e9, scale * r.sym(1e-4) * P0, r.uni(0, 6), r.uni(0, 3));
	case MONITOR: return new Monitor(id, len, r.chance(0.5) ? 0.0 : r.sym(0.5) * len);
	case BPMT: return new BPM(id, len, 0.0);
	case RMSPM: return new RMSProfileMonitor(id);
	case COLL: return new Collimator(id, len);
	default: return new CrabMarker(id, len);
	}
}
}
