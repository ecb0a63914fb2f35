// How the drivers show a physical model (specs: Models.tla, Import.tla).
#ifndef MODELVIEW_H
#define MODELVIEW_H
#include "vj.h"
#include <complex>
#include <limits>
#include <memory>
#include <typeinfo>
#include "filesystem/Project.h"
#include "math/Constants.h"
#include "physicalModel/bound/Mur1.h"
#include "physicalModel/bound/Mur2.h"
#include "physicalModel/bound/PEC.h"
#include "physicalModel/bound/PMC.h"
#include "physicalModel/bound/PML.h"
#include "physicalModel/bound/Periodic.h"
#include "physicalModel/bound/SMA.h"
#include "physicalModel/gap/Gap.h"
#include "physicalModel/multiport/Dispersive.h"
#include "physicalModel/multiport/Predefined.h"
#include "physicalModel/multiport/RLC.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/predefined/PMC.h"
#include "physicalModel/predefined/SMA.h"
#include "physicalModel/surface/Multilayer.h"
#include "physicalModel/surface/SIBC.h"
#include "physicalModel/surface/SIBCFile.h"
#include "physicalModel/volume/AnisotropicCrystal.h"
#include "physicalModel/volume/AnisotropicFerrite.h"
#include "physicalModel/volume/Classic.h"
#include "physicalModel/volume/Dispersive.h"
#include "physicalModel/volume/PML.h"
#include "physicalModel/wire/Extremes.h"
#include "physicalModel/wire/Wire.h"
using namespace SEMBA;
namespace PM = SEMBA::PhysicalModel;
typedef PM::PhysicalModel Mod;
typedef PM::Id MatId;
typedef std::complex<double> Cx;
static const double Q = std::acos(-1.0) / 2;
static double h(const J& j) { return j.n() / 2.0; }
static J h(double v) { return scaled(v, 2); }
static J one(double v) { return scaled(v, 1); }
static Math::CVecR3 v3(const J& a, std::size_t k, double f) { return Math::CVecR3(f * a[k].n(), f * a[k + 1].n(), f * a[k + 2].n()); }
static Math::Axis::Local axes(const J& a) { return Math::Axis::Local(v3(a, 0, Q), v3(a, 3, 1)); }
static J vj3(const Math::CVecR3& v, double f, long sc) { J r; for (int i = 0; i < 3; i++) r.add(scaled(v(i) * f, sc)); return r; }
static J mat(const Math::MatR33& m, long sc) { J r; for (int i = 0; i < 3; i++) { J x; for (int j = 0; j < 3; j++) x.add(scaled(m(i, j), sc)); r.add(x); } return r; }
static double unit(const Cx& pole) { return std::abs(pole) == 0 ? 1 / (2 * Math::Constants::eps0) : 1; }
static Math::MatC22 c22(const J& a) { Math::MatC22 m; for (int i = 0; i < 4; i++) m(i / 2, i % 2) = Cx(h(a[2 * i]), h(a[2 * i + 1])); return m; }
static J cj(const Math::MatC22& m) { J r; for (int i = 0; i < 4; i++) r.add(h(m(i / 2, i % 2).real())).add(h(m(i / 2, i % 2).imag())); return r; }
struct Dir {  // a scratch directory with the files some models are built from
    std::string d;
    Dir() { char t[] = "/tmp/vmodelsXXXXXX"; d = mkdtemp(t); for (const char* f : {"disp.txt", "other.dat"}) std::ofstream((d + "/" + f).c_str()) << "1 2\n"; }
    ~Dir() { for (const char* f : {"disp.txt", "other.dat"}) unlink((d + "/" + f).c_str()); rmdir(d.c_str()); }
};
static Dir dir;
static J localJ(const Math::Axis::Local& l) {
    J r; r.add(vj3(l.getEulerAngles(), 1 / Q, 1)).add(vj3(l.getOrigin(), 1, 1)).add(mat(l.getTransformationMatrix(), 1)).add(vj3(l.convertToGlobal(Math::CVecR3(1, 2, 3)), 1, 1)); return r;
}
template <class T> static bool as(const Mod* m) { return dynamic_cast<const T*>(m) != nullptr; }
static std::string kind(const Mod* m) {
    const std::type_info& t = typeid(*m);
#define K(T, N) if (t == typeid(PM::T)) return N;
    K(Predefined::PEC, "PEC") K(Predefined::PMC, "PMC") K(Predefined::SMA, "SMA") K(Bound::PEC, "bPEC") K(Bound::PMC, "bPMC") K(Bound::SMA, "bSMA") K(Bound::PML, "bPML") K(Bound::Periodic, "bPeriodic")
    K(Bound::Mur1, "bMur1") K(Bound::Mur2, "bMur2") K(Volume::Classic, "Classic") K(Volume::PML, "PML") K(Volume::AnisotropicCrystal, "Crystal") K(Volume::AnisotropicFerrite, "Ferrite")
    K(Surface::Multilayer, "Multilayer") K(Surface::SIBC, "SIBC") K(Surface::SIBCFile, "SIBCFile") K(Wire::Extremes, "Extremes") K(Multiport::Predefined, "MPre") K(Multiport::RLC, "MRLC") K(Multiport::Dispersive, "MDisp") K(Gap::Gap, "Gap")
    if (t == typeid(PM::Volume::Dispersive)) return dynamic_cast<const PM::Volume::Dispersive*>(m)->getFile().empty() ? "Dispersive" : "DispFile";
    if (t == typeid(PM::Wire::Wire)) { auto w = dynamic_cast<const PM::Wire::Wire*>(m); return w->isDispersive() ? "WireFile" : w->isSeriesParallel() ? "WireRLC" : "WireRL"; }
    return t.name();
}
static J portJ(const PM::Multiport::Multiport* p) {
    J r; r.add((long)p->getType());
    if (auto q = dynamic_cast<const PM::Multiport::RLC*>(p)) r.add(h(q->getR())).add(h(q->getL())).add(h(q->getC()));
    if (auto q = dynamic_cast<const PM::Multiport::Dispersive*>(p)) r.add(q->getFilename());
    return r;
}
static J wireJ(const PM::Wire::Wire* w) {
    J r; r.add(h(w->getRadius())).add(h(w->getSeriesResistance())).add(h(w->getSeriesInductance())).add(h(w->getSeriesCapacitance())).add(h(w->getParallelResistance())).add(h(w->getParallelInductance())).add(h(w->getParallelCapacitance()));
    return r.add((long)w->isSeriesParallel()).add((long)w->isDispersive()).add(w->getFilename());
}
static J ratio(double z, double f) { return z == std::numeric_limits<double>::infinity() ? J("inf") : h(z * z * f); }
static J facts(const Mod* m) {
    using namespace Math::Constants;
    J r;
    if (auto c = dynamic_cast<const PM::Volume::Classic*>(m)) {
        double e = c->getRelativePermittivity(), u = c->getRelativePermeability();
        r.add(h(e)).add(h(u)).add(h(c->getElectricConductivity())).add(h(c->getMagneticConductivity())).add((long)c->isVacuum()).add(h(c->getPermittivity() / eps0)).add(h(c->getPermeability() / mu0));
        r.add(ratio(c->getImpedance(), eps0 / mu0 * e)).add(ratio(c->getAdmitance(), mu0 / eps0 * u));
    } else if (auto d = dynamic_cast<const PM::Volume::Dispersive*>(m)) {
        J ps; for (std::size_t i = 0; i < d->getPoleNumber(); i++) {
            Cx p = d->getPole(i), c = d->getResidue(i) / unit(p); ps.add(J().add(h(p.real())).add(h(p.imag())).add(h(c.real())).add(h(c.imag())));
        }
        std::string f = d->getFile(); bool mine = f.compare(0, dir.d.size() + 1, dir.d + "/") == 0;
        bool lone = d->getPoleNumber() == 1 && std::abs(d->getPole(0)) == 0;
        r.add(ps).add(h(d->getElectricConductivity())).add((long)d->isClassic());
        if (d->isClassic() != d->isSimplyConductive()) r.add("classic and simply conductive differ");
        if (f != "" || lone) r.add("any"); else r.add((long)d->isDispersive());
        r.add(mine ? f.substr(dir.d.size() + 1) : f);
    } else if (auto p = dynamic_cast<const PM::Volume::PML*>(m)) { r = localJ(p->getOrientation()); r.add(vj3(p->getGlobalZAxis(), 1, 1)); }
    else if (auto k = dynamic_cast<const PM::Volume::AnisotropicCrystal*>(m)) {
        r = localJ(k->getLocalAxe()); r.add(vj3(k->getPrincipalAxesRelativePermittivity(), 1, 2)).add(h(k->getRelativePermeability())).add(mat(k->getRelPermittivityMatR(), 2)).add(mat(k->getRelPermeabilityMatR(), 2)).add(mat(k->getElectricConductivityMat(), 2)).add(mat(k->getMagneticConductivityMat(), 2));
    } else if (auto f = dynamic_cast<const PM::Volume::AnisotropicFerrite*>(m)) {
        r = localJ(f->getLocalAxe()); r.add(mat(f->getRelPermittivityMatR(), 2)).add(mat(f->getRelPermeabilityMatR(), 2)).add(mat(f->getRelPermeabilityMatI(), 2)).add(mat(f->getElectricConductivityMat(), 2)).add(mat(f->getMagneticConductivityMat(), 2));
    } else if (auto l = dynamic_cast<const PM::Surface::Multilayer*>(m)) {
        J ls; for (std::size_t i = 0; i < l->getNumberOfLayers(); i++) {
            auto y = l->getLayer(i); J x; x.add(h(l->getThickness(i))).add(h(y.getRelPermittivity())).add(h(y.getRelPermeability())).add(h(l->getElecCond(i))).add(h(l->getPermittivity(i) / eps0)).add(h(l->getPermeability(i) / mu0)).add(h(l->getMagnCond(i)));
            if (y.getThickness() != l->getThickness(i) || y.getElecCond() != l->getElecCond(i) || y.getPermittivity() != l->getPermittivity(i) || y.getPermeability() != l->getPermeability(i)) x.add("a layer differs from its panel");
            ls.add(x);
        }
        J os; if (l->hasFittingOptions()) { auto o = l->getFittingOptions(); os.add(J().add(h(o.getMinMaxFreq().first)).add(h(o.getMinMaxFreq().second)).add((long)o.getNumberOfPoles())); }
        else try { l->getFittingOptions(); os.add("options out of nothing"); } catch (const std::exception&) {}
        r.add(ls).add(os);
    } else if (auto s = dynamic_cast<const PM::Surface::SIBC*>(m)) {
        J ps; for (auto& p : s->getPoleZ()) ps.add(J().add(h(p.first.real())).add(h(p.first.imag())).add(cj(p.second)));
        r.add(cj(s->getZInfinity())).add(cj(s->getZLinear())).add(ps).add((long)s->getNumberOfPoles());
    } else if (auto s = dynamic_cast<const PM::Surface::SIBCFile*>(m)) r.add(std::string(s->getFile()));
    else if (auto e = dynamic_cast<const PM::Wire::Extremes*>(m)) {
        r = wireJ(e); J x; for (int i = 0; i < 2; i++) { auto p = e->getExtreme(i); x.add(p ? J().add(kind(p)).add(p->getId().toInt()).add(p->getName()).add(portJ(p)) : J()); }
        r.add(x);
    } else if (auto w = dynamic_cast<const PM::Wire::Wire*>(m)) r = wireJ(w);
    else if (auto p = dynamic_cast<const PM::Multiport::Multiport*>(m)) r = portJ(p);
    else if (auto g = dynamic_cast<const PM::Gap::Gap*>(m)) r.add(h(g->getWidth()));
    return r;
}
static J shownJ(const Mod* x) {
    J f; f.add((long)as<PM::Predefined::Predefined>(x)).add((long)as<PM::Volume::Volume>(x)).add((long)as<PM::Surface::Surface>(x)).add((long)as<PM::Wire::Wire>(x)).add((long)as<PM::Wire::Extremes>(x)).add((long)as<PM::Multiport::Multiport>(x)).add((long)as<PM::Bound::Bound>(x)).add((long)as<PM::Volume::Anisotropic>(x)).add((long)as<PM::Gap::Gap>(x));
    return J().add(kind(x)).add((long)x->getId().toInt()).add(x->getName()).add(f).add(facts(x));
}
#endif
