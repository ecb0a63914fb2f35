// Conformance driver for physical models (spec: Models.tla).
#include "modelview.h"
static Mod* make(const std::string& k, long id, const std::string& n, const J& a) {
    MatId i(id);
    if (k == "PEC") return n == "" ? new PM::Predefined::PEC(i) : new PM::Predefined::PEC(i, n);
    if (k == "PMC") return n == "" ? new PM::Predefined::PMC(i) : new PM::Predefined::PMC(i, n);
    if (k == "SMA") return n == "" ? new PM::Predefined::SMA(i) : new PM::Predefined::SMA(i, n);
    if (k == "bPEC") return new PM::Bound::PEC(i);
    if (k == "bPMC") return new PM::Bound::PMC(i);
    if (k == "bSMA") return new PM::Bound::SMA(i);
    if (k == "bPML") return new PM::Bound::PML(i);
    if (k == "bPeriodic") return new PM::Bound::Periodic(i);
    if (k == "bMur1") return new PM::Bound::Mur1(i);
    if (k == "bMur2") return new PM::Bound::Mur2(i);
    if (k == "Classic") switch (a.size()) {
        case 0: return new PM::Volume::Classic(i, n);
        case 1: return new PM::Volume::Classic(i, n, h(a[0]));
        case 2: return new PM::Volume::Classic(i, n, h(a[0]), h(a[1]));
        case 3: return new PM::Volume::Classic(i, n, h(a[0]), h(a[1]), h(a[2]));
        default: return new PM::Volume::Classic(i, n, h(a[0]), h(a[1]), h(a[2]), h(a[3])); }
    if (k == "Dispersive") {
        std::vector<PM::Volume::PoleResidue> ps; for (auto& p : a[4].a) { Cx x(h(p[0]), h(p[1])); ps.push_back(PM::Volume::PoleResidue(x, unit(x) * Cx(h(p[2]), h(p[3])))); }
        return ps.empty() ? new PM::Volume::Dispersive(i, n, h(a[0]), h(a[1]), h(a[2]), h(a[3])) : new PM::Volume::Dispersive(i, n, h(a[0]), h(a[1]), h(a[2]), h(a[3]), ps);
    }
    if (k == "DispFile") return new PM::Volume::Dispersive(i, n, FileSystem::Project(dir.d + "/" + a[0].str()));
    if (k == "PML") return new PM::Volume::PML(i, n, axes(a));
    if (k == "Crystal") return new PM::Volume::AnisotropicCrystal(i, n, axes(a), v3(a, 6, .5), h(a[9]));
    if (k == "Ferrite") return new PM::Volume::AnisotropicFerrite(i, n, axes(a), h(a[6]), h(a[7]), h(a[8]));
    if (k == "Multilayer") {
        std::vector<PM::Surface::Multilayer::Layer> ls; for (auto& l : a[0].a) ls.push_back(PM::Surface::Multilayer::Layer(h(l[0]), h(l[1]), h(l[2]), h(l[3])));
        std::vector<PM::Surface::Multilayer::FittingOptions> os; for (auto& o : a[1].a) os.push_back(PM::Surface::Multilayer::FittingOptions(std::make_pair(h(o[0]), h(o[1])), o[2].n()));
        return os.empty() ? new PM::Surface::Multilayer(i, n, ls) : new PM::Surface::Multilayer(i, n, ls, os);
    }
    if (k == "SIBC") {
        std::vector<PM::Surface::SIBC::PoleResidue> ps; for (auto& p : a[2].a) ps.push_back(PM::Surface::SIBC::PoleResidue(Cx(h(p[0]), h(p[1])), c22(p[2])));
        return new PM::Surface::SIBC(i, n, c22(a[0]), c22(a[1]), ps);
    }
    if (k == "SIBCFile") return new PM::Surface::SIBCFile(i, n, FileSystem::Project(a[0].str()));
    if (k == "WireRL") return new PM::Wire::Wire(i, n, h(a[0]), h(a[1]), h(a[2]));
    if (k == "WireRLC") return new PM::Wire::Wire(i, n, h(a[0]), h(a[1]), h(a[2]), h(a[3]), h(a[4]), h(a[5]), h(a[6]));
    if (k == "WireFile") return new PM::Wire::Wire(i, n, h(a[0]), a[1].str());
    if (k == "MPre") return new PM::Multiport::Predefined(i, n, (PM::Multiport::Multiport::Type)a[0].n());
    if (k == "MRLC") return new PM::Multiport::RLC(i, n, (PM::Multiport::Multiport::Type)a[0].n(), h(a[1]), h(a[2]), h(a[3]));
    if (k == "MDisp") return new PM::Multiport::Dispersive(i, n, a[0].str());
    if (k == "Gap") return new PM::Gap::Gap(i, n, h(a[0]));
    throw std::out_of_range("kind " + k);
}
template <class T> static bool copy(const Mod* m, Mod*& r) { if (typeid(*m) != typeid(T)) return false; r = new T(*dynamic_cast<const T*>(m)); return true; }
template <class T> static bool put(Mod* d, const Mod* m) { if (typeid(*m) != typeid(T)) return false; *dynamic_cast<T*>(d) = *dynamic_cast<const T*>(m); return true; }
#define ALL(F, A) (F<PM::Predefined::PEC> A || F<PM::Predefined::PMC> A || F<PM::Predefined::SMA> A || F<PM::Bound::PEC> A || F<PM::Bound::PMC> A || F<PM::Bound::SMA> A || F<PM::Bound::PML> A || F<PM::Bound::Periodic> A \
    || F<PM::Bound::Mur1> A || F<PM::Bound::Mur2> A || F<PM::Volume::Classic> A || F<PM::Volume::Dispersive> A || F<PM::Volume::AnisotropicCrystal> A || F<PM::Volume::AnisotropicFerrite> A || F<PM::Surface::Multilayer> A \
    || F<PM::Surface::SIBC> A || F<PM::Surface::SIBCFile> A || F<PM::Wire::Wire> A || F<PM::Wire::Extremes> A || F<PM::Multiport::Predefined> A || F<PM::Multiport::RLC> A || F<PM::Multiport::Dispersive> A || F<PM::Gap::Gap> A)
struct World {
    std::unique_ptr<Mod> m[5];
    const PM::Multiport::Multiport* port(const J& r) { return r.n() == 0 ? nullptr : dynamic_cast<const PM::Multiport::Multiport*>(m[r.n()].get()); }
    J exec(const J& op, J& obs) {
        J res = run(op); obs = J();
        for (int i = 1; i <= 4; i++) {
            const Mod* x = m[i].get(); if (!x) { obs.add(J()); continue; }
            obs.add(shownJ(x));
        }
        return res;
    }
    J run(const J& op) {
        const std::string& n = op[0].str(); long r = op[1].n();
        if (n == "new") {
            try { std::unique_ptr<Mod> x(make(op[2].str(), op[3].n(), op[4].str(), op[5])); m[r] = std::move(x); }
            catch (const std::out_of_range&) { throw; } catch (const std::exception&) { return "refused"; }
        } else if (n == "ends") { std::unique_ptr<Mod> x(new PM::Wire::Extremes(op[2].str(), dynamic_cast<PM::Wire::Wire&>(*m[op[3].n()]), port(op[4]), port(op[5]))); m[r] = std::move(x); }
        else if (n == "clone") { std::unique_ptr<Mod> x(m[op[2].n()]->cloneTo<Mod>()); m[r] = std::move(x); }
        else if (n == "copy") {
            const Mod* s = m[op[2].n()].get(); Mod* x = nullptr;
            if (!ALL(copy, (s, x)) && !copy<PM::Volume::PML>(s, x)) throw std::out_of_range("copy");
            m[r].reset(x);
        } else if (n == "assign") { Mod* d = m[r].get(); const Mod* s = m[op[2].n()].get(); if (!ALL(put, (d, s))) throw std::out_of_range("assign"); }
        else if (n == "name") m[r]->setName(op[2].str());
        else if (n == "id") m[r]->setId(MatId(op[2].n()));
        else if (n == "drop") m[r].reset();
        else if (n == "end") {
            auto e = dynamic_cast<PM::Wire::Extremes*>(m[r].get());
            const PM::Multiport::Multiport* p = op[3].str() == "none" ? nullptr : op[3].str() == "reg" ? port(op[4]) : e->getExtreme(op[4].n());
            e->setExtreme(op[2].n(), p);
        } else if (n == "swap") dynamic_cast<PM::Wire::Extremes*>(m[r].get())->swapExtremes();
        else throw std::out_of_range("op");
        return "ok";
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
