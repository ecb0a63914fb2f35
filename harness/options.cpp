// Conformance driver for solver and mesher options (spec: Options.tla).
#include "vj.h"
#include <memory>
#include "solver/Options.h"
#include "mesher/Options.h"
#include "argument/Parser.h"
using namespace SEMBA;
typedef Solver::Options S;
typedef Mesher::Options M;
static std::string text(const J& w) { std::string r; for (auto& c : w.a) r += c.str(); return r; }
static std::string num(double v) { char b[64]; std::snprintf(b, 64, "%.12g", v); return b; }
static J sixteenths(double v) { double x = v * 16; return x == std::floor(x) && std::fabs(x) < 1e9 ? J((long)x) : J(num(v)); }
static const char* const BOUNDS[6] = {"lowerXBound", "upperXBound", "lowerYBound", "upperYBound", "lowerZBound", "upperZBound"};
static const PhysicalModel::Bound::Bound* bound(const std::string& s) {
    using namespace PhysicalModel::Bound; MatId i(7);
    if (s == "PEC") return new PEC(i); if (s == "PMC") return new PMC(i); if (s == "PML") return new PML(i);
    if (s == "Periodic") return new Periodic(i); if (s == "MUR1") return new Mur1(i); return new Mur2(i);
}
struct World {
    std::unique_ptr<S> s{new S}; std::unique_ptr<M> m{new M};
    static Solver::Settings settings(const J& ps) {
        Solver::Settings o;
        for (auto& p : ps.a) {
            const std::string& k = p[1].str(); Argument::Object& v = o(p[0].str());
            if (k == "b") { if (p[2].b()) v.setTrue(); else v.setFalse(); }
            else if (k == "t") v.setReal(p[2].n() / 16.0);
            else if (k == "i") v.setInt((int)p[2].n());
            else if (k == "x" || k == "s") v.setString(p[2].str());
            else if (p[2].str() == "array") v.setArray(); else if (p[2].str() == "object") v.setObject(); else v.setString(p[2].str());
        }
        if (ps.size() == 0) o.setObject();
        return o;
    }
    void put(const J& p) {
        const std::string& k = p[0].str(); const J& v = p[2];
        if (k == "runSimulation") s->setRunSimulation(v.b()); else if (k == "finalTime") s->setFinalTime(v.n() / 16.0);
        else if (k == "numberOfTimeSteps") s->setNumberOfTimeSteps(v.n()); else if (k == "timeStep") s->setTimeStep(v.n() / 16.0);
        else if (k == "cfl") s->setCFL(std::stod(v.str())); else if (k == "defaultSamplingPeriod") s->setSamplingPeriod(std::stod(v.str()));
        else if (k == "forceRestarting") s->setForceRestarting(v.b()); else if (k == "resumeSimulation") s->setResumeSimulation(v.b());
        else if (k == "flush") s->setFlush(std::stod(v.str())); else if (k == "additionalArguments") s->setAdditionalArguments(v.str());
        else if (k == "contourRefinement") m->setContourRefinement(v.b()); else if (k == "snap") m->setSnap(v.b());
        else if (k == "unwantedConnectionsInfo") m->setUnwantedConnectionsInfo(v.b()); else if (k == "structuredCellsInfo") m->setStructuredCellsInfo(v.b());
        else if (k == "vtkExport") m->setVtkExport(v.b()); else if (k == "postmshExport") m->setPostmshExport(v.b()); else if (k == "postsmbExport") m->setPostsmbExport(v.b());
        else if (k == "slantedWires") m->setSlanted(v.b()); else if (k == "slantedThreshold") m->setSlantedThreshold(std::stod(v.str()));
        else if (k == "forbiddenLength") m->setForbiddenLength(std::stod(v.str())); else if (k == "geometryScalingFactor") m->setScalingFactor(std::stod(v.str()));
        else if (k == "subgridPoints") m->setSubgridPoints((int)v.n()); else if (k == "outputName") m->setOutputName(v.str());
        else if (k == "gridStep") m->setGridStep(Math::CVecR3(v[0].n(), v[1].n(), v[2].n()));
        else if (k == "mesher") m->setMesher(v.str() == "AMesher" ? M::Mesher::AMesher : v.str() == "DMesher" ? M::Mesher::DMesher : M::Mesher::HMesher);
        else if (k == "mode") m->setMode(v.str() == "Structured" ? M::Mode::structured : v.str() == "Relaxed" ? M::Mode::relaxed : v.str() == "Slanted" ? M::Mode::slanted : M::Mode::conformal);
        else { for (int i = 0; i < 6; i++) if (k == BOUNDS[i]) return m->setBoundTermination(i / 2, i % 2, bound(v.str())); throw std::logic_error("put " + k); }
    }
    J line(const J& ws) {
        Argument::Parser p; M().addArguments(p); S().addArguments(p);
        std::vector<std::string> w(1, "prog"); for (auto& x : ws.a) w.push_back(text(x));
        auto no = [](const char* c) { return J().add("refused").add(c); };
        namespace E = Argument::Error;
        try {
            auto r = p.parseKnownArgs(w); J vs, l;
            for (const char* n : {"VTK Export", "gridstep", "Mode", "Forbidden length"}) if (r.first.existsName(n)) vs.add(J().add(n).add(r.first(n).getString()));
            for (std::size_t i = 1; i < r.second.size(); i++) l.add(r.second[i]);
            return J().add("ok").add(J().add((long)r.first.size()).add(vs).add(J::arr())).add(l);
        } catch (const Argument::StringParser::Error::Error&) { return no("value"); }
        catch (const E::NotChoices&) { return no("choice"); } catch (const E::Multiple&) { return no("multiple"); }
        catch (const E::Empty&) { return no("empty"); } catch (const E::Ambiguous&) { return no("ambiguous"); }
    }
    J exec(const J& op, J& obs) {
        const std::string& n = op[0].str(); J res = "ok";
        if (n == "solver") { Solver::Settings o = settings(op[1]); try { s->set(o); } catch (const std::exception&) { res = "refused"; s.reset(new S); } }
        else if (n == "mesher") { Solver::Settings o = settings(op[1]); try { m->set(o); } catch (const std::exception&) { res = "refused"; m.reset(new M); } }
        else if (n == "putSolver" || n == "putMesher") put(op[1]);
        else if (n == "copy") { std::unique_ptr<S> a(new S(*s)); s->setCFL(9); s->setRunSimulation(!s->isRunSimulation()); s = std::move(a); std::unique_ptr<M> b(new M); *b = *m; m->setBoundTermination(0, 0, bound("PML")); m.reset(); m = std::move(b); }
        else if (n == "line") res = line(op[1]);
        else throw std::logic_error("op " + n);
        J so; so.add(s->isRunSimulation()).add(sixteenths(s->getFinalTime())).add((long)s->getNumberOfTimeSteps()).add(sixteenths(s->getTimeStep())).add(num(s->getCFL())).add(num(s->getSamplingPeriod()))
            .add(s->isForceRestarting()).add(s->isResumeSimulation()).add(num(s->getFlush())).add(s->getAdditionalArguments()).add(s->toArgsStr());
        s->toStr(); s->printInfo(); m->printInfo();
        const char* me = m->getMesher() == M::Mesher::AMesher ? "AMesher" : m->getMesher() == M::Mesher::DMesher ? "DMesher" : "HMesher";
        const char* mo = m->getMode() == M::Mode::structured ? "Structured" : m->getMode() == M::Mode::relaxed ? "Relaxed" : m->getMode() == M::Mode::slanted ? "Slanted" : "Conformal";
        J fl, re, bo, gs; for (int i = 0; i < 3; i++) gs.add((long)m->getGridStep()(i));
        for (bool b : {m->isContourRefinement(), m->isSnap(), m->isUnwantedConnectionsInfo(), m->isStructuredCellsInfo(), m->isVtkExport(), m->isPostmshExport(), m->isPostsmbExport(), m->isSlanted()}) fl.add(b);
        for (double d : {m->getForbiddenLength(), m->getScalingFactor(), m->getSlantedThreshold()}) re.add(num(d));
        for (int i = 0; i < 6; i++) { std::string t = M::toStr(m->getBoundTermination(i / 2, i % 2)); bo.add(M::toStr(dynamic_cast<const PhysicalModel::Bound::Bound*>(m->getBoundTerminations()(i / 2, i % 2))) == t ? t : t + "?"); }
        J mm; mm.add(me).add(mo).add(m->isStructured()).add(m->isRelaxed()).add((long)m->getSubgridPoints()).add(gs).add(m->isGridStepSet()).add(m->getOutputName()).add(fl).add(re).add(bo);
        obs = J().add(so).add(mm);
        return res;
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
