// Conformance driver for face connectivities (spec: Faces.tla).
#include "elems.h"
#include <memory>
#include "geometry/graph/Connectivities.h"
using namespace vj;
struct World {
    std::map<long, CoordR3*> cs; std::vector<std::shared_ptr<ElemR>> m;
    ~World() { m.clear(); for (auto& c : cs) delete c.second; }
    const CoordR3* c(const J& j) { auto& p = cs[j[0].n()]; if (!p) p = new CoordR3(CoordId(j[0].n()), Math::CVecR3(j[1][0].n(), j[1][1].n(), j[1][2].n())); return p; }
    static J face(const Graph::Face& f) { J r; if (f.first) r.add((long)f.first->getId().toInt()).add((long)f.second); return r; }
    J exec(const J& op, J& obs) {
        if (op[0].str() == "add") { std::vector<const CoordR3*> v; for (std::size_t i = 0; i < op[3].size(); i++) v.push_back(c(op[3][i])); m.emplace_back(makeR(op[2].str(), op[1].n(), v)); }
        else for (std::size_t i = 0; i < m.size(); i++) if ((long)m[i]->getId().toInt() == op[1].n()) { m.erase(m.begin() + i); break; }
        SEMBA::Group::Group<const ElemR> g; for (auto& e : m) g.add(e.get());
        Graph::Connectivities k(g); obs = J();
        for (auto& e : m) {
            J o; o.add((long)e->getId().toInt());
            if (auto v = dynamic_cast<const VolR*>(e.get())) {
                J l; for (std::size_t f = 0; f < v->numberOfFaces(); f++) { Graph::Face x(v, f); const SurfR* s = k.getNeighSurf(x); l.add(J().add(face(k.getNeighFace(x))).add(k.isDomainBoundary(x)).add(s ? (long)s->getId().toInt() : 0L)); }
                obs.add(o.add(l));
            } else { auto s = dynamic_cast<const SurfR*>(e.get()); obs.add(o.add(face(k.getInnerFace(s))).add(face(k.getOuterFace(s))).add(k.isDomainBoundary(s))); }
        }
        return J().add((long)k.size()).add(k.existsReciprocity());
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
