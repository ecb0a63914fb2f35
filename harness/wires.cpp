// Conformance driver for grouping lines into wires (spec: Wires.tla).
#include "elems.h"
#include <memory>
#include "util/wire/Group.h"
#include "physicalModel/multiport/RLC.h"
#include "physicalModel/multiport/Predefined.h"
#include "physicalModel/predefined/PEC.h"
using namespace vj;
#include "geometry/mesh/Structured.h"
#include "geometry/mesh/Unstructured.h"
namespace GMesh = SEMBA::Geometry::Mesh;
namespace PM = PhysicalModel;
struct World {
    std::string kind = "R"; std::vector<J> ls;
    static Math::CVecR3 posOf(long k, Math::Real) { return Math::CVecR3(k, k * k, -k); }
    static Math::CVecI3 posOf(long k, Math::Int) { return Math::CVecI3(k, k * k, -k); }
    static Math::CVecI3 gp(long k) { return Math::CVecI3(k, k * k, -k); }
    static Elem* line(long id, const CoordR3** v, const Lay* l, const Mod* m) { return new LinR2(ElemId(id), v, l, m); }
    static Elem* line(long id, const CoordI3** v, const Lay* l, const Mod* m) { return new LinI2(ElemId(id), v, l, m); }
    static void fill(Data& d, const Coordinate::Group<CoordR3>& c, const Element::Group<ElemR>& e, const SEMBA::Geometry::Layer::Group<>& l) { d.mesh = new GMesh::Unstructured(c, e, l); }
    static void fill(Data& d, const Coordinate::Group<CoordI3>& c, const Element::Group<ElemI>& e, const SEMBA::Geometry::Layer::Group<>& l) { d.mesh = new GMesh::Structured(Grid3(BoxR3(Math::CVecR3(0, 0, 0), Math::CVecR3(1, 1, 1)), Math::CVecR3(1, 1, 1)), c, e, l); }
    template <class T> J group() {
        typedef Coordinate::Coordinate<T, 3> C; typedef Element::Element<T> E;
        Data d; d.physicalModels = new PM::Group<>();
        PM::Wire::Wire a(MatId(1), "A", 1.0, 2.0, 3.0), b(MatId(2), "B", 2.0, 0.0, 0.0), x(MatId(3), "xw", 3.0, 0.0, 1.0), y(MatId(4), "yw", 4.0, 0.0, 1.0);
        PM::Multiport::RLC p(MatId(5), "P", PM::Multiport::Multiport::sRLC, 1.0, 0.0, 0.0); PM::Multiport::Predefined q(MatId(6), "Q", PM::Multiport::Multiport::matched);
        PM::PhysicalModel* all[] = {new PM::Wire::Wire(a), new PM::Wire::Wire(b), new PM::Wire::Extremes("X", x, &p, nullptr), new PM::Wire::Extremes("Y", y, &q, &p),
                                    new PM::Multiport::RLC(p), new PM::Multiport::Predefined(q), new PM::Predefined::PEC(MatId(7))};
        for (auto* m : all) d.physicalModels->add(m);
        SEMBA::Geometry::Layer::Group<> lays; std::map<long, Lay*> lay; for (long k : {1, 2}) lays.add(lay[k] = new Lay(LayerId(k), "l"));
        std::map<long, C*> cs; Coordinate::Group<C> cg; Element::Group<E> eg;
        for (auto& l : ls) {
            const C* v[2];
            for (int k = 0; k < 2; k++) { long n = l[1 + k].n(); if (!cs.count(n)) cg.add(cs[n] = new C(CoordId(n), posOf(n, T()))); v[k] = cs[n]; }
            long m = l[3].n(), y = l[4].n();
            eg.add(dynamic_cast<E*>(line(l[0].n(), v, y ? lay[y] : nullptr, m ? all[m - 1] : nullptr)));
        }
        fill(d, cg, eg, lays);
        try {
            Util::Wire::Group<T> g(d); J r;
            for (std::size_t i = 0; i < g.numberOfWires(); i++) {
                auto w = g.getWire(i); J ids, rev, c;
                for (auto k : g.getIdsOfWire(i)) ids.add((long)k.toInt());
                for (bool k : g.getRevOfWire(i)) rev.add(k);
                for (std::size_t k = 0; k < w->numberOfCoordinates(); k++) { c.add((long)w->getV(k)->getId().toInt()); if (!(w->getV(k)->pos() == posOf(w->getV(k)->getId().toInt(), T()))) c.add("moved"); }
                auto m = g.getMat(w->getMatId()); if ((const void*)m != (const void*)dynamic_cast<const PM::Wire::Extremes*>(w->getModel())) c.add("material");
                auto ext = [&](int k) { return m->getExtreme(k) ? (long)m->getExtreme(k)->getId().toInt() : 0L; };
                r.add(J().add((long)w->getId().toInt()).add(ids).add(rev).add(c).add((long)w->getLayerId().toInt()).add((long)w->getMatId().toInt()).add(m->getName()).add(scaled(m->getRadius(), 10)).add(J().add(ext(0)).add(ext(1))));
            }
            return r;
        } catch (const std::logic_error& e) { if (std::string(e.what()).find("ERROR @ Wire::Group") != 0) return J("wrong error"); return J().add("refused"); }
    }
    J exec(const J& op, J& obs) {
        const std::string& n = op[0].str();
        if (n == "kind") kind = op[1].str();
        else if (n == "line") { J l; for (int i = 1; i < 6; i++) l.add(op[i]); ls.push_back(l); }
        else for (std::size_t i = 0; i < ls.size(); i++) if (ls[i][0].n() == op[1].n()) { ls.erase(ls.begin() + i); break; }
        obs = kind == "R" ? group<Math::Real>() : group<Math::Int>();
        return J("ok");
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
