// Conformance driver for collections of elements (spec: Elements.tla).
#include "elems.h"
#include <memory>
#include "geometry/layer/Group.h"
#include "geometry/coordinate/Group.h"
#include "physicalModel/Group.h"
#include "physicalModel/predefined/PEC.h"
using namespace vj;
struct Env {
    std::vector<CoordR3*> r; std::vector<CoordI3*> i; std::vector<Lay*> lay; std::vector<PhysicalModel::PhysicalModel*> mat;
    Env() {
        for (int k = 0; k < 12; k++) {
            r.push_back(new CoordR3(CoordId(k + 1), Math::CVecR3(k % 3, (k / 3) % 2, k / 6)));
            i.push_back(new CoordI3(CoordId(k + 1), Math::CVecI3(k % 3, (k / 3) % 2, k / 6)));
        }
        lay.push_back(nullptr); mat.push_back(nullptr);
        for (int k = 1; k < 4; k++) { lay.push_back(new Lay(LayerId(k), "l")); mat.push_back(new PhysicalModel::Predefined::PEC(MatId(k))); }
    }
};
static Env& env() { static Env e; return e; }
struct IW { virtual ~IW() {} virtual J exec(const J&, J&) = 0; };
template <class E> struct Inside { template <class G> static bool run(const G&, const BoxR3&, J&) { return false; } };
template <> struct Inside<ElemR> {
    static bool run(const ElemRGroup& g, const BoxR3& b, J& out) {
        Element::Group<const ElemR> r = g.getInsideBound(b); for (std::size_t k = 0; k < r.size(); k++) out.add((long)r(k)->getId().toInt()); return true; }
};
template <class E> struct Typed {
    template <class G> static J coord(const G& c, long k) { J r; auto x = c.getCoordId(CoordId(k)); for (std::size_t j = 0; j < x.size(); j++) r.add((long)x.get(j)->getId().toInt()); return r; }
    template <class G> static J index(const G& c) {
        J res; Element::IndexByVertexId m = c.getIndexByVertexId();
        for (auto& p : m) { J x; for (auto& q : Elem::ascendingIdOrder(p.first)) x.add((long)q.toInt()); res.add(J().add(x).add((long)p.second->getId().toInt())); }
        return res;
    }
};
template <> struct Typed<Elem> {  // not offered for collections of any kind of element
    template <class G> static J coord(const G&, long) { return J(); }
    template <class G> static J index(const G&) { return J(); }
};
template <class E> struct Mk;
template <> struct Mk<ElemR> { static ElemR* make(const J& o) { std::vector<const CoordR3*> c; for (long k : o[3].ints()) c.push_back(env().r.at(k - 1)); return makeR(o[1].str(), 0, c, env().lay[o[4].n()], env().mat[o[5].n()]); } };
template <> struct Mk<ElemI> { static ElemI* make(const J& o) { std::vector<const CoordI3*> c; for (long k : o[3].ints()) c.push_back(env().i.at(k - 1)); return makeI(o[1].str(), 0, c, env().lay[o[4].n()], env().mat[o[5].n()]); } };
template <> struct Mk<Elem> { static Elem* make(const J& o) { if (o[2].str() == "R") return Mk<ElemR>::make(o); return Mk<ElemI>::make(o); } };
template <class X> static J lexi(const X* e) { return J().add((long)e->getMinV()->getId().toInt()).add((long)e->getMaxV()->getId().toInt()); }
template <class X> static void setFirst(X* e, const std::vector<Coordinate::Coordinate<double,3>*>&) {}
template <class E> struct W : IW {
    Element::Group<E> g;
    template <class G> static J ids(const G& x) { J r; for (std::size_t k = 0; k < x.size(); k++) r.add((long)x.get(k)->getId().toInt()); return r; }
    template <class A, class B> static J both(const A& a, const B& b) { J x = ids(a), y = ids(b); if (x.dump() != y.dump()) return J("const and non-const differ: " + x.dump() + y.dump()); return x; }
    static J boxJ(const BoxR3& b) {
        if (b.getMin()(0) < -1e30 && b.getMax()(0) > 1e30) return J("infinite");
        return J().add(vec(b.getMin(), 1)).add(vec(b.getMax(), 1));
    }
    J exec(const J& op, J& obs) {
        const Element::Group<E>& c = g;
        const std::string& n = op[0].str();
        J res("ok");
        try {
            if (n == "push") { g.addId(Mk<E>::make(op)); }
            else if (n == "pushN") { std::vector<E*> v; for (std::size_t k = 0; k < op[1].size(); k++) v.push_back(Mk<E>::make(op[1][k])); g.addId(v); }
            else if (n == "mats") { std::vector<MatId> v; for (long k : op[1].ints()) v.push_back(MatId(k)); res = both(g.getMatId(v), c.getMatId(v)); }
            else if (n == "layers") { std::vector<LayerId> v; for (long k : op[1].ints()) v.push_back(LayerId(k)); res = both(g.getLayerId(v), c.getLayerId(v)); }
            else if (n == "inside") {
                res = J(); BoxR3 b(Math::CVecR3(op[1][0].n() / 2., op[1][1].n() / 2., op[1][2].n() / 2.), Math::CVecR3(op[2][0].n() / 2., op[2][1].n() / 2., op[2][2].n() / 2.));
                if (!Inside<E>::run(g, b, res)) res = J("n/a");
            } else if (n == "index") {
                res = Typed<E>::index(c);
            } else if (n == "closest") {
                const CoordR3* v = c.getClosestVertex(Math::CVecR3(op[1][0].n() / 2., op[1][1].n() / 2., op[1][2].n() / 2.));
                res = J(v ? (long)v->getId().toInt() : 0L);
            } else if (n == "lexi") {
                const Elem* e = c(op[1].n() - 1);
                res = isR(e) ? lexi(dynamic_cast<const ElemR*>(e)) : lexi(dynamic_cast<const ElemI*>(e));
            } else if (n == "eq") {  // compare an element with a changed clone: position, change, argument
                E* e = g(op[1].n() - 1); std::shared_ptr<E> q(dynamic_cast<E*>(e->clone()));
                const std::string& ch = op[2].str();
                if (ch == "layer") q->setLayer(env().lay[op[3].n()]);
                else if (ch == "mat") q->setModel(env().mat[op[3].n()]);
                else if (ch == "id") q->setId(ElemId(op[3].n()));
                else if (ch == "coord") { if (ElemR* x = dynamic_cast<ElemR*>(q.get())) x->setV(0, env().r[op[3].n() - 1]); else dynamic_cast<ElemI*>(q.get())->setV(0, env().i[op[3].n() - 1]); }
                else if (ch == "other") {}
                const Elem* o = ch == "other" ? c(op[3].n() - 1) : q.get();
                bool a = *e == *o, b = *e != *o; res = a == b ? J("== and != disagree") : J((long)a);
            } else if (n == "isCoord") {
                const Elem* e = c(op[1].n() - 1); long k = op[2].n() - 1;
                bool a = isR(e) ? dynamic_cast<const ElemR*>(e)->isCoordinate(env().r[k]) : dynamic_cast<const ElemI*>(e)->isCoordinate(env().i[k]);
                res = J((long)a);
            } else if (n == "setModelAll") g.setModel(env().mat[op[1].n()]);
            else if (n == "setLayerAll") g.setLayer(env().lay[op[1].n()]);
            else if (n == "setModel") g.setModel(ElemId(op[1].n()), env().mat[op[2].n()]);
            else if (n == "setLayer") g.setLayer(ElemId(op[1].n()), env().lay[op[2].n()]);
            else if (n == "removeMat") g.removeMatId(MatId(op[1].n()));
            else if (n == "removeMats") { std::vector<MatId> v; for (long k : op[1].ints()) v.push_back(MatId(k)); g.removeMatId(v); }
            else if (n == "removeIds") { std::vector<ElemId> v; for (long k : op[1].ints()) v.push_back(ElemId(k)); g.removeId(v); }
            else if (n == "setV") {  // position, vertex, coordinate
                Elem* e = g(op[1].n() - 1);
                if (ElemR* x = dynamic_cast<ElemR*>(e)) x->setV(op[2].n() - 1, env().r[op[3].n() - 1]); else dynamic_cast<ElemI*>(e)->setV(op[2].n() - 1, env().i[op[3].n() - 1]);
            } else if (n == "copyGroup") { Element::Group<E> h(g); Element::Group<E> k; k = h; g = k; }
            else return J("unknown op");
        } catch (SEMBA::Group::Error::Id::Base<ElemId>&) { res = J("refused"); }
        obs = J::obj();
        J l; for (std::size_t k = 0; k < c.size(); k++) l.add(descr(c(k)));
        obs.put("list", l);
        J m, y, b, co;
        for (long k = 0; k < 4; k++) {
            m.add(both(g.getMatId(MatId(k)), c.getMatId(MatId(k))));
            y.add(both(g.getLayerId(LayerId(k)), c.getLayerId(LayerId(k))));
            for (long j = 0; j < 4; j++) b.add(both(g.getMatLayerId(MatId(k), LayerId(j)), c.getMatLayerId(MatId(k), LayerId(j))));
        }
        for (long k = 0; k <= 12; k++) co.add(Typed<E>::coord(c, k));
        J sp; std::map<LayerId, std::vector<const E*> > sep = c.separateByLayers();
        for (auto& p : sep) { J x; for (auto q : p.second) x.add((long)q->getId().toInt()); sp.add(J().add((long)p.first.toInt()).add(x)); }
        obs.put("mat", m).put("lay", y).put("both", b).put("coord", co).put("sep", sp).put("bound", boxJ(c.getBound()));
        return res;
    }
};
struct World {
    std::unique_ptr<IW> w;
    J exec(const J& op, J& obs) {
        if (op[0].str() == "kind") {
            if (op[1].str() == "R") w.reset(new W<ElemR>()); else if (op[1].str() == "I") w.reset(new W<ElemI>()); else w.reset(new W<Elem>());
            return J("ok");
        }
        return w->exec(op, obs);
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
