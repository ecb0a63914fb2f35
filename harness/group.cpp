// Conformance driver for the identified collections (spec: Collections.tla).
#include "vj.h"
#include <map>
#include <memory>
#include "geometry/coordinate/Group.h"
#include "geometry/coordinate/Relative.h"
#include "geometry/coordinate/Conformal.h"
#include "geometry/layer/Group.h"
#include "geometry/element/Group.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Polyline.h"
#include "geometry/element/Triangle3.h"
#include "geometry/element/Quadrilateral4.h"
#include "physicalModel/Group.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/predefined/PMC.h"
#include "physicalModel/bound/PML.h"
#include "physicalModel/bound/Mur1.h"
using namespace SEMBA;
using namespace SEMBA::Geometry;

struct IWorld { virtual ~IWorld() {} virtual J exec(const J& op, J& obs) = 0; };

// Every object ever seen is kept alive, so that addresses are never reused.
struct Serials {
    std::map<const void*, long> num;
    std::vector<std::shared_ptr<const Class::Shareable> > keep;
    template <class T> long of(const T* p) {
        const Class::Shareable* s = p;
        if (num.count(s)) return num[s];
        keep.push_back(p->getSharedPtr());
        long n = (long)num.size() + 1;
        num[s] = n;
        return n;
    }
};

struct LayerK {
    typedef Layer::Layer T; typedef Layer::Group<> G; typedef LayerId Id;
    typedef Layer::Layer T0; typedef Layer::Layer T1; typedef Layer::Layer T2; typedef Layer::Layer T3;
    typedef Layer::Layer QA; typedef Layer::Layer QB;
    static T* make(long ty, long id) { return new T(Id(id), "lay"); }
    static long type(const T*) { return 0; }
    static void mark(T*, long) {}
    static long mk(const T*) { return 0; }
};
struct MatK {
    typedef PhysicalModel::PhysicalModel T; typedef PMGroup G; typedef MatId Id;
    typedef PhysicalModel::Predefined::PEC T0; typedef PhysicalModel::Predefined::PMC T1;
    typedef PhysicalModel::Bound::PML T2; typedef PhysicalModel::Bound::Mur1 T3;
    typedef PhysicalModel::Predefined::Predefined QA; typedef PhysicalModel::Bound::Bound QB;
    static T* make(long ty, long id) {
        T* r;
        switch (ty) { case 0: r = new T0(Id(id)); break; case 1: r = new T1(Id(id)); break;
        case 2: r = new T2(Id(id)); break; default: r = new T3(Id(id)); }
        r->setName("0"); return r;
    }
    static long type(const T* p) { return p->is<T0>() ? 0 : p->is<T1>() ? 1 : p->is<T2>() ? 2 : p->is<T3>() ? 3 : 9; }
    static void mark(T* p, long m) { p->setName(std::to_string(m)); }
    static long mk(const T* p) { return std::atol(p->getName().c_str()); }
};
struct CoordK {
    typedef Coord T; typedef Coordinate::Group<> G; typedef CoordId Id;
    typedef CoordR3 T0; typedef CoordI3 T1; typedef CoordRel T2; typedef CoordConf T3;
    typedef CoordR3 QA; typedef CoordI3 QB;
    static T* make(long ty, long id) {
        switch (ty) { case 0: return new CoordR3(Id(id), Math::CVecR3(0.0));
        case 1: return new CoordI3(Id(id), Math::CVecI3(0));
        case 2: return new CoordRel(Id(id), Math::CVecI3(0), Math::CVecR3(0.0));
        default: return new CoordConf(Id(id), Math::CVecI3(0), Math::Constants::x, 0.5); }
    }
    static long type(const T* p) { return p->is<CoordR3>() ? 0 : p->is<CoordRel>() ? 2 : p->is<CoordConf>() ? 3 : p->is<CoordI3>() ? 1 : 9; }
    static void mark(T*, long) {}
    static long mk(const T*) { return 0; }
};
static CoordR3* pool(int k) {
    static std::vector<std::shared_ptr<CoordR3> > v;
    while ((int)v.size() <= k) v.push_back(std::shared_ptr<CoordR3>(
        new CoordR3(CoordId(v.size() + 1), Math::CVecR3(v.size() % 2, v.size() / 2, 0.0))));
    return v[k].get();
}
static Layer::Layer* lay(long k) {
    static std::map<long, std::shared_ptr<Layer::Layer> > m;
    if (!m.count(k)) m[k].reset(new Layer::Layer(LayerId(k), "l"));
    return m[k].get();
}
struct ElemK {
    typedef ElemR T; typedef ElemRGroup G; typedef ElemId Id;
    typedef Tri3 T0; typedef QuaR4 T1; typedef LinR2 T2; typedef PolylinR T3;
    typedef SurfR QA; typedef LinR QB;
    static T* make(long ty, long id) {
        const CoordR3* v[4] = {pool(0), pool(1), pool(3), pool(2)};
        switch (ty) { case 0: return new Tri3(Id(id), v);
        case 1: return new QuaR4(Id(id), v);
        case 2: return new LinR2(Id(id), v);
        default: return new PolylinR(Id(id), std::vector<const CoordR3*>(v, v + 3)); }
    }
    static long type(const T* p) { return p->is<Tri3>() ? 0 : p->is<QuaR4>() ? 1 : p->is<LinR2>() ? 2 : p->is<PolylinR>() ? 3 : 9; }
    static void mark(T* p, long m) { p->setLayer(lay(m)); }
    static long mk(const T* p) { return (long)p->getLayerId().toInt(); }
};

template <class K>
struct W : IWorld {
    typedef typename K::T T; typedef typename K::G G; typedef typename K::Id Id;
    Serials ser;
    std::unique_ptr<G> reg[2];
    W() { reg[0].reset(new G()); reg[1].reset(new G()); }
    static int ri(const J& j) { return j.str() == "A" ? 0 : 1; }
    std::vector<T*> makeList(const J& l) {
        std::vector<T*> v;
        for (std::size_t k = 0; k < l.size(); k++) v.push_back(K::make(l[k][0].n(), l[k][1].n()));
        return v;
    }
    static std::vector<std::size_t> poss(const J& l) {
        std::vector<std::size_t> r;
        for (std::size_t k = 0; k < l.size(); k++) r.push_back(l[k].n() - 1);
        return r;
    }
    static std::vector<Id> idv(const J& l) {
        std::vector<Id> r;
        for (std::size_t k = 0; k < l.size(); k++) r.push_back(Id(l[k].n()));
        return r;
    }
    template <class X> J serials(const X& g) {
        J r; for (std::size_t k = 0; k < g.size(); k++) r.add(ser.of(g(k))); return r;
    }
    template <class X, class Y> J both(const X& a, const Y& b) {
        J x = serials(a), y = serials(b);
        return x.dump() == y.dump() ? x : J("const and non-const differ");
    }
    template <class Q> J of(G& g) {
        const G& c = g;
        J r = both(g.template getOf<Q>(), c.template getOf<Q>());
        if (c.template sizeOf<Q>() != r.size() || c.template emptyOf<Q>() != (r.size() == 0)) return J("size");
        return r;
    }
    template <class Q> J only(G& g) {
        const G& c = g;
        return both(g.template getOfOnly<Q>(), c.template getOfOnly<Q>());
    }
    J sel(G& g) {
        J r;
        r.add(of<typename K::QA>(g)).add(of<typename K::QB>(g)).add(of<typename K::T0>(g)).add(of<typename K::T1>(g))
         .add(of<typename K::T2>(g)).add(of<typename K::T3>(g));
        r.add(only<typename K::QA>(g)).add(only<typename K::QB>(g)).add(only<typename K::T0>(g)).add(only<typename K::T1>(g))
         .add(only<typename K::T2>(g)).add(only<typename K::T3>(g));
        return r;
    }
    J list(G& g) {
        const G& c = g;
        J r;
        if (c.empty() != (c.size() == 0)) return J("empty");
        for (std::size_t k = 0; k < c.size(); k++) {
            const T* p = c(k);
            if (p != c.get(k) || p != g(k) || p != g.get(k)) return J("position access differs");
            J e; e.add(ser.of(p)).add((long)p->getId().toInt()).add(K::type(p)).add(K::mk(p));
            r.add(e);
        }
        return r;
    }
    J look(G& g) {
        const G& c = g;
        J r;
        for (long i = 0; i <= 12; i++) {
            bool ex = c.existId(Id(i));
            long a = 0, b = 0;
            try { a = ser.of(c.getId(Id(i))); } catch (Group::Error::Id::NotExists<Id>& e) { if (e.getId() != Id(i)) a = -2; }
            try { b = ser.of(g.getId(Id(i))); } catch (Group::Error::Id::NotExists<Id>&) {}
            if (a != b || ex != (a != 0)) r.add("differ"); else r.add(a);
        }
        return r;
    }
    J exec(const J& op, J& obs) {
        const std::string& n = op[0].str();
        int k = ri(op[1]);
        G& g = *reg[k]; G& h = *reg[1 - k];
        J res = J("ok");
        try {
            if (n == "add") {
                std::vector<T*> v = makeList(op[2]);
                if (v.size() == 1) g.add(v[0]); else g.add(v);
            } else if (n == "addId") {
                std::vector<T*> v;
                for (std::size_t i = 0; i < op[2].size(); i++) v.push_back(K::make(op[2][i].n(), 7));
                res = serials(v.size() == 1 ? g.addId(v[0]) : g.addId(v));
            } else if (n == "share") {
                Group::Group<T> s = h.get(poss(op[2]));
                g.add(s);
            } else if (n == "assign") { g = h;
            } else if (n == "assignRaw") {
                Group::Group<T> s(makeList(op[2])); g = std::move(s);
            } else if (n == "construct") { reg[k].reset(new G(makeList(op[2])));
            } else if (n == "copy") { G* c = new G(h); reg[k].reset(c);
            } else if (n == "clone") {
                G* c = dynamic_cast<G*>(h.clone());
                if (!c) return J("clone type"); reg[k].reset(c);
            } else if (n == "move") { g = std::move(h); reg[1 - k].reset(new G());
            } else if (n == "remove") {
                if (op[2].size() == 1) g.remove(poss(op[2])[0]); else g.remove(poss(op[2]));
            } else if (n == "removeId") {
                if (op[2].size() == 1) g.removeId(idv(op[2])[0]); else g.removeId(idv(op[2]));
            } else if (n == "clear") { g.clear();
            } else if (n == "set") { g.set(op[2].n() - 1, K::make(op[3].n(), op[4].n()));
            } else if (n == "mark") { K::mark(g.get(op[2].n() - 1), op[3].n());
            } else if (n == "get") { const G& c = g; res = both(g.get(poss(op[2])), c.get(poss(op[2])));
            } else if (n == "getId") { const G& c = g; res = both(g.getId(idv(op[2])), c.getId(idv(op[2])));
            } else if (n == "getIds") {
                std::vector<Id> v = g.getIds(); res = J();
                for (std::size_t i = 0; i < v.size(); i++) res.add((long)v[i].toInt());
            } else return J("unknown op");
        } catch (Group::Error::Id::Base<Id>&) { res = J("refused"); }
        obs = J::obj();
        obs.put("A", list(*reg[0])).put("B", list(*reg[1])).put("lookA", look(*reg[0])).put("lookB", look(*reg[1]));
        obs.put("selA", sel(*reg[0])).put("selB", sel(*reg[1]));
        return res;
    }
};

struct World {
    std::unique_ptr<IWorld> w;
    J exec(const J& op, J& obs) {
        if (op[0].str() == "kind") {
            const std::string& k = op[1].str();
            if (k == "layer") w.reset(new W<LayerK>()); else if (k == "mat") w.reset(new W<MatK>());
            else if (k == "coord") w.reset(new W<CoordK>()); else w.reset(new W<ElemK>());
            return J("ok");
        }
        return w->exec(op, obs);
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
