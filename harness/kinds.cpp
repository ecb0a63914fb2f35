// Conformance driver for the kinds of elements (spec: Kinds.tla).
#include "elems.h"
#include <memory>
#include "physicalModel/predefined/PEC.h"
using namespace vj;
static const Lay* layerOf(long k) { static std::map<long, Lay*> m; if (k == 0) return nullptr; if (!m[k]) m[k] = new Lay(LayerId(k), "l"); return m[k]; }
static const Mod* matOf(long k) { static std::map<long, PhysicalModel::Predefined::PEC*> m; if (k == 0) return nullptr; if (!m[k]) m[k] = new PhysicalModel::Predefined::PEC(MatId(k)); return m[k]; }
static J i3(const Math::CVecR3& p) { return vec(p, 1); }
static J i3(const Math::CVecI3& p) { return J().add((long)p(0)).add((long)p(1)).add((long)p(2)); }
struct World {
    std::shared_ptr<Elem> e[4]; std::string k[4];
    static Math::CVecR3 r3(const J& p, double u = 1) { return Math::CVecR3(p[0].n() / u, p[1].n() / u, p[2].n() / u); }
    static Math::CVecI3 n3(const J& p) { return Math::CVecI3(p[0].n(), p[1].n(), p[2].n()); }
    std::vector<std::shared_ptr<CoordR3>> rs; std::vector<std::shared_ptr<CoordI3>> is;
    const CoordR3* cr(const J& c) { rs.emplace_back(new CoordR3(CoordId(c[0].n()), r3(c[1]))); return rs.back().get(); }
    const CoordI3* ci(const J& c, bool conf = false) { is.emplace_back(conf ? new CoordConf(CoordId(c[0].n()), n3(c[1]), Math::Constants::x, 0.0) : new CoordI3(CoordId(c[0].n()), n3(c[1]))); return is.back().get(); }
    void set(long i, Elem* x, const std::string& kind) { e[i].reset(); e[i] = std::shared_ptr<Elem>(x); k[i] = kind; }
    static J unit(const Math::CVecR3& v) { J r; for (int d = 0; d < 3; d++) { double x = v(d) * 4096; r.add(x != x || std::fabs(x) > 1e8 ? -99999L : (long)std::floor(x + .5)); } return r; }
    static J unit(const Math::CVecI3& v) { J r; for (int d = 0; d < 3; d++) r.add((long)v(d) * 4096); return r; }
    static J sq(double a) { return scaled(4 * a * a, 1); }
    template <class S> static J planes(const S* s) {
        bool b[3] = {s->isContainedInPlane(Math::Constants::xy), s->isContainedInPlane(Math::Constants::yz), s->isContainedInPlane(Math::Constants::zx)};
        if (s->isContainedInPlane() != (b[0] || b[1] || b[2])) return J("planes disagree");
        return J().add(b[0]).add(b[1]).add(b[2]);
    }
    template <class V> static J fplanes(const V* v, std::size_t f) {
        return J().add(v->isFaceContainedInPlane(f, Math::Constants::xy)).add(v->isFaceContainedInPlane(f, Math::Constants::yz)).add(v->isFaceContainedInPlane(f, Math::Constants::zx));
    }
    template <class T> static J obsT(const Elem* b, const Element::Element<T>* e, const std::string& kind) {
        typedef Coordinate::Coordinate<T, 3> C;
        J cs, vs, sc, sv;
        for (std::size_t i = 0; i < e->numberOfCoordinates(); i++) cs.add(J().add((long)e->getV(i)->getId().toInt()).add(i3(e->getV(i)->pos())));
        for (std::size_t i = 0; i < e->numberOfVertices(); i++) vs.add((long)e->getVertex(i)->getId().toInt());
        if (e->getVertices().size() != e->numberOfVertices() || e->getCoordinates().size() != e->numberOfCoordinates()) return J("sizes disagree");
        for (std::size_t f = 0; f < e->numberOfFaces(); f++) {
            J a, c;
            for (std::size_t i = 0; i < e->numberOfSideCoordinates(f); i++) { a.add((long)e->getSideV(f, i)->getId().toInt()); if (e->getSideCoordinates(f)[i] != e->getSideV(f, i)) return J("lists disagree"); }
            for (std::size_t i = 0; i < e->numberOfSideVertices(f); i++) { c.add((long)e->getSideVertex(f, i)->getId().toInt()); if (e->getSideVertices(f)[i] != e->getSideVertex(f, i)) return J("lists disagree"); }
            sc.add(a); sv.add(c);
        }
        J r; r.add(tyOf(b)).add(kind).add((long)b->getId().toInt()).add((long)b->getLayerId().toInt()).add((long)b->getMatId().toInt()).add(cs).add(vs).add(sc).add(sv);
        r.add(J().add(i3(e->getBound().getMin())).add(i3(e->getBound().getMax()))).add(J().add(i3(e->getMinV()->pos())).add(i3(e->getMaxV()->pos())));
        return r;
    }
    static J geo(const Elem* b) {
        J g; bool cur = b->isCurved(), quad = b->isQuadratic();
        if (auto t = dynamic_cast<const Tri3*>(b)) return g.add(sq(t->getArea())).add(planes(t)).add(t->isRectangular()).add(cur).add(quad);
        if (auto t = dynamic_cast<const Tri6*>(b)) return g.add(cur).add(planes(t)).add(t->isRectangular()).add(quad);
        if (auto t = dynamic_cast<const QuaR4*>(b)) return g.add(t->isRectangular()).add(planes(t)).add(cur).add(quad);
        if (auto t = dynamic_cast<const QuaI4*>(b)) return g.add(t->isRectangular()).add(planes(t)).add(cur).add(quad);
        if (auto t = dynamic_cast<const Tet4*>(b)) { J l; for (int f = 0; f < 4; f++) l.add(J().add(sq(t->getAreaOfFace(f))).add(fplanes(t, f)).add(t->isCurvedFace(f))); return g.add(scaled(6 * t->getVolume(), 1)).add(l).add(cur).add(quad); }
        if (auto t = dynamic_cast<const Tet10*>(b)) { J l; for (int f = 0; f < 4; f++) l.add(J().add(t->isCurvedFace(f)).add(fplanes(t, f))); return g.add(cur).add(l).add(quad); }
        if (auto t = dynamic_cast<const HexR8*>(b)) { J l; for (int f = 0; f < 6; f++) l.add(J().add(sq(t->getAreaOfFace(f))).add(fplanes(t, f)).add(t->isCurvedFace(f))); return g.add(t->isRegular()).add(l).add(cur).add(quad); }
        if (auto t = dynamic_cast<const HexI8*>(b)) { J l; for (int f = 0; f < 6; f++) l.add(J().add(sq(t->getAreaOfFace(f))).add(fplanes(t, f)).add(t->isCurvedFace(f))); return g.add("-").add(l).add(cur).add(quad); }
        if (auto t = dynamic_cast<const LinConf*>(b)) return g.add(i3(t->getNorm())).add(cur).add(quad);
        return g.add(cur).add(quad);
    }
    static J norms(const Elem* b) {
        J r;
        if (auto s = dynamic_cast<const SurfR*>(b)) return r.add(unit(s->getNormal()));
        if (auto s = dynamic_cast<const Surf*>(b)) return r.add(unit(dynamic_cast<const QuaI4*>(b)->getNormal()));
        if (auto v = dynamic_cast<const VolR*>(b)) { for (std::size_t f = 0; f < v->numberOfFaces(); f++) r.add(unit(v->getSideNormal(f))); return r; }
        if (auto v = dynamic_cast<const HexI8*>(b)) for (std::size_t f = 0; f < 6; f++) r.add(unit(v->getSideNormal(f)));
        return r;
    }
    J exec(const J& op, J& obs) {
        J res = run(op), l, m;
        for (int i = 0; i < 4; i++) {
            if (!e[i]) { l.add(J()); m.add(J()); continue; }
            J o = isR(e[i].get()) ? obsT<Math::Real>(e[i].get(), dynamic_cast<const ElemR*>(e[i].get()), k[i]) : obsT<Math::Int>(e[i].get(), dynamic_cast<const ElemI*>(e[i].get()), k[i]);
            o.add(geo(e[i].get())); l.add(o); m.add(norms(e[i].get()));
        }
        obs = J(); obs.add(l).add(m);
        return res;
    }
    template <class T> J boxed(const J& op) {
        typedef Coordinate::Coordinate<T, 3> C; typedef Math::Vector::Cartesian<T, 3> V;
        static std::vector<std::shared_ptr<Coordinate::Group<C>>> keep; keep.emplace_back(new Coordinate::Group<C>()); auto& g = *keep.back();
        auto v = [](const J& p) { return V(p[0].n(), p[1].n(), p[2].n()); };
        for (std::size_t i = 0; i < op[6].size(); i++) g.addPos(v(op[6][i]));
        Box<T, 3> b(v(op[4]), v(op[5])); const std::string& t = op[2].str(); Elem* x;
        try {
            if (t == "Node") x = new Element::Node<T>(g, ElemId(9), b); else if (t == "Line") x = new Element::Line2<T>(g, ElemId(9), b);
            else if (t == "Qua4") x = new Element::Quadrilateral4<T>(g, ElemId(9), b); else x = new Element::Hexahedron8<T>(g, ElemId(9), b);
        } catch (const Error::Box::NotPoint&) { return J(t == "Node" ? "refused" : "wrong error"); } catch (const Error::Box::NotLine&) { return J(t == "Line" ? "refused" : "wrong error"); }
        catch (const Error::Box::NotSurface&) { return J(t == "Qua4" ? "refused" : "wrong error"); } catch (const Error::Box::NotVolume&) { return J(t == "Hex8" ? "refused" : "wrong error"); }
        set(op[1].n(), x, op[3].str());
        J r; for (std::size_t i = 0; i < g.size(); i++) r.add(i3(g(i)->pos())); return r;
    }
    J run(const J& op) {
        const std::string& n = op[0].str(); long i = op[1].n();
        if (n == "new") {
            const std::string& t = op[2].str(); bool R = op[3].str() == "R"; const Lay* l = layerOf(op[5].n()); const Mod* m = matOf(op[6].n()); Elem* x;
            std::vector<const CoordR3*> vr; std::vector<const CoordI3*> vi;
            for (std::size_t q = 0; q < op[7].size(); q++) { if (R) vr.push_back(cr(op[7][q])); else vi.push_back(ci(op[7][q], t == "LConf")); }
            if (t == "LConf") { if (op[4].n()) x = new LinConf(ElemId(op[4].n()), vi.data(), r3(op[8]), l, m); else x = new LinConf(vi.data(), r3(op[8]), l, m); }
            else if (R) { try { x = makeR(t, op[4].n(), vr, l, m); } catch (const Element::Error::NullVolume&) { return J("refused"); } }
            else x = makeI(t, op[4].n(), vi, l, m);
            set(i, x, op[3].str());
        } else if (n == "clone") { long j = op[2].n(); set(i, e[j]->cloneTo<Elem>(), k[j]); }
        else if (n == "drop") e[i].reset();
        else if (n == "setV") { if (k[i] == "R") dynamic_cast<ElemR*>(e[i].get())->setV(op[2].n() - 1, cr(op[3])); else dynamic_cast<ElemI*>(e[i].get())->setV(op[2].n() - 1, ci(op[3], dynamic_cast<LinConf*>(e[i].get()) != nullptr)); }
        else if (n == "attr") { e[i]->setLayer(layerOf(op[2].n())); e[i]->setModel(matOf(op[3].n())); }
        else if (n == "linear") {
            const Elem* x = e[op[2].n()].get();
            if (auto t = dynamic_cast<const Tet10*>(x)) set(i, t->linearize(), "R"); else if (auto t = dynamic_cast<const Tri6*>(x)) set(i, t->linearize(), "R"); else set(i, dynamic_cast<const Tri3*>(x)->linearize(), "R");
        } else if (n == "face") {
            const Elem* x = e[op[2].n()].get();
            if (op[4].n() == 3) set(i, dynamic_cast<const Element::Tetrahedron*>(x)->getTri3Face(op[3].n()), "R"); else set(i, new Tri6(dynamic_cast<const Tet10*>(x)->getTri6Face(op[3].n())), "R");
        } else if (n == "eq") { bool a = *e[i] == *e[op[2].n()], b = *e[op[2].n()] == *e[i], c = *e[i] != *e[op[2].n()]; if (a != b || a == c) return J("equality disagrees"); return J(a); }
        else if (n == "coord") { if (k[i] == "R") return J(dynamic_cast<ElemR*>(e[i].get())->isCoordinate(cr(op[2]))); return J(dynamic_cast<ElemI*>(e[i].get())->isCoordinate(ci(op[2], dynamic_cast<LinConf*>(e[i].get()) != nullptr))); }
        else if (n == "inside") return J(dynamic_cast<Tet4*>(e[i].get())->isInnerPoint(r3(op[2], 4)));
        else if (n == "boxed") { if (op[3].str() == "R") return boxed<Math::Real>(op); return boxed<Math::Int>(op); }
        else if (n == "near") {
            try { return J((long)dynamic_cast<VolR*>(e[i].get())->getFaceNumber(dynamic_cast<SurfR*>(e[op[2].n()].get()))); } catch (const std::exception&) { return J("refused"); }
        } else return J("unknown op");
        return J("ok");
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
