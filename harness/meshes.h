// Meshes built from and described as JSON, shared by the drivers.
#ifndef MESHES_H
#define MESHES_H
#include "elems.h"
#include <set>
#include "geometry/mesh/Geometric.h"
#include "geometry/mesh/Structured.h"
#include "geometry/mesh/Unstructured.h"
#include "geometry/coordinate/Relative.h"
#include "geometry/coordinate/Conformal.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/bound/PEC.h"
#include "physicalModel/bound/PMC.h"
#include "physicalModel/bound/PML.h"
namespace vj {
namespace GMesh = SEMBA::Geometry::Mesh;
struct MEnv {
    std::vector<PhysicalModel::PhysicalModel*> mat; std::vector<const Geometry::Bound*> bound; std::vector<std::shared_ptr<const Geometry::Bound> > keep; const CoordR3* any[1];
    MEnv() {
        mat.push_back(nullptr); for (int k = 1; k < 6; k++) mat.push_back(new PhysicalModel::Predefined::PEC(MatId(k)));
        bound.push_back(nullptr); keep.emplace_back(new PhysicalModel::Bound::PEC(MatId(1))); keep.emplace_back(new PhysicalModel::Bound::PMC(MatId(2))); keep.emplace_back(new PhysicalModel::Bound::PML(MatId(3)));
        for (auto& x : keep) bound.push_back(x.get());  // terminations are shared objects
        any[0] = new CoordR3(CoordId(1), Math::CVecR3(0.0));
    }
};
inline MEnv& menv() { static MEnv* e = new MEnv(); return *e; }
inline Math::CVecR3 real3(const J& p) { return Math::CVecR3(p[0].n() / 256., p[1].n() / 256., p[2].n() / 256.); }
inline Grid3 mkGrid(const J& g) {
    std::vector<Math::Real> a[3];
    for (int d = 0; d < 3; d++) for (long v : g[d].ints()) a[d].push_back(v / 256.);
    return Grid3(a);
}
inline CoordR3* mkR(const J& a) { return new CoordR3(CoordId(a[0].n()), real3(a[2])); }
inline CoordI3* mkI(const J& a) {
    Math::CVecI3 p(a[2][0].n(), a[2][1].n(), a[2][2].n()); const J& x = a[3]; CoordId id(a[0].n());
    if (a[1].str() == "L") return new CoordRel(id, p, Math::CVecR3(x[0].n() / 4., x[1].n() / 4., x[2].n() / 4.));
    if (a[1].str() == "C") return new CoordConf(id, p, (Math::Constants::CartesianAxis)x[0].n(), x[1].n() / 4.);
    return new CoordI3(id, p);
}
template <class L> const Lay* layOf(const L& g, long l) { return l ? g.getId(LayerId(l)) : nullptr; }
template <class L> ElemR* mkE(const J& a, const Coordinate::Group<CoordR3>& cG, const L& lG) {
    std::vector<const CoordR3*> c; for (long k : a[2].ints()) c.push_back(cG.getId(CoordId(k)));
    return makeR(a[1].str(), a[0].n(), c, layOf(lG, a[3].n()), menv().mat.at(a[4].n()));
}
template <class L> ElemI* mkE(const J& a, const Coordinate::Group<CoordI3>& cG, const L& lG) {
    std::vector<const CoordI3*> c; for (long k : a[2].ints()) c.push_back(cG.getId(CoordId(k)));
    const Lay* l = layOf(lG, a[3].n()); const Mod* m = menv().mat.at(a[4].n());
    if (a[1].str() == "LConf") return new LinConf(ElemId(a[0].n()), c.data(), Math::CVecR3(1, 0, 0), l, m);
    return makeI(a[1].str(), a[0].n(), c, l, m);
}
inline GMesh::Mesh* mkMesh(const std::string& k, const J& grid, const J& cs, const J& es, const J& ls) {
    Geometry::Layer::Group<Lay> lG; for (std::size_t i = 0; i < ls.size(); i++) lG.add(new Lay(LayerId(ls[i][0].n()), ls[i][1].str()));
    if (k == "S") {
        Coordinate::Group<CoordI3> c; for (std::size_t i = 0; i < cs.size(); i++) c.add(mkI(cs[i]));
        ElemIGroup e; for (std::size_t i = 0; i < es.size(); i++) e.add(mkE(es[i], c, lG));
        return new GMesh::Structured(mkGrid(grid), c, e, lG);
    }
    Coordinate::Group<CoordR3> c; for (std::size_t i = 0; i < cs.size(); i++) c.add(mkR(cs[i]));
    ElemRGroup e; for (std::size_t i = 0; i < es.size(); i++) e.add(mkE(es[i], c, lG));
    if (k == "G") return new GMesh::Geometric(mkGrid(grid), c, e, lG);
    return new GMesh::Unstructured(c, e, lG);
}
inline J gridObs(const Grid3& g) { J r; for (int d = 0; d < 3; d++) { J q; for (Math::Real v : g.getPos(d)) q.add(scaled(v, 256)); r.add(q); } return r; }
inline J boxObs(const BoxR3& b) {
    if (b.getMin()(0) < -1e30 && b.getMax()(0) > 1e30) return J().add("infinite");
    return J().add(vec(b.getMin(), 256)).add(vec(b.getMax(), 256));
}
inline J coordObs(const CoordR3* c) { return J().add((long)c->getId().toInt()).add("R").add(vec(c->pos(), 256)).add(J().add(0).add(0).add(0)); }
inline J coordObs(const CoordI3* c) {
    J r; r.add((long)c->getId().toInt());
    J p; for (int d = 0; d < 3; d++) p.add((long)c->pos()(d));
    if (const CoordRel* l = dynamic_cast<const CoordRel*>(c)) r.add("L").add(p).add(vec(l->rel(), 4));
    else if (const CoordConf* k = dynamic_cast<const CoordConf*>(c)) r.add("C").add(p).add(J().add((long)k->getDir()).add(scaled(k->getLength(), 4)).add(0));
    else r.add("I").add(p).add(J().add(0).add(0).add(0));
    return r;
}
// coordinates, elements, layers, and whether they only refer to each other
template <class M> void contents(const M& m, J& out, std::string& closed) {
    J c, e, l;
    for (std::size_t i = 0; i < m.coords().size(); i++) c.add(coordObs(m.coords()(i)));
    for (std::size_t i = 0; i < m.layers().size(); i++) l.add(J().add((long)m.layers()(i)->getId().toInt()).add(m.layers()(i)->getName()));
    std::set<const void*> own;
    for (std::size_t i = 0; i < m.coords().size(); i++) own.insert((const void*)m.coords()(i));
    for (std::size_t i = 0; i < m.layers().size(); i++) own.insert((const void*)m.layers()(i));
    for (std::size_t i = 0; i < m.elems().size(); i++) {
        auto x = m.elems()(i); bool ok = true;
        for (std::size_t k = 0; k < x->numberOfCoordinates(); k++) if (!own.count((const void*)x->getV(k))) { closed = "an element refers to a coordinate of another mesh"; ok = false; }
        if (x->getLayer() && !own.count((const void*)x->getLayer())) { closed = "an element refers to a layer of another mesh"; ok = false; }
        if (ok) e.add(J().add((long)x->getId().toInt()).add(tyOf(x)).add(coordIds(x)).add((long)x->getLayerId().toInt()).add((long)x->getMatId().toInt()));
        else e.add((long)x->getId().toInt());
    }
    out.add(c).add(e).add(l);
}
inline J meshObs(const GMesh::Mesh* x) {
    J r; std::string closed = "closed";
    if (!x) return J().add("-");
    if (const GMesh::Structured* s = dynamic_cast<const GMesh::Structured*>(x)) {
        r.add("S").add(gridObs(s->grid())); contents(*s, r, closed);
        J b; for (int d = 0; d < 3; d++) for (int p = 0; p < 2; p++) { const Geometry::Bound* q = s->bounds()(d, p); long k = 0; for (long j = 1; j < 4; j++) if (menv().bound[j] == q) k = j; b.add(q && !k ? J("?") : J(k)); }
        r.add(b);
    } else {
        const GMesh::Unstructured* u = dynamic_cast<const GMesh::Unstructured*>(x); const GMesh::Geometric* g = dynamic_cast<const GMesh::Geometric*>(x);
        r.add(g ? "G" : "U").add(g ? gridObs(g->grid()) : J()); contents(*u, r, closed); r.add(J());
    }
    r.add(boxObs(x->getBoundingBox())).add(closed);
    return r;
}
template <class M> void parts1(const M& m, std::vector<const void*>& v) {
    for (std::size_t i = 0; i < m.coords().size(); i++) v.push_back((const void*)m.coords()(i));
    for (std::size_t i = 0; i < m.elems().size(); i++) v.push_back((const void*)static_cast<const Elem*>(m.elems()(i)));
    for (std::size_t i = 0; i < m.layers().size(); i++) v.push_back((const void*)m.layers()(i));
}
inline std::vector<const void*> parts(const GMesh::Mesh* x) {
    std::vector<const void*> v;
    if (!x) return v;
    if (const GMesh::Structured* s = dynamic_cast<const GMesh::Structured*>(x)) parts1(*s, v); else parts1(*dynamic_cast<const GMesh::Unstructured*>(x), v);
    return v;
}
}
#endif
