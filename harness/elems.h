// Element factory and description shared by the conformance drivers.
#ifndef ELEMS_H
#define ELEMS_H
#include "vj.h"
#include "geometry/element/Node.h"
#include "geometry/element/Line2.h"
#include "geometry/element/LineConformal.h"
#include "geometry/element/Polyline.h"
#include "geometry/element/Triangle3.h"
#include "geometry/element/Triangle6.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Tetrahedron4.h"
#include "geometry/element/Tetrahedron10.h"
#include "geometry/element/Hexahedron8.h"
#include "geometry/element/Group.h"
namespace vj {
using namespace SEMBA;
using namespace SEMBA::Geometry;
typedef SEMBA::Geometry::Layer::Layer Lay;
typedef SEMBA::Geometry::Element::Model Mod;
inline ElemR* makeR(const std::string& ty, long id, std::vector<const CoordR3*> c, const Lay* l = nullptr, const Mod* m = nullptr) {
    const CoordR3** v = c.data(); ElemId i(id);
    if (ty == "Node") return new NodR(i, v, l, m);
    if (ty == "Line") return new LinR2(i, v, l, m);
    if (ty == "Poly") return new PolylinR(i, c, l, m);
    if (ty == "Tri3") return new Tri3(i, v, l, m);
    if (ty == "Tri6") return new Tri6(i, v, l, m);
    if (ty == "Qua4") return new QuaR4(i, v, l, m);
    if (ty == "Tet4") return new Tet4(i, v, l, m);
    if (ty == "Tet10") return new Tet10(i, v, l, m);
    if (ty == "Hex8") return new HexR8(i, v, l, m);
    throw std::logic_error("factory " + ty);
}
inline ElemI* makeI(const std::string& ty, long id, std::vector<const CoordI3*> c, const Lay* l = nullptr, const Mod* m = nullptr) {
    const CoordI3** v = c.data(); ElemId i(id);
    if (ty == "Node") return new NodI(i, v, l, m);
    if (ty == "Line") return new LinI2(i, v, l, m);
    if (ty == "Poly") return new PolylinI(i, c, l, m);
    if (ty == "Qua4") return new QuaI4(i, v, l, m);
    if (ty == "Hex8") return new HexI8(i, v, l, m);
    throw std::logic_error("factory " + ty);
}
inline std::string tyOf(const Elem* e) {
    if (e->is<Nod>()) return "Node";
    if (dynamic_cast<const LinConf*>(e)) return "LConf";
    if (e->is<Lin2>()) return "Line";
    if (e->is<Polylin>()) return "Poly";
    if (dynamic_cast<const Tri6*>(e)) return "Tri6";
    if (dynamic_cast<const Tri3*>(e)) return "Tri3";
    if (e->is<Qua4>()) return "Qua4";
    if (dynamic_cast<const Tet10*>(e)) return "Tet10";
    if (dynamic_cast<const Tet4*>(e)) return "Tet4";
    if (e->is<Hex8>()) return "Hex8";
    return "?";
}
inline bool isR(const Elem* e) { return dynamic_cast<const ElemR*>(e) != nullptr; }
// ids of the coordinates
inline J coordIds(const Elem* e) {
    J r;
    if (const ElemR* x = dynamic_cast<const ElemR*>(e)) for (std::size_t k = 0; k < x->numberOfCoordinates(); k++) r.add((long)x->getV(k)->getId().toInt());
    else { const ElemI* y = dynamic_cast<const ElemI*>(e); for (std::size_t k = 0; k < y->numberOfCoordinates(); k++) r.add((long)y->getV(k)->getId().toInt()); }
    return r;
}
// [id, type, R|I, coordinate ids, layer, material]
inline J descr(const Elem* e) {
    J r; r.add((long)e->getId().toInt()).add(tyOf(e)).add(isR(e) ? "R" : "I").add(coordIds(e));
    r.add((long)e->getLayerId().toInt()).add((long)e->getMatId().toInt());
    return r;
}
template <class V> inline J vec(const V& p, long scale) { J r; for (int k = 0; k < 3; k++) r.add(scaled(p(k), scale)); return r; }
}
#endif
