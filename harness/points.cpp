// Conformance driver for the kinds of coordinates (spec: Points.tla).
#include "vj.h"
#include <memory>
#include "geometry/Grid.h"
#include "geometry/coordinate/Coordinate.h"
#include "geometry/coordinate/Conformal.h"
#include "geometry/coordinate/Relative.h"
using namespace SEMBA; using namespace Geometry;
struct World {
    std::shared_ptr<Coord> c[4];
    static Math::CVecR3 r8(const J& p) { return Math::CVecR3(p[0].n() / 8., p[1].n() / 8., p[2].n() / 8.); }
    static Math::CVecI3 n3(const J& p) { return Math::CVecI3(p[0].n(), p[1].n(), p[2].n()); }
    static Grid3 grid(const J& g) { std::vector<Math::Real> v[3]; for (int d = 0; d < 3; d++) for (std::size_t i = 0; i < g[d].size(); i++) v[d].push_back(g[d][i].n() / 8.); return Grid3(v); }
    static J j8(const Math::CVecR3& p) { J r; for (int d = 0; d < 3; d++) r.add(scaled(p(d), 8)); return r; }
    static J ji(const Math::CVecI3& p) { J r; for (int d = 0; d < 3; d++) r.add((long)p(d)); return r; }
    CoordR3* R(long i) { return dynamic_cast<CoordR3*>(c[i].get()); }
    CoordI3* I(long i) { return dynamic_cast<CoordI3*>(c[i].get()); }
    CoordConf* C(long i) { return dynamic_cast<CoordConf*>(c[i].get()); }
    CoordRel* L(long i) { return dynamic_cast<CoordRel*>(c[i].get()); }
    J see(long i) {
        if (!c[i]) return J();
        J r; J id((long)c[i]->getId().toInt());
        if (R(i)) return r.add("R").add(id).add(j8(R(i)->pos())).add(J());
        const Math::CVecI3& p = I(i)->pos();
        if (C(i)) return r.add("C").add(id).add(ji(p)).add(J().add((long)C(i)->getDir()).add(scaled(C(i)->getLength(), 8)));
        if (L(i)) return r.add("L").add(id).add(ji(p)).add(j8(const_cast<const CoordRel*>(L(i))->rel()));
        return r.add("I").add(id).add(ji(p)).add(J());
    }
    J exec(const J& op, J& obs) { J res = run(op); obs = J(); for (int i = 0; i < 4; i++) obs.add(see(i)); return res; }
    static Math::Constants::CartesianAxis axis(long a) { return (Math::Constants::CartesianAxis)a; }
    J run(const J& op) {
        const std::string& n = op[0].str(); long i = op[1].n();
        auto set = [&](Coord* x) { std::shared_ptr<Coord> p(x); c[i] = p; };
        if (n == "new") {
            const std::string& k = op[2].str(); CoordId id(op[3].n());
            if (k == "R") set(new CoordR3(id, r8(op[4]))); else if (k == "I") set(new CoordI3(id, n3(op[4])));
            else if (k == "C") set(new CoordConf(id, n3(op[4]), axis(op[5][0].n()), op[5][1].n() / 8.)); else set(new CoordRel(id, n3(op[4]), r8(op[5])));
        } else if (n == "bare") {
            const std::string& k = op[2].str();
            if (k == "R") set(new CoordR3(r8(op[3]))); else if (k == "I") set(new CoordI3(n3(op[3]))); else set(new CoordConf(axis(op[4][0].n()), op[4][1].n() / 8.));
        } else if (n == "blank") {
            const std::string& k = op[2].str();
            if (k == "R") set(new CoordR3()); else if (k == "I") set(new CoordI3()); else if (k == "C") set(new CoordConf()); else set(new CoordRel());
        } else if (n == "split") { if (op[2].n()) set(new CoordRel(CoordId(op[2].n()), r8(op[3]))); else set(new CoordRel(r8(op[3]))); }
        else if (n == "clone") { set(c[op[2].n()]->cloneTo<Coord>()); }
        else if (n == "copy") { long j = op[2].n(); if (R(j)) set(new CoordR3(*R(j))); else if (C(j)) set(new CoordConf(*C(j))); else if (L(j)) set(new CoordRel(*L(j))); else set(new CoordI3(*I(j))); }
        else if (n == "assign") { long j = op[2].n(); if (R(j)) *R(i) = *R(j); else if (C(j)) *C(i) = *C(j); else if (L(j)) *L(i) = *L(j); else *I(i) = *I(j); }
        else if (n == "drop") c[i].reset();
        else if (n == "id") c[i]->setId(CoordId(op[2].n()));
        else if (n == "move") { if (R(i)) R(i)->pos()(op[2].n() - 1) = op[3].n() / 8.; else I(i)->pos()(op[2].n() - 1) = op[3].n(); }
        else if (n == "rel") L(i)->rel()(op[2].n() - 1) = op[3].n() / 8.;
        else if (n == "eq") { long j = op[2].n(); bool a = *c[i] == *c[j]; if (a == (*c[i] != *c[j])) return J("equality disagrees"); return J(a); }
        else if (n == "struct") return J(R(i)->isStructured(grid(op[2])));
        else if (n == "toI") set(R(op[2].n())->toStructured(grid(op[3])));
        else if (n == "toR") set(I(op[2].n())->toUnstructured(grid(op[3])));
        else return J("unknown op");
        return J("ok");
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
