// Conformance driver for coordinate collections (spec: Coords.tla).
#include "vj.h"
#include <algorithm>
#include <map>
#include <memory>
#include "geometry/coordinate/Group.h"
#include "geometry/coordinate/Relative.h"
#include "geometry/coordinate/Conformal.h"
using namespace SEMBA;
using namespace SEMBA::Geometry;
typedef Coordinate::Group<> CG;
struct World {
    std::map<const Coord*, long> num; std::vector<std::shared_ptr<const Class::Shareable> > keep;
    std::unique_ptr<CG> g;
    std::vector<std::pair<J, J> > dummy;
    std::vector<J> uni;
    World() : g(new CG()) {}
    static Math::CVecR3 R(const J& p) { return Math::CVecR3((double)p[0].n(), (double)p[1].n(), (double)p[2].n()); }
    static Math::CVecI3 I(const J& p) { return Math::CVecI3((int)p[0].n(), (int)p[1].n(), (int)p[2].n()); }
    long ser(const Coord* c) {
        if (!c) return 0;
        if (num.count(c)) return num[c];
        keep.push_back(c->getSharedPtr()); long n = num.size() + 1; return num[c] = n;
    }
    Coord* mk(const J& s) {  // [kind, id, pos]
        CoordId id(s[1].n());
        if (s[0].str() == "R") return new CoordR3(id, R(s[2]));
        if (s[0].str() == "L") return new CoordRel(id, I(s[2]), Math::CVecR3(0.5));
        if (s[0].str() == "C") return new CoordConf(id, I(s[2]), Math::Constants::y, 0.5);
        return new CoordI3(id, I(s[2]));
    }
    J item(const Coord* c) {
        J e; e.add(ser(c)).add((long)c->getId().toInt());
        J p;
        if (c->is<CoordR3>()) { e.add("R"); const CoordR3* r = c->castTo<CoordR3>(); for (int k = 0; k < 3; k++) p.add(scaled(r->pos()(k), 4)); }
        else { e.add("I"); const CoordI3* r = c->castTo<CoordI3>(); for (int k = 0; k < 3; k++) p.add(scaled(r->pos()(k), 4)); }
        e.add(p); return e;
    }
    J exec(const J& op, J& obs) {
        const std::string& n = op[0].str();
        J res("ok");
        try {
            if (n == "universe") { for (std::size_t k = 0; k < op[1].size(); k++) uni.push_back(op[1][k]);
            } else if (n == "addPos") {  // kind pos overlap
                const Coord* c = op[1].str() == "R" ? g->addPos(R(op[2]), op[3].b()) : g->addPos(I(op[2]), op[3].b());
                if (c == nullptr) return J("null");
                ser(c); res = item(c);
            } else if (n == "addPosDef") {  // default: no overlap
                const Coord* c = op[1].str() == "R" ? g->addPos(R(op[2])) : g->addPos(I(op[2]));
                if (c == nullptr) return J("null");
                res = item(c);
            } else if (n == "addPosV") {
                J r; std::vector<Math::CVecR3> vr; std::vector<Math::CVecI3> vi;
                for (std::size_t k = 0; k < op[2].size(); k++) { vr.push_back(R(op[2][k])); vi.push_back(I(op[2][k])); }
                Group::Group<Coord> a = op[1].str() == "R" ? g->addPos(vr, op[3].b()) : g->addPos(vi, op[3].b());
                for (std::size_t k = 0; k < a.size(); k++) r.add(ser(a(k)));
                res = r;
            } else if (n == "add") {
                std::vector<Coord*> v; for (std::size_t k = 0; k < op[1].size(); k++) v.push_back(mk(op[1][k]));
                g->add(v);
            } else if (n == "assignRaw") {
                std::vector<Coord*> v; for (std::size_t k = 0; k < op[1].size(); k++) v.push_back(mk(op[1][k]));
                Group::Group<Coord> s(v); if (op[2].b()) *g = s; else *g = std::move(s);
            } else if (n == "construct") {
                std::vector<Math::CVecR3> vr; std::vector<Math::CVecI3> vi;
                for (std::size_t k = 0; k < op[2].size(); k++) { vr.push_back(R(op[2][k])); vi.push_back(I(op[2][k])); }
                g.reset(op[1].str() == "R" ? new CG(vr) : new CG(vi));
            } else if (n == "set") { g->set(op[1].n() - 1, mk(op[2]));
            } else if (n == "clone") { CG* c = dynamic_cast<CG*>(g->clone()); g.reset(c);
            } else if (n == "copy") { CG* c = new CG(*g); g.reset(c);
            } else if (n == "moved") { CG* c = new CG(); *c = std::move(*g); g.reset(c);
            } else if (n == "remove") {
                if (op[1].size() == 1) g->remove(op[1][0].n() - 1);
                else { std::vector<std::size_t> p; for (std::size_t k = 0; k < op[1].size(); k++) p.push_back(op[1][k].n() - 1); g->remove(p); }
            } else if (n == "removeId") {
                std::vector<CoordId> p; for (std::size_t k = 0; k < op[1].size(); k++) p.push_back(CoordId(op[1][k].n()));
                if (p.size() == 1) g->removeId(p[0]); else g->removeId(p);
            } else if (n == "clear") { g->clear();
            } else if (n == "scale") { g->applyScalingFactor((double)op[1].n() / (double)op[2].n());
            } else return J("unknown op");
        } catch (Group::Error::Id::Base<CoordId>&) { res = J("refused"); }
        const CG& c = *g;
        obs = J::obj();
        J l; for (std::size_t k = 0; k < c.size(); k++) l.add(item(c(k)));
        obs.put("list", l);
        J lr, li, la;
        for (std::size_t k = 0; k < uni.size(); k++) {
            const CoordR3* r = c.getPos(Math::CVecR3(uni[k][0].n() / 4.0, uni[k][1].n() / 4.0, uni[k][2].n() / 4.0));
            lr.add(ser(r));
            if (uni[k][0].n() % 4 || uni[k][1].n() % 4 || uni[k][2].n() % 4) { li.add(0); la.add(J()); continue; }
            Math::CVecI3 ip(uni[k][0].n() / 4, uni[k][1].n() / 4, uni[k][2].n() / 4);
            li.add(ser(c.getPos(ip)));
            Group::Group<const Coord> all = c.getAllInPos(ip);
            std::vector<long> v; for (std::size_t m = 0; m < all.size(); m++) v.push_back(ser(all(m)));
            std::sort(v.begin(), v.end()); J a; for (std::size_t m = 0; m < v.size(); m++) a.add(v[m]);
            la.add(a);
        }
        J lk; for (long k = 0; k <= 10; k++) lk.add(c.existId(CoordId(k)) ? ser(c.getId(CoordId(k))) : 0L);
        obs.put("posR", lr).put("posI", li).put("allI", la).put("look", lk);
        return res;
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
