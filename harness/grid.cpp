// Conformance driver for grids (spec: Grid.tla): positions in units of 1/128,
// fractions of a cell in 1/512.
#include "vj.h"
#include <memory>
#include "geometry/Grid.h"
using namespace SEMBA;
using namespace SEMBA::Geometry;
typedef Math::CVecR3 R3; typedef Math::CVecI3 I3;
static const double U = 128.0;
struct World {
    std::unique_ptr<Grid3> g;
    static R3 r3(const J& p) { return R3(p[0].n() / U, p[1].n() / U, p[2].n() / U); }
    static I3 i3(const J& p) { return I3((int)p[0].n(), (int)p[1].n(), (int)p[2].n()); }
    static J jr(const R3& v, long s = 128) { return J().add(scaled(v(0), s)).add(scaled(v(1), s)).add(scaled(v(2), s)); }
    static J ji(const I3& v) { return J().add((long)v(0)).add((long)v(1)).add((long)v(2)); }
    static J jv(const std::vector<double>& v) { J r; for (double x : v) r.add(scaled(x, 128)); return r; }
    static J jb(const BoxR3& b) { return J().add(jr(b.getMin())).add(jr(b.getMax())); }
    static J jbi(const BoxI3& b) { return J().add(ji(b.getMin())).add(ji(b.getMax())); }
    static void lines(const J& p, std::vector<double> v[3]) { for (int d = 0; d < 3; d++) for (long x : p[d].ints()) v[d].push_back(x / U); }
    J exec(const J& op, J& obs) {
        J res("ok");
        const std::string& n = op[0].str();
        try { res = run(n, op); } catch (const std::exception& e) { res = J(std::string("refused")); }
        if (!g) return res;
        const Grid3& c = *g;
        obs = J::obj();
        obs.put("n", ji(c.getNumCells())).put("origin", jr(c.getOrigin()));
        J pos, st, reg; 
        for (int d = 0; d < 3; d++) {
            std::vector<double> p = c.getPos(d), s = c.getStep(d);
            for (std::size_t k = 0; k < p.size(); k++) if (c.getPos(d, (int)k) != p[k]) return J("getPos(d,i) differs from getPos(d)[i]");
            for (std::size_t k = 0; k < s.size(); k++) if (c.getStep(d, (int)k) != s[k]) return J("getStep(d,i) differs from getStep(d)[i]");
            pos.add(jv(p)); st.add(jv(s)); reg.add(J(c.isRegular(d)));
        }
        J all; for (const R3& p : c.getPos()) all.add(jr(p));
        obs.put("pos", pos).put("steps", st).put("min", scaled(c.getMinimumSpaceStep(), 128)).put("reg", reg).put("regAll", J(c.isRegular()))
           .put("cart", J(c.isCartesian())).put("box", jb(c.getFullDomainBoundingBox())).put("cells", jbi(c.getFullDomainBoundingCellBox()))
           .put("all", all).put("zero", J(c.hasZeroSize()));
        return res;
    }
    J run(const std::string& n, const J& op) {
        if (n == "setPos") { std::vector<double> v[3]; lines(op[1], v); g.reset(new Grid3()); g->setPos(v); return J("ok"); }
        if (n == "ctor") { std::vector<double> v[3]; lines(op[1], v); g.reset(new Grid3(v)); return J("ok"); }
        if (n == "box") { g.reset(new Grid3(BoxR3(r3(op[1]), r3(op[2])), r3(op[3]))); return J("ok"); }
        if (n == "dims") { g.reset(new Grid3(BoxR3(r3(op[1]), r3(op[2])), i3(op[3]))); return J("ok"); }
        if (n == "copy") { g.reset(new Grid3(*g)); return J("ok"); }
        if (n == "assign") { std::unique_ptr<Grid3> h(new Grid3()); *h = *g; *h = *h; g.swap(h); return J("ok"); }
        if (n == "scale") { g->applyScalingFactor((double)op[1].n() / op[2].n()); return J("ok"); }
        if (n == "extra") { std::vector<double> v; for (long x : op[3].ints()) v.push_back(x / U);
            g->setAdditionalSteps(Math::Constants::CartesianAxis(op[1].n()), Math::Constants::CartesianBound(op[2].n()), v); return J("ok"); }
        if (n == "regular") {
            std::vector<double> v[3];
            for (int d = 0; d < 3; d++) { double x = -1; v[d].push_back(x); for (long w : op[1][d].ints()) v[d].push_back(x += w / U); }
            const Grid3 h(v);
            J a; for (int d = 0; d < 3; d++) a.add(J(h.isRegular(d)));
            return J().add(a).add(J(h.isRegular())).add(J(h.isCartesian())).add(scaled(h.getMinimumSpaceStep(), 128));
        }
        const Grid3& c = *g;
        if (n == "cell") {
            const bool def = op[4].n() == 1;
            bool err = false, e2 = false; double x = op[2].n() / U;
            std::pair<int, double> p = def ? c.getCellPair(op[1].n(), x, op[3].b(), Grid3::tolerance, &err) : c.getCellPair(op[1].n(), x, op[3].b(), op[4].n() / 100.0, &err);
            int k = c.getCell(op[1].n(), x, op[3].b(), op[4].n() / 100.0, &e2);
            if (k != p.first || e2 != err) return J("getCell differs from getCellPair");
            return J().add((long)p.first).add(scaled(p.second, 512)).add(J(err));
        }
        if (n == "cell3") {
            bool err = false, e2 = false; std::pair<I3, R3> p = c.getCellPair(r3(op[1]), op[2].b(), Grid3::tolerance, &err);
            I3 k = c.getCell(r3(op[1]), op[2].b(), Grid3::tolerance, &e2);
            if (k != p.first || e2 != err) return J("getCell differs from getCellPair");
            return J().add(ji(p.first)).add(jr(p.second, 512)).add(J(err));
        }
        if (n == "isCell") { bool a = c.isCell(r3(op[1])); std::vector<R3> v; v.push_back(r3(op[1])); if (c.isCell(v) != a) return J("isCell of a list differs");
            v.insert(v.begin(), c.getOrigin()); if (c.isCell(v) != a) return J("isCell of a list differs"); return J(a); }
        if (n == "into") return J(c.isInto(r3(op[1])));
        if (n == "into1") return J(c.isInto(op[1].n(), op[2].n() / U));
        if (n == "natural") { long i = -7; double rel = 0; double x = op[2].n() / U; bool ok = c.getNaturalCell(Math::Constants::CartesianAxis(op[1].n()), x, i, rel);
            J r; r.add(J(ok)).add(i); if (ok) r.add(scaled(rel, 512)); return r; }
        if (n == "frac") { bool in = false; Math::CVecI3Fractional f = c.getCVecI3Fractional(r3(op[1]), in); if (!in) return J().add(J(false));
            return J().add(J(true)).add(ji(f)).add(jr(f.len_, 512)); }
        if (n == "posOf") return jr(c.getPos(i3(op[1])));
        if (n == "boxOf") return jb(c.getBoundingBox(BoxI3(i3(op[1]), i3(op[2]))));
        if (n == "around") return J().add(jbi(c.getBoxIContaining(r3(op[1])))).add(jb(c.getBoxRContaining(r3(op[1]))));
        if (n == "range") return jv(c.getPosInRange(op[1].n(), op[2].n() / U, op[3].n() / U));
        if (n == "centers") { J q; for (int d = 0; d < 3; d++) q.add(jv(c.getPosInRange(d, op[1][d].n() / U, op[2][d].n() / U)));
            J r; for (const R3& p : c.getCenterOfCellsInside(BoxR3(r3(op[1]), r3(op[2])))) r.add(jr(p, 256)); return J().add(q).add(r); }
        return J("unknown op");
    }
};
int main(int argc, char** argv) { return driverMain<World>(argc, argv); }
