// Conformance driver for boxes (spec: Box.tla): real boxes in units of 1/4.
#include "vj.h"
#include <memory>
#include <limits>
#include "geometry/Box.h"
using namespace SEMBA;
using namespace SEMBA::Geometry;
struct IW { virtual ~IW() {} virtual J exec(const J&, J&) = 0; };
template <class T> struct W : IW {
    typedef Box<T, 3> B; typedef Math::Vector::Cartesian<T, 3> V;
    static double unit() { return std::is_floating_point<T>::value ? 4.0 : 1.0; }
    B a, b;
    static V v(const J& p) { return V((T)(p[0].n() / unit()), (T)(p[1].n() / unit()), (T)(p[2].n() / unit())); }
    static J j(const V& p) { J r; for (int d = 0; d < 3; d++) r.add(scaled(p(d), (long)unit())); return r; }
    static J jb(const B& x) { return J().add(j(x.getMin())).add(j(x.getMax())); }
    static J js(const std::vector<V>& q) { J r; for (const V& p : q) r.add(j(p)); return r; }
    static J bs(const std::vector<B>& q) { J r; for (const B& p : q) r.add(jb(p)); return r; }
    static J desc(const B& x) {
        if (x.getMin()(0) > x.getMax()(0)) return J("empty");
        int dim = x.isPoint() ? 0 : x.isLine() ? 1 : x.isSurface() ? 2 : 3;
        if (x.isPoint() + x.isLine() + x.isSurface() + x.isVolume() != 1) dim = 9;
        return jb(x).add((long)dim).add(j(x.getLength()));
    }
    J run(const std::string& n, const J& op) {
        if (n == "set" || n == "ctor" || n == "pair") {
            B& x = op[1].str() == "A" ? a : b;
            if (n == "set") x.set(std::make_pair(v(op[2]), v(op[3])));
            else if (n == "pair") x = B(std::make_pair(v(op[2]), v(op[3])));
            else { B y(v(op[2]), v(op[3])); B z(y); x = z; }
        } else if (n == "empty") { if (op[1].str() == "A") a = B(); else b = B();
        } else if (n == "point") { if (op[1].str() == "A") a << v(op[2]); else b << v(op[2]);
        } else if (n == "join") { a += b;
        } else if (n == "extend") { a << b;
        } else if (n == "assign") { a = b; a = a;
        } else if (n == "scale") { a.scale((double)op[1].n());
        } else if (n == "rel") {
            bool c = a.isIntersected(b), d = b.isIntersected(a);
            return J().add(J(a > b)).add(J(a < b)).add(J(a <= b)).add(J(a == b)).add(J(c)).add(J(d));
        } else if (n == "inter") { B x = a.intersect(b), y = b.intersect(a); if (!(x == y)) return J("not symmetric"); return jb(x);
        } else if (n == "inside") { return J(a.isInnerPoint(v(op[1])));
        } else if (n == "pos") { return js(a.getPos());
        } else if (n == "axis") {
            J r;
            try { r.add((long)a.getDirection()); } catch (const Error::Box::NotLine&) { r.add("refused"); }
            try { r.add((long)a.getNormal()); } catch (const Error::Box::NotSurface&) { r.add("refused"); }
            return r;
        } else if (n == "face") {
            Math::Constants::CartesianAxis d = Math::Constants::CartesianAxis(op[1].n()); Math::Constants::CartesianBound u = Math::Constants::CartesianBound(op[2].n());
            J r; r.add(js(a.getPosOfBound(d, u))); if (a.isVolume()) r.add(jb(a.getBoundAsBox(d, u))); else r.add("n/a");
            return r.add(j(a.getBound(u)));
        } else if (n == "chop") {
            V w; for (int d = 0; d < 3; d++) w(d) = (T)(op[1][d].n() / unit());
            if (op[1][0].n() == 1 && op[1][1].n() == 1 && op[1][2].n() == 1 && unit() == 1) return bs(a.chop());
            return bs(a.chop(w));
        } else if (n == "chopGrid") {
            std::vector<double> p[3]; for (int d = 0; d < 3; d++) for (long x : op[1][d].ints()) p[d].push_back(x / unit());
            return bs(a.chop(Grid3(p)));
        } else return J("unknown op");
        return J("ok");
    }
    J exec(const J& op, J& obs) {
        J res;
        try { res = run(op[0].str(), op); } catch (const std::exception& e) { res = J("refused"); }
        obs = J().add(desc(a)).add(desc(b));
        return res;
    }
};
struct World {
    std::unique_ptr<IW> w;
    J exec(const J& op, J& obs) {
        if (op[0].str() == "kind") { if (op[1].str() == "R") w.reset(new W<double>()); else w.reset(new W<int>()); obs = J().add("empty").add("empty"); return J("ok"); }
        return w->exec(op, obs);
    }
};
int main(int argc, char** argv) { return driverMain<World>(argc, argv); }
