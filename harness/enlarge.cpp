// Conformance driver for padded grids (spec: Enlarge.tla); 1/10000 units.
#include "vj.h"
#include <memory>
#include "geometry/Grid.h"
using namespace SEMBA;
using namespace SEMBA::Geometry;
static const double U = 10000.0;
struct World {
    std::unique_ptr<Grid3> g;
    static Math::CVecR3 r3(const J& p) { return Math::CVecR3(p[0].n() / U, p[1].n() / U, p[2].n() / U); }
    J exec(const J& op, J& obs) {
        J res("ok"); const std::string& n = op[0].str();
        try {
            if (n == "setPos") { std::vector<double> v[3]; for (int d = 0; d < 3; d++) for (long x : op[1][d].ints()) v[d].push_back(x / U);
                g.reset(new Grid3(v)); }
            else if (n == "enlarge") g->enlarge(std::make_pair(r3(op[1]), r3(op[3])), std::make_pair(r3(op[2]), r3(op[4])));
            else if (n == "bound") g->enlargeBound(Math::Constants::CartesianAxis(op[1].n()), Math::Constants::CartesianBound(op[2].n()), op[3].n() / U, op[4].n() / U);
            else return J("unknown op");
        } catch (const std::exception& e) { res = J("refused"); }
        for (int d = 0; d < 3; d++) {
            J q; for (double x : g->getPos(d)) { double y = x * U; if (y != y || std::fabs(y) > 1e8) q.add(J("not representable")); else q.add((long)std::floor(y + 0.5)); }
            obs.add(q);
        }
        return res;
    }
};
int main(int argc, char** argv) { return driverMain<World>(argc, argv); }
