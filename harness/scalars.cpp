// Conformance driver for comparisons, ranges, averages, spherical coordinates and spectra (spec: Scalars.tla).
#include "vj.h"
#include <complex>
#include "math/util/Real.h"
#include "math/util/SpaceGenerator.h"
#include "math/util/Statistic.h"
#include "math/util/DTFT.h"
#include "math/vector/Spherical.h"
#include "math/function/Gaussian.h"
using namespace SEMBA;
namespace U = SEMBA::Math::Util;
typedef std::complex<double> C;
static double num(const J& a) { return a[1].n() ? std::ldexp((double)a[0].n(), -60) : (double)a[0].n(); }
static const double Q = std::acos(-1.0) / 2;
static J v3(const Math::CVecR3& v) { J r; for (int d = 0; d < 3; d++) r.add(scaled(v(d), 1)); return r; }
static Math::CVecR3 vec3(const J& a) { return Math::CVecR3((double)a[0].n(), (double)a[1].n(), (double)a[2].n()); }
static J list(const std::vector<double>& v, double k) { J r = J::arr(); for (double x : v) r.add(scaled(x, k)); return r; }
template <class T> static std::vector<T> nums(const J& a) { std::vector<T> v; for (std::size_t i = 0; i < a.size(); i++) v.push_back((T)a[i].n()); return v; }
struct World {
    J exec(const J& op, J& obs) { obs = 0L; return run(op); }
    J run(const J& op) {
        const std::string& n = op[0].str();
        if (n == "cmp") {
            double a = num(op[1]), b = num(op[2]), rel = op[3].n(); long k = op[4].n();
            if (k < 0 && rel == 0) return J().add(U::equal(a, b)).add(U::notEqual(a, b)).add(U::lower(a, b)).add(U::lowerEqual(a, b)).add(U::greater(a, b)).add(U::greaterEqual(a, b));
            double t = k < 0 ? U::tolerance : k / 8.0;
            return J().add(U::equal(a, b, rel, t)).add(U::notEqual(a, b, rel, t)).add(U::lower(a, b, rel, t)).add(U::lowerEqual(a, b, rel, t)).add(U::greater(a, b, rel, t)).add(U::greaterEqual(a, b, rel, t));
        }
        if (n == "ceil") return scaled(op[2].n() ? U::ceil(op[1].n() / 8.0, op[2].n() / 8.0) : U::ceil(op[1].n() / 8.0), 1);
        if (n == "round") return scaled(U::round(op[1].n() / 8.0), 1);
        if (n == "sign") return scaled(U::sign(op[1].n()), 1);
        if (n == "lin") return list(U::linspace(std::make_pair((double)op[1].n(), (double)op[2].n()), (std::size_t)op[3].n()), 840);
        if (n == "linI") { J r = J::arr(); for (int x : U::linspace(std::make_pair((int)op[1].n(), (int)op[2].n()), (std::size_t)op[3].n())) r.add(840L * x); return r; }
        if (n == "log") return list(op[3].n() % 2 ? U::logspace(std::make_pair((double)op[1].n(), (double)op[2].n()), (std::size_t)op[3].n()) : U::logspace(std::make_pair((double)op[1].n(), (double)op[2].n()), (int)op[3].n()), 10000);
        if (n == "stats") { auto v = nums<double>(op[1]); return J().add(scaled(U::sum(v), 1)).add(scaled(U::mean(v), 840)).add(scaled(U::meanDifference(v), 840)); }
        if (n == "statsI") { auto v = nums<int>(op[1]); return J().add((long)U::sum(v)).add((long)U::mean(v)).add((long)U::meanDifference(v)); }
        if (n == "sph") { Math::Vector::Spherical s; s = vec3(op[1]); return std::abs(s.norm() - vec3(op[1]).norm()) < 1e-9 ? v3(s.convertToCartesian()) : J("another norm"); }
        if (n == "ray") { Math::Vector::Spherical s(Q * op[1].n(), Q * op[2].n()); return J().add(v3(s.convertToCartesian())).add(v3(s.convertSphericalVectorField(op[3][0].n(), op[3][1].n(), op[3][2].n()))); }
        if (n == "dtft") {
            std::vector<std::pair<double, C> > v; for (std::size_t i = 0; i < op[1].size(); i++) v.push_back(std::make_pair(op[1][i][0].n() / 4.0, C(op[1][i][1].n(), op[1][i][2].n())));
            C r = U::getDTFT(v, op[2].n()); return J().add(scaled(r.real(), 3360)).add(scaled(r.imag(), 3360));
        }
        if (n == "phase") { C f = Math::Function::Gaussian(0.1, op[1].n() / 4.0).getFourier(op[2].n()); f /= std::abs(f); return J().add(scaled(f.real(), 1)).add(scaled(f.imag(), 1)); }
        if (n == "spectrum") {
            Math::Function::Gaussian g(op[1].n() / 8.0, op[2].n() / 4.0, op[3].n()); std::vector<std::pair<double, C> > v;
            for (double t : U::linspace(std::make_pair(-6.0, 8.0), 3000)) v.push_back(std::make_pair(t, C(g(t), 0)));
            return std::abs(U::getDTFT(v, op[4].n()) - g.getFourier(op[4].n())) < 1e-3 ? J("that of its samples") : J("another");
        }
        throw std::logic_error("op " + n);
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
