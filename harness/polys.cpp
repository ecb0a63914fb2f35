// Conformance driver for polynomials and the bases on simplices (spec: Polys.tla).
#include "vj.h"
#include <array>
#include <memory>
#include "math/simplex/Line.h"
#include "math/simplex/Tetrahedron.h"
#include "math/simplex/Triangle.h"
using namespace SEMBA::Math;
typedef Function::Polynomial<Real> P;
static const long UNIT = 1024;
template <class S> struct Geo { static J side(const S& s) { J r; for (std::size_t f = 0; f < S::faces; f++) { J q; for (std::size_t i = 0; i < S::dimension; i++) q.add(s.sideVertex(f, i)); r.add(q); } return r; }
    static J pos(const S& s, long n) { J r; for (std::size_t i = 0; i < S::np; i++) { auto c = s.coordinate(i); J q; for (std::size_t j = 0; j < S::nsc; j++) q.add(scaled(c(j), n)); r.add(q); } return r; } };
template <std::size_t N> struct Geo<Simplex::Line<N> > { typedef Simplex::Line<N> S; static J side(const S&) { return J(); } static J pos(const S&, long) { return J(); } };
static double at(const P& p, const std::vector<double>& x) {
    switch (p.numberOfVariables()) {
    case 1: { Vector::Cartesian<Real, 1> v; v(0) = x[0]; double r = p.eval(v); if (r != p(x[0])) throw std::runtime_error("values differ"); return r; }
    case 2: { Vector::Cartesian<Real, 2> v; for (int i = 0; i < 2; i++) v(i) = x[i]; return p.eval(v); }
    case 3: { Vector::Cartesian<Real, 3> v; for (int i = 0; i < 3; i++) v(i) = x[i]; return p.eval(v); }
    case 4: { Vector::Cartesian<Real, 4> v; for (int i = 0; i < 4; i++) v(i) = x[i]; return p.eval(v); }
    }
    return 0;
}
template <class S> static J simplex(const J& op) {
    const std::string& n = op[0].str(); const S& s = []() -> const S& { static S t; return t; }(); long N = op[2].n(); J r;
    auto ix = [&](std::size_t i) { J q; for (std::size_t j = 0; j < S::nsc; j++) q.add(s.nodeIndex(i, j)); return q; };
    if (n == "nodes") {
        J a, v, f;
        for (std::size_t i = 0; i < S::np; i++) a.add(ix(i));
        for (std::size_t i = 0; i < S::nsc; i++) v.add(s.vertex(i));
        for (std::size_t i = 0; i < S::faces; i++) { J q; for (std::size_t k = 0; k < S::nfp; k++) q.add(s.sideNode(i, k)); f.add(q); }
        return r.add(a).add(Geo<S>::pos(s, N)).add(v).add(f).add(Geo<S>::side(s));
    }
    if (n == "weights") { std::vector<Real> w = s.getWeights(); for (std::size_t i = 0; i < w.size(); i++) r.add(J().add(ix(i)).add(scaled(w[i], 2520))); return r; }
    std::size_t k = op[3].n() % S::np; std::vector<double> x; for (auto& q : op[4].a) x.push_back(q.n() / (double)N);
    r.add(ix(k));
    if (n == "basis") return r.add(scaled(at(s.getLagr(k), x), 1));
    long f = 1; for (std::size_t i = 2; i <= s.nodeIndex(k, op[5].n()); i++) f *= i;
    return r.add(scaled(at(s.getDLagr(k, op[5].n()), x), f));
}
template <std::size_t N> static J dims(const J& op) { return op[1].n() == 1 ? simplex<Simplex::Line<N> >(op) : op[1].n() == 2 ? simplex<Simplex::Triangle<N> >(op) : simplex<Simplex::Tetrahedron<N> >(op); }
struct World {
    P p[3] = {P(1), P(1), P(1)};
    static std::vector<Int> pows(const J& w) { std::vector<Int> v; for (auto& x : w.a) v.push_back((Int)x.n()); return v; }
    J run(const J& op) {
        const std::string& n = op[0].str();
        if (n == "nodes" || n == "weights" || n == "basis" || n == "dbasis") switch (op[2].n()) { case 1: return dims<1>(op); case 2: return dims<2>(op); case 3: return dims<3>(op); case 4: return dims<4>(op); }
        P& x = p[op[1].n()];
        if (n == "new") x = P(op[2].n());
        else if (n == "add") { if (op[2].size() == 1 && op[3].n() % 2) x.addMonomial(op[3].n(), (Int)op[2][0].n()); else x.addMonomial(op[3].n(), pows(op[2])); }
        else if (n == "mul") { P a = p[op[2].n()], b = p[op[3].n()]; x = p[op[2].n()] * p[op[3].n()]; if (op[1].n() != op[2].n() && !(a == p[op[2].n()])) return "operand changed"; }
        else if (n == "imul") x *= p[op[2].n()];
        else if (n == "ext") x = p[op[2].n()] ^ p[op[3].n()];
        else if (n == "iext") x ^= p[op[2].n()];
        else if (n == "div") x /= op[2].n();
        else if (n == "der") x.derive(op[2].n());
        else if (n == "rz") x.removeZeros();
        else if (n == "copy") { std::unique_ptr<P> q(p[op[2].n()].clone()); x = P(*q); }
        else if (n == "assign") x = p[op[2].n()];
        else if (n == "vec") { std::vector<Real> v; for (auto& y : op[2].a) v.push_back(y.n()); x = x.vectorToPolynomial(v.data(), v.size(), 1); }
        else if (n == "mat") { Matrix::Dynamic<Real> m(op[2].size(), op[2][0].size()); for (std::size_t i = 0; i < op[2].size(); i++) for (std::size_t j = 0; j < op[2][0].size(); j++) m(i, j) = op[2][i][j].n(); x = P(1).matrixToPolynomial(m); }
        else if (n == "tomat") { Matrix::Dynamic<Real> m = x.polynomialToMatrix(); J r; if (m.nCols() != 1) return "not a column"; for (std::size_t i = 0; i < m.nRows(); i++) r.add(scaled(m(i, 0), UNIT)); return r; }
        else throw std::runtime_error("op " + n);
        return "ok";
    }
    J exec(const J& op, J& obs) {
        static const double pts[4][4] = {{1, 1, 1, 1}, {2, -1, 1, 0}, {0, 2, -1, 1}, {-1, 0, 2, 2}};
        J res = run(op);
        J all, l, m, q;
        for (int i = 0; i < 3; i++) {
            J v; for (auto& x : pts) v.add(scaled(at(p[i], std::vector<double>(x, x + 4)), UNIT));
            all.add(J().add(p[i].numberOfVariables()).add(v));
            J t; for (std::size_t k = 0; k < p[i].numberOfMonomials(); k++) { J w; for (std::size_t j = 0; j < p[i].numberOfVariables(); j++) w.add((long)p[i].monomialPower(k, j)); t.add(J().add(w).add(scaled(p[i].monomialValue(k), UNIT))); }
            l.add(t); m.add((long)p[i].maxPower());
            J row; for (int j = 0; j < 3; j++) row.add(p[i] == p[j] ? "t" : "f"); q.add(row);
        }
        obs = J::obj().put("p", all).put("l", l).put("m", m).put("q", q);
        return res;
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
