// Conformance driver for vectors and matrices (spec: Algebra.tla).  Every
// operation runs on integers and on reals, and both must show the same.
#include "vj.h"
#include <memory>
#include "math/matrix/Dynamic.h"
#include "math/matrix/Static.h"
#include "math/vector/Cartesian.h"
#include "math/vector/CVecI3Fractional.h"
using namespace SEMBA;
using namespace SEMBA::Math;
using Matrix::Dynamic;
using Matrix::Static;
using Vector::Cartesian;
typedef std::vector<std::vector<long> > LL;
static LL rowsOf(const J& j) { LL r; for (auto& x : j.a) r.push_back(x.ints()); return r; }
template <class T> static J num(T v) { return scaled((double)v, 1); }
static J lst(const std::vector<J>& v) { J r; for (auto& x : v) r.add(x); return r; }
template <class T> static J show(const Matrix::Matrix<T>& m) {
    J rs; for (std::size_t i = 0; i < m.nRows(); i++) { J x; for (std::size_t j = 0; j < m.nCols(); j++) x.add(num(m(i, j))); rs.add(x); }
    if (m.size() != m.nRows() * m.nCols()) rs.add("the size of the matrix differs");
    for (std::size_t i = 0; i < m.nRows(); i++) for (std::size_t j = 0; j < m.nCols(); j++) if (m.val(i, j) != m(i, j) || m.val(i * m.nCols() + j) != m(i, j)) { rs.add("accessors differ"); return J().add(m.nRows()).add(m.nCols()).add(rs); }
    return J().add(m.nRows()).add(m.nCols()).add(rs);
}
template <class T> static std::vector<std::vector<T> > vv(const LL& r) { std::vector<std::vector<T> > v; for (auto& x : r) v.push_back(std::vector<T>(x.begin(), x.end())); return v; }
template <class T> static std::vector<T> vec(const J& j) { std::vector<T> r; for (long x : j.ints()) r.push_back((T)x); return r; }
template <class T> static void fill(Dynamic<T>& m, const std::string& how, const LL& r) {
    if (how == "copy") m.copy(vv<T>(r));
    else if (how == "set") { m = Dynamic<T>(r.size(), r.empty() ? 0 : r[0].size()); for (std::size_t i = 0; i < r.size(); i++) for (std::size_t j = 0; j < r[i].size(); j++) { if (i % 2) m.val(i * r[i].size() + j) = (T)r[i][j]; else m(i, j) = (T)r[i][j]; } }
    else { auto v = vv<T>(r); std::vector<T*> p; for (auto& x : v) p.push_back(x.data()); m = Dynamic<T>(r.size(), r.empty() ? 0 : r[0].size(), p.data()); }
}
template <class T> static J arrays(const Matrix::Matrix<T>& m) {
    std::vector<Real> a(m.size()), b(m.size()); m.convertToArray(MATRICES_COL_MAJOR, a.data()); m.convertToArray(MATRICES_ROW_MAJOR, b.data());
    J x, y; for (Real v : a) x.add(num(v)); for (Real v : b) y.add(num(v)); return J().add(x).add(y);
}
template <class T> static J det(const Matrix::Matrix<T>& m) { return num(m.nRows() == 3 ? m.getDeterminant3x3() : m.getDeterminant4x4()); }
static void invert(Dynamic<Real>& r, const Dynamic<Real>& a) {
    Dynamic<Real> x(a), y = x.invert();
    if (!(x == a)) throw std::runtime_error("inverting changed the matrix");
    r = y;
}
// ---- matrices of fixed size
template <class T, std::size_t R, std::size_t C> static Static<T, R, C> st(const Dynamic<T>& m) { Static<T, R, C> s; for (std::size_t i = 0; i < R; i++) for (std::size_t j = 0; j < C; j++) s(i, j) = m(i, j); return s; }
template <class T, std::size_t R, std::size_t C, std::size_t N> static J mulN(const Static<T, R, C>& a, const Dynamic<T>& b) { Static<T, C, N> y = st<T, C, N>(b); J r = show(a * y); if (show(y).dump() != show(b).dump()) r.add("an operand changed"); return r; }
template <class T> struct Inv { template <std::size_t N> static J run(Static<T, N, N>&) { return "type"; } };
template <> struct Inv<Real> { template <std::size_t N> static J run(Static<Real, N, N>& s) { Static<Real, N, N>& r = s.invert(); J x = show(r); if (&r != &s) x.add("not itself"); return x; } };
template <class T, std::size_t R, std::size_t C> struct Sq { static J run(const std::string&, Static<T, R, C>&, const Dynamic<T>&) { throw std::logic_error("square"); } };
template <class T, std::size_t N> struct Sq<T, N, N> {
    static J run(const std::string& n, Static<T, N, N>& a, const Dynamic<T>& b) {
        if (n == "inv") { try { return Inv<T>::run(a); } catch (const std::exception&) { return "refused"; } }
        if (n == "diag") { Cartesian<T, N> d; for (std::size_t i = 0; i < N; i++) d(i) = b(0, i); return show(a.setInDiagonal(d)); }
        return det(a);
    }
};
template <class T, std::size_t R, std::size_t C> static J fixedOp(const std::string& n, const Dynamic<T>& da, const Dynamic<T>& db, T k) {
    Static<T, R, C> a = st<T, R, C>(da); const Static<T, R, C> a0(a); J r;
    if (n == "mul") switch (db.nCols()) { case 1: r = mulN<T, R, C, 1>(a, db); break; case 2: r = mulN<T, R, C, 2>(a, db); break; case 3: r = mulN<T, R, C, 3>(a, db); break; case 4: r = mulN<T, R, C, 4>(a, db); break; default: throw std::logic_error("size"); }
    else if (n == "muldyn") r = show(a * db);
    else if (n == "add") { Static<T, R, C> b = st<T, R, C>(db); r = show(a + b); }
    else if (n == "muls") r = show(a * k);
    else if (n == "t") r = show(a.transpose());
    else if (n == "vec") { Cartesian<T, C> v; for (std::size_t i = 0; i < C; i++) v(i) = db(0, i); auto w = a * v; for (std::size_t i = 0; i < R; i++) r.add(J().add(num(w(i)))); }
    else if (n == "max") r = num(a.maxVal());
    else if (n == "arr") r = arrays(a);
    else if (n == "sym") r = J().add((long)a.isSquare()).add((long)(a.isSquare() && a.isSymmetric()));
    else if (n == "eq") { Static<T, R, C> b = st<T, R, C>(db); r = J().add((long)(a == b)).add((long)(a < b)).add((long)(b < a)); }
    else {
        bool in = true;
        if (n == "iadd") a += st<T, R, C>(db);
        else if (n == "isub") a -= st<T, R, C>(db);
        else if (n == "imuls") a *= k;
        else if (n == "idivs") a /= k;
        else if (n == "iadds") a += (Real)k;
        else if (n == "zeros") a.zeros();
        else if (n == "eye") a.eye();
        else if (n == "copy") { Static<T, R, C> b, c, d; b = da; std::vector<std::vector<T> > v; for (std::size_t i = 0; i < R; i++) v.push_back(da.cpRowToVector(i)); c.copy(v); d = c; if (!(b == a) || !(c == a) || !(d == a)) return "copies differ"; }
        else in = false;
        if (!in) return Sq<T, R, C>::run(n, a, db);
        return show(a);
    }
    if (!(a == a0)) r.add("the matrix changed");
    return r;
}
template <class T> static J fixedOp(const std::string& n, const Dynamic<T>& a, const Dynamic<T>& b, T k) {
#define D_(R, C) if (a.nRows() == R && a.nCols() == C) return fixedOp<T, R, C>(n, a, b, k);
#define D4(R) D_(R, 1) D_(R, 2) D_(R, 3) D_(R, 4)
    D4(1) D4(2) D4(3) D4(4)
    throw std::logic_error("size");
}
// ---- vectors
template <class T, std::size_t D> static J vj(const Cartesian<T, D>& u) { J r; for (std::size_t i = 0; i < D; i++) { if (u(i) != u[i] || u(i) != u.val[i]) return "accessors differ"; r.add(num(u(i))); } return r; }
template <class T, std::size_t D> struct Only3 { static J run(const std::string&, Cartesian<T, D>&, Cartesian<T, D>&) { throw std::logic_error("dim"); } };
template <class T> struct Only3<T, 3> {
    static J run(const std::string& n, Cartesian<T, 3>& u, Cartesian<T, 3>& w) {
        if (n == "cross") return vj(u ^ w);
        return J().add((long)u.isContainedInPlane(Constants::xy)).add((long)u.isContainedInPlane(Constants::yz)).add((long)u.isContainedInPlane(Constants::zx)).add((long)u.isContainedInPlane()).add((long)u.isCoplanar(w));
    }
};
template <std::size_t D> static J unit(Cartesian<Real, D>& u) { Cartesian<Real, D> c(u); Real n = u.norm(); Cartesian<Real, D>& r = c.normalize(); return std::fabs(r.norm() - 1) > 1e-9 ? J("not a unit") : vj(r * n); }
template <std::size_t D> static J unit(Cartesian<Int, D>& u) { Cartesian<Real, D> c(u); return unit(c); }
template <class T, std::size_t D> static J vecOp(const std::string& n, const J& ju, const J& jw, long lk) {
    Cartesian<T, D> u, w; std::vector<T> raw;
    for (std::size_t i = 0; i < D; i++) { u(i) = (T)ju[i].n(); w[i] = (T)jw[i].n(); raw.push_back((T)ju[i].n()); }
    { T* p = raw.data(); const T* q = p; Cartesian<T, D> a(p), b(q), c; c = a; if (!(vj(a).dump() == vj(u).dump() && vj(b).dump() == vj(u).dump() && vj(c).dump() == vj(u).dump())) return "constructions differ"; }
    T k = (T)lk; Cartesian<T, D> c(u); J r; bool in = false;
    if (n == "add") { r = vj(u + w); c += w; in = true; }
    else if (n == "sub") { r = vj(u - w); c -= w; in = true; if (vj(Cartesian<T, D>(w, u)).dump() != r.dump()) r.add("the vector between two points differs"); }
    else if (n == "mulv") { r = vj(u * w); c *= w; in = true; }
    else if (n == "adds") { r = vj(u + k); c += k; in = true; }
    else if (n == "subs") { r = vj(u - k); c -= k; in = true; }
    else if (n == "muls") { r = vj(u * k); c *= k; in = true; }
    else if (n == "divs") { r = vj(u / k); c /= k; in = true; }
    else if (n == "neg") r = vj(-u);
    else if (n == "rsub") r = vj(k - u);
    else if (n == "dot") r = num(u.dot(w));
    else if (n == "max") r = num(u.getMax());
    else if (n == "min") r = vj(u.setWithMinimalComponents(w));
    else if (n == "abs") r = vj(u.abs());
    else if (n == "order") r = J().add((long)(u == w)).add((long)(u != w)).add((long)(u < w)).add((long)(u <= w)).add((long)(u > w)).add((long)(u >= w));
    else if (n == "norm") r = num(u.norm() * u.norm());
    else if (n == "unit") r = unit(u);
    else if (n == "perm") r = lk == 1 ? vj(u.cyclicPermutation()) : vj(u.cyclicPermutation(lk));
    else if (n == "bin") r = vj(u.setAsBinary(lk));
    else if (n == "axis") { try { long a = u.getCartesianAxis(); r = J().add((long)u.isInCartesianAxis()).add(a); } catch (const std::exception&) { r = J().add((long)u.isInCartesianAxis()); } }
    else if (n == "set") { u = k; r = vj(u); if (vj(Cartesian<T, D>(k)).dump() != r.dump()) r.add("constructions differ"); }
    else if (n == "conv") { Cartesian<Real, D> x(u); Cartesian<Int, D> y(x), z; z = x; r = vj(y).dump() == vj(x).dump() && vj(z).dump() == vj(x).dump() ? vj(x) : J("conversions differ"); }
    else if (n == "text") { std::ostringstream o; o << u; r = o.str() == u.toStr() ? J(o.str()) : J("texts differ"); }
    else r = Only3<T, D>::run(n, u, w);
    if (in && vj(c).dump() != r.dump()) r.add("in place it differs: " + vj(c).dump());
    return J().add(r).add(vj(u)).add(vj(w));
}
template <class T> static J vecOp(const std::string& n, const J& u, const J& w, long k) { return u.size() == 2 ? vecOp<T, 2>(n, u, w, k) : u.size() == 3 ? vecOp<T, 3>(n, u, w, k) : vecOp<T, 4>(n, u, w, k); }
// ---- fractional positions
static CVecI3Frac frac(const J& j) { CVecI3 p; CVecR3 l; for (int i = 0; i < 3; i++) { p(i) = j[0][i].n(); l(i) = j[1][i].n() / 8.0; } return CVecI3Frac(p, l); }
static J r3(const CVecR3& v, long sc) { J r; for (int i = 0; i < 3; i++) r.add(scaled(v(i), sc)); return r; }
static J fj(const CVecI3Frac& f) { J p; for (int i = 0; i < 3; i++) p.add((long)f(i)); return J().add(p).add(r3(f.len_, 8)); }
static J fracOp(const std::string& n, const J& a, const J& b, long k) {
    CVecI3Frac f = frac(a), g, g0 = frac(b); g = g0; CVecI3 o; for (int i = 0; i < 3; i++) o(i) = b[0][i].n();
    if (n == "base") return J().add(f.getRangeBase()).add((long)f.getDirBase());
    if (n == "scale") return J().add(r3(f.getScalePos(), 8)).add(r3(f.getScalePos(o), 8));
    if (n == "mean") return r3(f.meanRelativePoint(g), 16);
    if (n == "near") return r3(f.getRelativePosNearestNode(), 8);
    if (n == "eq") return J().add((long)(f == g));
    if (n == "carry") { CVecI3Frac& x = f.reduceCoords(); return J().add(fj(x)).add(fj(g)); }
    if (n == "snap") { CVecI3Frac& x = f.reduceTopology(); return J().add(fj(x)).add(fj(g)); }
    if (n == "snapto") { CVecI3Frac& x = f.reduceTopology(k); return J().add(fj(x)).add(fj(g)); }
    if (n == "join") { f.join(g); return J().add(fj(f)).add(fj(g)); }
    if (n == "move") { bool can; f.move(g, k == 1, can); return J().add(fj(f)).add(fj(g)).add((long)can); }
    throw std::logic_error("frac " + n);
}
template <class T> struct Regs {
    Dynamic<T> m[4];
    J run(const J& op) {
        const std::string& n = op[0].str();
        if (n == "vec") return vecOp<T>(op[1].str(), op[2], op[3], op[4].n());
        if (n == "fixed") return fixedOp<T>(op[1].str(), m[op[2].n()], m[op[3].n()], (T)op[4].n());
        Dynamic<T>& r = m[op[1].n()]; auto I = [&](int k) { return (std::size_t)op[k].n(); };
        if (n == "mat") fill(r, op[2].str(), rowsOf(op[3]));
        else if (n == "col") r = vec<T>(op[2]);
        else if (n == "fill") r = (T)op[2].n();
        else if (n == "zeros") r.zeros();
        else if (n == "eye") r.eye();
        else if (n == "t") r.transpose();
        else if (n == "cell") r(I(2), I(3)) = (T)op[4].n();
        else if (n == "assign") r = m[I(2)];
        else if (n == "clone") { Dynamic<T> c(m[I(2)]); m[0] = c; c(0, 0) += 1; r = m[0]; }
        else if (n == "add") r = m[I(2)] + m[I(3)];
        else if (n == "mul") r = m[I(2)] * m[I(3)];
        else if (n == "muls") r = m[I(2)] * (T)op[3].n();
        else if (n == "divs") r = m[I(2)] / (T)op[3].n();
        else if (n == "iadds") r += (T)op[2].n();
        else if (n == "iadd") r += m[I(2)];
        else if (n == "imuls") r *= (T)op[2].n();
        else if (n == "idivs") r /= (T)op[2].n();
        else if (n == "kron") r = m[I(2)].kron(m[I(3)]);
        else if (n == "sub") { std::pair<std::size_t, std::size_t> a(I(3), I(4)), b(I(5), I(6)); r = m[I(2)].sub(a, b); }
        else if (n == "block") r = m[I(2)].copy(I(3), I(4), I(5), I(6));
        else if (n == "reshape") { if (op[5].n() == 1) { Dynamic<T> x = m[I(2)].reshape(I(3), I(4)), y = m[I(2)].reshape(I(3), I(4), 1); if (!(x == y)) return "orders differ"; r = x; } else r = m[I(2)].reshape(I(3), I(4), 2); }
        else if (n == "elim") r = m[I(2)].eliminateColumns(I(3), I(4));
        else if (n == "conv") r = m[I(2)].convolute(m[I(3)]);
        else if (n == "sort") r.sortRows();
        else if (n == "uniq") { Dynamic<T> x(r); x.sortAndRemoveRepeatedRows_omp(); r.sortAndRemoveRepeatedRows(); if (!(x == r)) return "variants differ"; }
        else if (n == "uniqsorted") r.removeRepeatedSortedRows();
        else if (n == "merge") r.mergeSortedRows(m[I(2)], 0, r.nCols() - 1);
        else if (n == "lower") r.cpLowerTri2UpperTri();
        else if (n == "tocol") r.cpToCol(I(2), vec<T>(op[3]));
        else if (n == "torow") r.cpToRow(I(2), vec<T>(op[3]));
        else if (n == "sortby") { Dynamic<T> c(r), o(r); c.sortRows(I(2), I(3)); o.sortRows_omp(I(2), I(3)); J x = show(c)[2]; return x; }
        else if (n == "find") { auto v = vec<T>(op[3]); return r.findFirstOcurrenceInColumns(v.data(), I(2), v.size()); }
        else if (n == "max") { J x; x.add(num(r.maxVal())); for (std::size_t j = 0; j < r.nCols(); j++) x.add(num(r.maxValInCol(j))); return x; }
        else if (n == "det") return det(r);
        else if (n == "row") { J x; for (T v : r.cpRowToVector(I(2))) x.add(num(v)); return x; }
        else if (n == "sym") return J().add((long)r.isSquare()).add((long)(r.isSquare() && r.isSymmetric()));
        else if (n == "arr") return arrays(r);
        else if (n == "eq") return (long)(r == m[I(2)]);
        else if (n == "lt") return J().add((long)(r < m[I(2)])).add((long)(m[I(2)] < r));
        else if (n == "cart") { J x; for (auto& v : r.convertToCartesianVector()) x.add(vj(v)); return x; }
        else throw std::logic_error("op " + n);
        return "ok";
    }
};
struct World {
    Regs<Int> i; Regs<Real> r;
    J exec(const J& op, J& obs) {
        J res = run(op); obs = J();
        for (int k = 1; k < 4; k++) { J a = show(i.m[k]), b = show(r.m[k]); if (a.dump() != b.dump()) b.add("integers: " + a.dump()); obs.add(b); }
        return res;
    }
    J run(const J& op) {
        if (op[0].str() == "frac") return fracOp(op[1].str(), op[2], op[3], op[4].n());
        if (op[0].str() == "inv") {
            try { Dynamic<Real> x; invert(x, r.m[op[2].n()]); J s = show(x); Dynamic<Real> y(x.nRows(), x.nCols()); for (std::size_t p = 0; p < x.nRows(); p++) for (std::size_t q = 0; q < x.nCols(); q++) { if (s[2][p][q].t != J::INT) return s; y(p, q) = s[2][p][q].n(); }
                r.m[op[1].n()] = y; i.m[op[1].n()].copy(y); return "ok"; }
            catch (const std::out_of_range&) { return "refused"; }
        }
        if (op[0].str() == "fixed" && op[1].str() == "inv") return r.run(op);
        J a = i.run(op), b = r.run(op);
        return a.dump() == b.dump() || op[0].str() == "sortby" ? b : J().add(b).add("integers: " + a.dump());
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
