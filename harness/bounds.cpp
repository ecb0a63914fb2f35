// Conformance driver for the terminations of the domain (spec: Bounds.tla).
#include "vj.h"
#include <algorithm>
#include <memory>
#include "mesher/Options.h"
#include "exporter/Exporter.h"
#include "physicalModel/bound/SMA.h"
using namespace SEMBA;
namespace PB = SEMBA::PhysicalModel::Bound;
typedef Geometry::BoundTerminations3 BT;
typedef Geometry::Mesh::Structured Mesh;
static PB::Bound* mk(const std::string& n) {
    MatId id(0);
    if (n == "PEC") return new PB::PEC(id);
    if (n == "PMC") return new PB::PMC(id);
    if (n == "PML") return new PB::PML(id);
    if (n == "Periodic") return new PB::Periodic(id);
    if (n == "Mur1") return new PB::Mur1(id);
    if (n == "Mur2") return new PB::Mur2(id);
    if (n == "SMA") return new PB::SMA(id);
    return nullptr;
}
struct Ex : Exporter::Exporter {
    J quad(const Mesh& m, int d, int p) const {
        J r; r.add(getBoundaryName(&m, d, p));
        J q;
        for (int how = 0; how < 2; how++) {
            Geometry::CoordR3Group c;
            std::unique_ptr<Geometry::ElemR> e(getBoundary((Math::Constants::CartesianAxis)d, (Math::Constants::CartesianBound)p, c, how ? nullptr : &m.grid(), &m));
            Geometry::BoxR3 b = e->getBound(); J x;
            std::vector<std::vector<long> > seen;
            for (std::size_t k = 0; k < e->numberOfVertices(); k++) { std::vector<long> v; for (int t = 0; t < 3; t++) v.push_back(std::lround(2 * e->getVertex(k)->pos()(t))); seen.push_back(v); }
            std::sort(seen.begin(), seen.end());
            bool quad4 = seen.size() == 4 && std::unique(seen.begin(), seen.end()) == seen.end();
            for (int u = 0; u < 2; u++) { J y; for (int t = 0; t < 3; t++) y.add(scaled((u ? b.getMax() : b.getMin())(t), 1)); x.add(y); }
            if (!quad4) x.add("not a quadrilateral");
            if (how && x.dump() != q.dump()) q.add("differs without the grid"); else q = x;
        }
        return r.add(q);
    }
    J lines(const Mesh& m) const {
        Geometry::CoordR3Group c; auto g = getGridElems(c, &m.grid());
        std::vector<std::vector<double> > v;
        for (std::size_t k = 0; k < g.size(); k++) { Geometry::BoxR3 b = g(k)->getBound(); std::vector<double> x; for (int u = 0; u < 2; u++) for (int t = 0; t < 3; t++) x.push_back((u ? b.getMax() : b.getMin())(t)); v.push_back(x); }
        std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
        J r; for (auto& x : v) { J a, b; for (int t = 0; t < 3; t++) { a.add(scaled(x[t], 1)); b.add(scaled(x[3 + t], 1)); } r.add(J().add(a).add(b)); }
        return r;
    }
};
struct World {
    BT b[2]; Mesher::Options o; std::unique_ptr<Mesh> m[2]; Ex ex;
    const BT& bt(long r) const { return r < 2 ? b[r] : r == 2 ? o.getBoundTerminations() : static_cast<const Mesh&>(*m[r - 3]).bounds(); }
    static J names(const BT& x) {
        J r;
        for (int d = 0; d < 3; d++) for (int p = 0; p < 2; p++) {
            const Geometry::Bound* q = x(d, p); std::string n = "-";
            if (q) { n = "?";
                if (dynamic_cast<const PB::PEC*>(q)) n = "PEC"; if (dynamic_cast<const PB::PMC*>(q)) n = "PMC"; if (dynamic_cast<const PB::PML*>(q)) n = "PML"; if (dynamic_cast<const PB::Periodic*>(q)) n = "Periodic";
                if (dynamic_cast<const PB::Mur1*>(q)) n = "Mur1"; if (dynamic_cast<const PB::Mur2*>(q)) n = "Mur2"; if (dynamic_cast<const PB::SMA*>(q)) n = "SMA"; }
            r.add(n);
        }
        return r;
    }
    static J gridJ(const Geometry::Grid3& g) { J r; for (int d = 0; d < 3; d++) { J x; for (double v : g.getPos(d)) x.add(scaled(v, 1)); r.add(x); } return r; }
    J exec(const J& op, J& obs) {
        J res = run(op); obs = J();
        for (int i = 0; i < 2; i++) obs.add(J().add("set").add(J()).add(names(b[i])));
        J on = names(o.getBoundTerminations());
        for (int k = 0; k < 6; k++) {
            const PB::Bound* q = o.getBoundTermination(k / 2, k % 2); std::string t = Mesher::Options::toStr(q), n = on[k].str();
            std::string u = n == "-" || n == "SMA" ? "Undefined" : n == "Mur1" ? "MUR1" : n == "Mur2" ? "MUR2" : n;
            if ((q == nullptr) != (n == "-") || (t != u && n != "SMA")) on.add("the option of a side differs: " + t);
        }
        obs.add(J().add("options").add(J()).add(on));
        for (auto& x : m) obs.add(x ? J().add("mesh").add(gridJ(x->grid())).add(names(static_cast<const Mesh&>(*x).bounds())) : J().add("none"));
        return res;
    }
    static std::array<std::array<const Geometry::Bound*, 2>, 3> six(const J& a) {
        std::array<std::array<const Geometry::Bound*, 2>, 3> r; for (int k = 0; k < 6; k++) r[k / 2][k % 2] = mk(a[k].str()); return r;
    }
    J run(const J& op) {
        static const char* keys[] = {"lowerXBound", "upperXBound", "lowerYBound", "upperYBound", "lowerZBound", "upperZBound"};
        const std::string& n = op[0].str(); long r = op[1].n();
        if (n == "set") {
            PB::Bound* x = mk(op[4].str()); long d = op[2].n(), p = op[3].n();
            if (r < 2) b[r].setBound(d, p, x); else if (r == 2) o.setBoundTermination(d, p, x); else m[r - 3]->bounds().setBound(d, p, x);
        } else if (n == "all") { if (r < 2) b[r].setBounds(six(op[2])); else m[r - 3]->bounds().setBounds(six(op[2])); }
        else if (n == "new") { if (r < 2) b[r] = BT(six(op[2])); else m[r - 3]->bounds() = BT(six(op[2])); }
        else if (n == "from") { BT x(bt(op[2].n())); if (r < 2) b[r] = x; else m[r - 3]->bounds() = x; }
        else if (n == "label") {
            Solver::Settings s; s.setObject(); s(keys[op[2].n() - 1]).setString(op[3].str());
            try { o.set(s); } catch (const std::logic_error&) { return "refused"; }
        } else if (n == "labels") {
            Solver::Settings s; s.setObject(); for (int k = 0; k < 6; k++) if (op[2][k].str() != "") s(keys[k]).setString(op[2][k].str());
            o.set(s);
        } else if (n == "mesh") {
            std::vector<Math::Real> g[3]; for (int d = 0; d < 3; d++) for (long v : op[2][d].ints()) g[d].push_back(v);
            m[r - 3].reset(new Mesh(Geometry::Grid3(g), Geometry::Coordinate::Group<const Geometry::CoordI3>(), Geometry::Element::Group<const Geometry::ElemI>(), Geometry::Layer::Group<const Geometry::Layer::Layer>(), bt(op[3].n())));
        } else if (n == "copy") { std::unique_ptr<Mesh> x(new Mesh(*m[op[2].n() - 3])); m[r - 3] = std::move(x); }
        else if (n == "clone") { std::unique_ptr<Mesh> x(m[op[2].n() - 3]->cloneTo<Mesh>()); m[r - 3] = std::move(x); }
        else if (n == "assign") *m[r - 3] = *m[op[2].n() - 3];
        else if (n == "scale") m[r - 3]->applyScalingFactor((double)op[2].n());
        else if (n == "drop") { if (r < 2) b[r] = BT(); else if (r == 2) o = Mesher::Options(); else m[r - 3].reset(); }
        else if (n == "faces") { J x; for (int d = 0; d < 3; d++) for (int p = 0; p < 2; p++) x.add(ex.quad(*m[r - 3], d, p)); return x; }
        else if (n == "lines") return ex.lines(*m[r - 3]);
        else throw std::logic_error("op");
        return "ok";
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
