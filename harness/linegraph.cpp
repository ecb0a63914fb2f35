// Conformance driver for graphs of elements (spec: LineGraph.tla).
#include "elems.h"
#include <algorithm>
#include <memory>
#include <set>
#include "geometry/graph/Vertices.h"
using namespace vj;
typedef Graph::Vertices<ElemR, CoordR3> G;
struct World {
    std::unique_ptr<G> g[3]; std::map<long, CoordR3*> cs; std::vector<std::unique_ptr<Element::Group<ElemR>>> keep;  // own the elements of every graph made
    World() { for (auto& x : g) x.reset(new G()); }
    ~World() { for (auto& x : g) x.reset(); keep.clear(); for (auto& c : cs) delete c.second; }
    const CoordR3* c(long k) { if (!cs.count(k)) cs[k] = new CoordR3(CoordId(k), Math::CVecR3(k % 3, k / 3, k * k)); return cs[k]; }
    template <class T> static J sorted(std::set<T> s) { J r; for (auto x : s) r.add((long)x); return r; }
    static J obsG(G& g) {
        std::map<const void*, long> ei, bi; J le, lb;
        for (std::size_t k = 0; k < g.numElems(); k++) ei[g.elem(k)] = k;
        for (std::size_t k = 0; k < g.numBounds(); k++) bi[g.bound(k)] = k;
        auto at = [](std::map<const void*, long>& m, const void* p) { return m.count(p) ? m[p] : -1L; };
        for (std::size_t k = 0; k < g.numElems(); k++) {
            auto e = g.elem(k); J b, per; std::set<long> nb;
            for (std::size_t i = 0; i < e->numBounds(); i++) {
                b.add(at(bi, e->getBound(i))); std::set<long> s;
                for (std::size_t j = 0; j < e->numBoundNeighbors(i); j++) s.insert(at(ei, e->getBoundNeighbor(i, j)));
                per.add(sorted(s));
            }
            for (std::size_t i = 0; i < e->numNeighbors(); i++) nb.insert(at(ei, e->getNeighbor(i)));
            if (e->visited()) b.add("marked");
            le.add(J().add((long)e->elem()->getId().toInt()).add(b).add(sorted(nb)).add(per));
        }
        for (std::size_t k = 0; k < g.numBounds(); k++) {
            auto e = g.bound(k); J b; std::set<long> nb;
            for (std::size_t i = 0; i < e->numBounds(); i++) b.add(at(ei, e->getBound(i)));
            for (std::size_t i = 0; i < e->numNeighbors(); i++) nb.insert(at(bi, e->getNeighbor(i)));
            lb.add(J().add((long)e->elem()->getId().toInt()).add(b).add(sorted(nb)));
        }
        return J().add(le).add(lb);
    }
    J exec(const J& op, J& obs) {
        J res = run(op), l; std::set<const void*> seen; bool apart = true;
        for (auto& x : g) {
            l.add(obsG(*x));
            for (std::size_t k = 0; k < x->numElems(); k++) apart = seen.insert(x->elem(k)).second && apart;
            for (std::size_t k = 0; k < x->numBounds(); k++) apart = seen.insert(x->bound(k)).second && apart;
        }
        obs = J(); obs.add(l).add(apart ? "apart" : "shared nodes");
        return res;
    }
    J run(const J& op) {
        const std::string& n = op[0].str(); auto& t = g[op[1].n()];
        if (n == "init") {
            keep.emplace_back(new Element::Group<ElemR>());
            for (std::size_t k = 0; k < op[2].size(); k++) {
                std::vector<const CoordR3*> v; for (long x : op[2][k][1].ints()) v.push_back(c(x));
                // numbers of coordinates: 1 node, 2 line, 3 triangle or (when closed) polyline, 4 quadrilateral, others polyline
                std::string ty = v.size() == 1 ? "Node" : v.size() == 2 ? "Line" : v.size() == 3 && v[0] != v[2] ? "Tri3" : v.size() == 4 ? "Qua4" : v.size() == 8 ? "Hex8" : "Poly";
                keep.back()->add(makeR(ty, op[2][k][0].n(), v));
            }
            t->init(*keep.back());
        } else if (n == "copy") { t.reset(new G(*g[op[2].n()]));
        } else if (n == "assign") { *t = *g[op[2].n()];
        } else if (n == "split") { t->splitBound(op[2].n());
        } else if (n == "comps") {
            J r; for (auto& q : t->getConnectedComponents()) { std::vector<long> ids; for (auto e : q) ids.push_back((long)e->getId().toInt()); std::sort(ids.begin(), ids.end()); J x; for (long k : ids) x.add(k); r.add(x); }
            return r;
        } else return J("unknown op");
        return J("ok");
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
