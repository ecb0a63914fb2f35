// Conformance driver for meshes (spec: Mesh.tla).
#include "elems.h"
#include "meshes.h"
#include <memory>
#include <set>
using namespace vj;
struct World {
    std::unique_ptr<GMesh::Mesh> m[3];
    template <class F> static void with(GMesh::Mesh* x, F f) {
        if (GMesh::Structured* s = dynamic_cast<GMesh::Structured*>(x)) f(*s);
        else f(*dynamic_cast<GMesh::Unstructured*>(x));
    }
    static GMesh::Mesh* dup(const GMesh::Mesh* x) {
        if (auto s = dynamic_cast<const GMesh::Structured*>(x)) return new GMesh::Structured(*s);
        if (auto g = dynamic_cast<const GMesh::Geometric*>(x)) return new GMesh::Geometric(*g);
        return new GMesh::Unstructured(*dynamic_cast<const GMesh::Unstructured*>(x));
    }
    static bool assign(GMesh::Mesh* a, const GMesh::Mesh* b) {
        auto s = dynamic_cast<GMesh::Structured*>(a); auto t = dynamic_cast<const GMesh::Structured*>(b);
        if (s && t) { *s = *t; return true; }
        auto g = dynamic_cast<GMesh::Geometric*>(a); auto h = dynamic_cast<const GMesh::Geometric*>(b);
        if (g && h) { *g = *h; return true; }
        auto u = dynamic_cast<GMesh::Unstructured*>(a); auto v = dynamic_cast<const GMesh::Unstructured*>(b);
        if (u && v && !g && !h) { *u = *v; return true; }
        return false;
    }
    struct SetLay { long e, l; void operator()(GMesh::Structured& x) const { go(x); } void operator()(GMesh::Unstructured& x) const { go(x); }
        template <class M> void go(M& x) const { x.elems().setLayer(ElemId(e), l ? x.layers().getId(LayerId(l)) : nullptr); } };
    struct SetMat { long e, k; void operator()(GMesh::Structured& x) const { go(x); } void operator()(GMesh::Unstructured& x) const { go(x); }
        template <class M> void go(M& x) const { x.elems().setModel(ElemId(e), menv().mat[k]); } };
    struct SetV { long e, i, c; template <class M> void operator()(M& x) const { x.elems().getId(ElemId(e))->setV(i - 1, x.coords().getId(CoordId(c))); } };
    struct RemE { std::vector<ElemId> v; template <class M> void operator()(M& x) const { x.elems().removeId(v); } };
    struct AddL { const J& a; template <class M> void operator()(M& x) const { x.layers().add(new Lay(LayerId(a[0].n()), a[1].str())); } };
    struct AddC { const J& a; void operator()(GMesh::Structured& x) const { x.coords().add(mkI(a)); } void operator()(GMesh::Unstructured& x) const { x.coords().add(mkR(a)); } };
    struct AddE { const J& a; template <class M> void operator()(M& x) const { x.elems().add(mkE(a, x.coords(), x.layers())); } };
    struct Move { long c; const J& p;
        void operator()(GMesh::Structured& x) const { CoordI3* k = x.coords().getId(CoordId(c)); k->pos() = Math::CVecI3(p[0].n(), p[1].n(), p[2].n()); }
        void operator()(GMesh::Unstructured& x) const { CoordR3* k = x.coords().getId(CoordId(c)); k->pos() = real3(p); } };
    static Grid3* gridOf(GMesh::Mesh* x) {
        if (auto s = dynamic_cast<GMesh::Structured*>(x)) return &s->grid();
        if (auto g = dynamic_cast<GMesh::Geometric*>(x)) return &g->grid();
        return nullptr;
    }
    J exec(const J& op, J& obs) {
        J res = run(op);
        J l; for (auto& x : m) l.add(meshObs(x.get()));
        std::set<const void*> seen; bool apart = true;
        for (auto& x : m) for (const void* p : parts(x.get())) if (!seen.insert(p).second) apart = false;
        obs = J(); obs.add(l).add(apart ? "apart" : "shared objects");
        return res;
    }
    J run(const J& op) {
        const std::string& n = op[0].str();
        std::unique_ptr<GMesh::Mesh>& t = m[op[1].n()];
        if (n == "new") t.reset(mkMesh(op[2].str(), op[3], op[4], op[5], op[6]));
        else if (n == "copy") { GMesh::Mesh* x = dup(m[op[2].n()].get()); t.reset(x); }
        else if (n == "clone") { GMesh::Mesh* x = m[op[2].n()]->cloneTo<GMesh::Mesh>(); t.reset(x); }
        else if (n == "assign") { if (!assign(t.get(), m[op[2].n()].get())) return J("bad assign"); }
        else if (n == "drop") t.reset();
        else if (n == "setLay") with(t.get(), SetLay{op[2].n(), op[3].n()});
        else if (n == "setMat") with(t.get(), SetMat{op[2].n(), op[3].n()});
        else if (n == "setV") with(t.get(), SetV{op[2].n(), op[3].n(), op[4].n()});
        else if (n == "move") with(t.get(), Move{op[2].n(), op[3]});
        else if (n == "addC") with(t.get(), AddC{op[2]});
        else if (n == "addE") with(t.get(), AddE{op[2]});
        else if (n == "addL") with(t.get(), AddL{op[2]});
        else if (n == "remE") { RemE r; for (long k : op[2].ints()) r.v.push_back(ElemId(k)); with(t.get(), r); }
        else if (n == "pad") { Grid3* g = gridOf(t.get()); std::vector<Math::Real> q = g->getPos(op[2].n()); q.push_back(q.back() + op[3].n() / 256.);
            std::vector<Math::Real> a[3]; for (int d = 0; d < 3; d++) a[d] = g->getPos(d); a[op[2].n()] = q; g->setPos(a); }
        else if (n == "bound") dynamic_cast<GMesh::Structured*>(t.get())->bounds().setBound(op[2].n(), op[3].n(), menv().bound[op[4].n()]);
        else if (n == "scale") t->applyScalingFactor(op[2].n() / (double)op[3].n());
        else if (n == "toS") {
            GMesh::Mesh* x = m[op[2].n()].get(); GMesh::Mesh* y;
            if (op[3].size() == 0) y = dynamic_cast<GMesh::Geometric*>(x)->getMeshStructured();
            else y = dynamic_cast<GMesh::Unstructured*>(x)->getMeshStructured(mkGrid(op[3]));
            t.reset(y);
        } else if (n == "toU") { GMesh::Mesh* y = dynamic_cast<GMesh::Structured*>(m[op[2].n()].get())->getMeshUnstructured(); t.reset(y); }
        else if (n == "retarget") {  // a selection made elsewhere, mapped by identifier
            std::vector<const Elem*> v; for (long k : op[2].ints()) v.push_back(new NodR(ElemId(k), (const CoordR3**)menv().any));
            Element::Group<const Elem> g(v);
            t->reassign(g);
            std::set<const void*> mine; for (const void* p : parts(t.get())) mine.insert(p);
            J r; for (std::size_t k = 0; k < g.size(); k++) r.add(J().add((long)g(k)->getId().toInt()).add(mine.count((const void*)g(k)) ? "here" : "elsewhere"));
            return r;
        } else if (n == "step") return scaled(dynamic_cast<GMesh::Structured*>(t.get())->getMinimumSpaceStep(), 256);
        else return J("unknown op");
        return J("ok");
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
