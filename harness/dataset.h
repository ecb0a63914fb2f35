// Data sets built from and described as JSON, shared by the drivers.
#ifndef DATASET_H
#define DATASET_H
#include "meshes.h"
#include <memory>
#include <set>
#include "Data.h"
#include "source/Generator.h"
#include "source/OnLine.h"
#include "source/PlaneWave.h"
#include "source/Dipole.h"
#include "outputRequest/BulkCurrent.h"
#include "outputRequest/FarField.h"
using namespace vj;
struct Free {  // elements of no mesh: nodes 2, lines 5, hexahedra 9
    std::vector<CoordR3*> c; std::map<long, Elem*> e; Element::Group<Elem> keep;
    Free() {
        for (int k = 0; k < 8; k++) c.push_back(new CoordR3(CoordId(k + 1), Math::CVecR3(k % 2, (k / 2) % 2, k / 4)));
        std::vector<const CoordR3*> v(c.begin(), c.end());
        for (long k : {2, 3}) e[k] = makeR("Node", k, {v[0]});
        for (long k : {5, 6}) e[k] = makeR("Line", k, {v[0], v[1]});
        for (long k : {8, 9}) e[k] = makeR("Hex8", k, {v[0], v[1], v[3], v[2], v[4], v[5], v[7], v[6]});
        for (auto& p : e) keep.add(p.second);
    }
};
static Free& fre() { static Free* f = new Free(); return *f; }
struct DataWorld {
    std::unique_ptr<Data> d[3];
    static Elem* find(const Data& x, long id) {
        if (!x.mesh) return fre().e.at(id);
        if (auto s = dynamic_cast<GMesh::Structured*>(x.mesh)) return s->elems().getId(ElemId(id));
        return dynamic_cast<GMesh::Unstructured*>(x.mesh)->elems().getId(ElemId(id));
    }
    template <class T> static std::vector<T*> pick(const Data& x, const J& ids) {
        std::vector<T*> v; for (long k : ids.ints()) { T* t = dynamic_cast<T*>(find(x, k)); if (!t) throw std::logic_error("kind"); v.push_back(t); } return v;
    }
    static Source::Base* mkSrc(const Data& x, const J& a) {
        const std::string& t = a[0].str();
        if (t == "gen") { std::vector<const Nod*> v; for (Nod* n : pick<Nod>(x, a[1])) v.push_back(n); return new Source::Generator(nullptr, Element::Group<const Nod>(v), Source::Generator::voltage, Source::Generator::hard); }
        if (t == "line") { std::vector<const Lin*> v; for (Lin* n : pick<Lin>(x, a[1])) v.push_back(n); return new Source::OnLine(nullptr, Element::Group<const Lin>(v), Source::OnLine::electric, Source::OnLine::soft); }
        if (t == "pw") return new Source::PlaneWave(nullptr, Element::Group<Vol>(pick<Vol>(x, a[1])), Math::CVecR3(1, 0, 0), Math::CVecR3(0, 1, 0));
        return new Source::Dipole(nullptr, Element::Group<Vol>(pick<Vol>(x, a[1])), 1.0, Math::CVecR3(1, 0, 0), Math::CVecR3(0, 0, 0));
    }
    static OutputRequest::Base* mkOut(const Data& x, const J& a) {
        const std::string& t = a[0].str(); OutputRequest::Domain dom;
        if (t == "elem") return new OutRqElem(dom, OutputRequest::Base::electric, a[1].str(), Element::Group<Elem>(pick<Elem>(x, a[2])));
        if (t == "far") return new OutputRequest::FarField(dom, a[1].str(), Element::Group<Vol>(pick<Vol>(x, a[2])), 0, 1, .5, 0, 1, .5);
        std::vector<const Elem*> v; for (Elem* n : pick<Elem>(x, a[2])) v.push_back(n);
        return new OutputRequest::BulkCurrent(dom, a[1].str(), Element::Group<const Elem>(v), Math::Constants::y, 3);
    }
    static std::string srcTy(const Source::Base* s) {
        return dynamic_cast<const Source::Generator*>(s) ? "gen" : dynamic_cast<const Source::OnLine*>(s) ? "line" : dynamic_cast<const Source::PlaneWave*>(s) ? "pw" : dynamic_cast<const Source::Dipole*>(s) ? "dip" : "?";
    }
    static std::string outTy(const OutputRequest::Base* s) {
        return dynamic_cast<const OutputRequest::BulkCurrent*>(s) ? "bulk" : dynamic_cast<const OutputRequest::FarField*>(s) ? "far" : dynamic_cast<const OutRqElem*>(s) ? "elem" : "?";
    }
    static J place(const Data& x, const Element::Group<const Elem>& g) {
        std::set<const void*> own; for (const void* p : parts(x.mesh)) own.insert(p);
        J r;
        for (std::size_t k = 0; k < g.size(); k++) {
            const void* p = (const void*)static_cast<const Elem*>(g(k)); std::string w = own.count(p) ? "own" : "other";
            for (auto& q : fre().e) if ((const void*)q.second == p) w = "free";
            if (w == "other") { r.add("an element of another mesh"); continue; }
            r.add(J().add((long)g(k)->getId().toInt()).add(w));
        }
        return r;
    }
    template <class M> static bool ownModels(const M& m, const PMGroup& g) {
        for (std::size_t i = 0; i < m.elems().size(); i++) {
            const Mod* p = m.elems()(i)->getModel(); bool ok = p == nullptr;
            for (std::size_t k = 0; k < g.size(); k++) ok = ok || static_cast<const Mod*>(g(k)) == p;
            if (!ok) return false;
        }
        return true;
    }
    static J obsD(const Data* x) {
        if (!x) return J().add("none");
        J r; 
        bool own = true;
        if (x->mesh && x->physicalModels) own = dynamic_cast<GMesh::Structured*>(x->mesh) ? ownModels(*dynamic_cast<GMesh::Structured*>(x->mesh), *x->physicalModels) : ownModels(*dynamic_cast<GMesh::Unstructured*>(x->mesh), *x->physicalModels);
        if (!own) return J().add("an element refers to a material of another data set");
        r.add(meshObs(x->mesh));
        if (!x->physicalModels) r.add("absent"); else { J l; for (std::size_t k = 0; k < x->physicalModels->size(); k++) l.add(J().add((long)(*x->physicalModels)(k)->getId().toInt()).add((*x->physicalModels)(k)->getName())); r.add(l); }
        if (!x->sources) r.add("absent"); else { J l; for (std::size_t k = 0; k < x->sources->size(); k++) l.add(J().add(srcTy((*x->sources)(k))).add(place(*x, (*x->sources)(k)->elems()))); r.add(l); }
        if (!x->outputRequests) r.add("absent"); else { J l; for (std::size_t k = 0; k < x->outputRequests->size(); k++) { auto o = (*x->outputRequests)(k); l.add(J().add(outTy(o)).add(o->getName()).add(place(*x, o->elems()))); } r.add(l); }
        if (!x->solver) r.add("absent"); else {
            std::string nm = x->solver->getName();
            r.add(x->solver->getSettings().existsName("k") && x->solver->getSettings()("k").getString() == nm ? nm : "settings of another data set");
        }
        r.add(x->mesh && x->physicalModels ? "own models" : "-");
        return r;
    }
    static Solver::Info* mkSol(const std::string& n) { Solver::Settings s; s.setObject(); s("k").setString(n); return new Solver::Info(n, s); }
    J exec(const J& op, J& obs) {
        J res = run(op);
        J l; for (auto& x : d) l.add(obsD(x.get()));
        std::set<const void*> seen; bool apart = true;
        for (auto& x : d) if (x) {
            for (const void* p : parts(x->mesh)) apart = seen.insert(p).second && apart;
            if (x->physicalModels) for (std::size_t k = 0; k < x->physicalModels->size(); k++) apart = seen.insert((const void*)(*x->physicalModels)(k)).second && apart;
            if (x->sources) for (std::size_t k = 0; k < x->sources->size(); k++) apart = seen.insert((const void*)(*x->sources)(k)).second && apart;
            if (x->outputRequests) for (std::size_t k = 0; k < x->outputRequests->size(); k++) apart = seen.insert((const void*)(*x->outputRequests)(k)).second && apart;
            if (x->solver) apart = seen.insert((const void*)x->solver).second && apart;
        }
        obs = J(); obs.add(l).add(apart ? "apart" : "shared objects");
        return res;
    }
    J run(const J& op) {
        const std::string& n = op[0].str(); std::unique_ptr<Data>& t = d[op[1].n()];
        if (n == "build") {
            t.reset(new Data());
            if (op[3].size()) { t->physicalModels = new PMGroup(); for (std::size_t k = 0; k < op[3][0].size(); k++) { auto m = new PhysicalModel::Predefined::PEC(MatId(op[3][0][k][0].n())); m->setName(op[3][0][k][1].str()); t->physicalModels->add(m); } }
            if (op[2].size()) { t->mesh = mkMesh(op[2][0].str(), op[2][1], op[2][2], op[2][3], op[2][4]); if (t->physicalModels) t->mesh->reassignPointers(*t->physicalModels); }
            if (op[4].size()) { t->sources = new SourceGroup(); for (std::size_t k = 0; k < op[4][0].size(); k++) t->sources->add(mkSrc(*t, op[4][0][k])); }
            if (op[5].size()) { t->outputRequests = new OutputRequest::Group<>(); for (std::size_t k = 0; k < op[5][0].size(); k++) t->outputRequests->add(mkOut(*t, op[5][0][k])); }
            if (op[6].size()) t->solver = mkSol(op[6][0].str());
        } else if (n == "copy") { Data* x = new Data(*d[op[2].n()]); t.reset(x); }
        else if (n == "clone") { Data* x = d[op[2].n()]->cloneTo<Data>(); t.reset(x); }
        else if (n == "assign") { if (!t) t.reset(new Data()); *t = *d[op[2].n()]; }
        else if (n == "drop") t.reset();
        else if (n == "mesh") {
            const std::string& w = op[2].str();
            if (w == "setMat") {
                const Mod* m = op[4].n() ? static_cast<const Mod*>(t->physicalModels->getId(MatId(op[4].n()))) : nullptr;
                find(*t, op[3].n())->setModel(m);
            } else if (w == "setLay") {
                if (auto s = dynamic_cast<GMesh::Structured*>(t->mesh)) find(*t, op[3].n())->setLayer(layOf(s->layers(), op[4].n()));
                else find(*t, op[3].n())->setLayer(layOf(dynamic_cast<GMesh::Unstructured*>(t->mesh)->layers(), op[4].n()));
            } else if (w == "move") {
                const J& p = op[4];
                if (auto s = dynamic_cast<GMesh::Structured*>(t->mesh)) s->coords().getId(CoordId(op[3].n()))->pos() = Math::CVecI3(p[0].n(), p[1].n(), p[2].n());
                else dynamic_cast<GMesh::Unstructured*>(t->mesh)->coords().getId(CoordId(op[3].n()))->pos() = real3(p);
            } else if (w == "scale") t->mesh->applyScalingFactor(op[3].n() / (double)op[4].n());
        }
        else if (n == "srcSet") { std::vector<const Elem*> v; for (long k : op[3].ints()) v.push_back(find(*t, k)); (*t->sources)(op[2].n() - 1)->set(Element::Group<const Elem>(v)); }
        else if (n == "outSet") { std::vector<const Elem*> v; for (long k : op[3].ints()) v.push_back(find(*t, k)); (*t->outputRequests)(op[2].n() - 1)->set(Element::Group<const Elem>(v)); }
        else if (n == "outName") (*t->outputRequests)(op[2].n() - 1)->setName(op[3].str());
        else if (n == "srcDel") t->sources->remove(op[2].n() - 1);
        else if (n == "outDel") t->outputRequests->remove(op[2].n() - 1);
        else if (n == "matAdd") { auto m = new PhysicalModel::Predefined::PEC(MatId(op[2].n())); m->setName(op[3].str()); t->physicalModels->add(m); }
        else if (n == "matName") t->physicalModels->getId(MatId(op[2].n()))->setName(op[3].str());
        else if (n == "solver") { delete t->solver; t->solver = mkSol(op[2].str()); }
        else return J("unknown op");
        return J("ok");
    }
};
#endif
