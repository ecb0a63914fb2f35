// Conformance driver for the import of ASCII STL files (spec: Stl.tla).
#include "elems.h"
#include <algorithm>
#include "parser/stl/Parser.h"
using namespace vj;
static long style = 0;
struct World {
    std::vector<std::pair<std::string, std::vector<J> > > solids;
    std::string cut;
    static std::string num(double v) {
        char b[64]; std::snprintf(b, 64, style % 3 == 1 ? "%.6e" : style % 3 == 2 ? "%+.9f" : "%g", v); return b;
    }
    std::string text() const {
        const std::string nl = style % 2 ? "\r\n" : "\n", in = style % 5 == 4 ? "\t" : style % 5 == 3 ? "" : "  ", sp = style % 5 == 2 ? "   " : " ";
        std::string r; std::size_t last = solids.size();
        for (std::size_t k = 0; k < solids.size(); k++) {
            r += "solid" + (solids[k].first.empty() ? "" : " " + solids[k].first) + (style % 7 == 3 ? " " : "") + nl;
            for (std::size_t f = 0; f < solids[k].second.size(); f++) {
                const J& t = solids[k].second[f]; std::string c = k + 1 == last && f + 1 == solids[k].second.size() ? cut : "";
                r += in + "facet normal " + num(0) + sp + num(0) + sp + num(1) + nl;
                if (c == "opened") return r;
                r += in + in + "outer loop" + nl;
                for (std::size_t q = 0; q < t.size(); q++) {
                    if (c == "vertices" && q + 1 == t.size()) return r;
                    r += in + in + in + "vertex" + sp + num(t[q][0].n() / 4.) + sp + (c == "garbage" && q == 1 ? "none" : num(t[q][1].n() / 4.));
                    if (c == "number" && q + 1 == t.size()) return r;
                    r += sp + num(t[q][2].n() / 4.) + nl;
                }
                if (c == "vertices" || c == "number") return r;
                if (c == "garbage" && t.size() < 2) { r += "vertex none none none" + nl; }
                r += in + in + "endloop" + nl;
                if (c == "closed") return r;
                r += in + "endfacet" + nl;
                if (style % 7 == 2) r += nl;
            }
            r += "endsolid" + (style % 4 == 1 || solids[k].first.empty() ? "" : " " + solids[k].first) + (style % 6 == 5 && k + 1 == last ? "" : nl);
            if (style % 7 == 5) r += nl + nl;
        }
        return r;
    }
    J exec(const J& op, J& obs) {
        const std::string& n = op[0].str();
        if (n == "solid") solids.push_back(std::make_pair(op[1].str(), std::vector<J>()));
        else if (n == "facet") solids.back().second.push_back(op[1]);
        else if (n == "cut") cut = op[1].str();
        else if (n == "drop") solids.pop_back();
        else if (n == "style") style = op[1].n();
        else throw std::logic_error("op " + n);
        std::istringstream s(text());
        obs = view(s);
        return "ok";
    }
    World() { style = 0; }
    J view(std::istream& s) {
        std::unique_ptr<Data> d;
        try { d.reset(new Data(SEMBA::Parser::STL::Parser().read(s))); } catch (const std::exception&) { return "refused"; }
        J ls, es, cs, ms, rest; auto m = dynamic_cast<const vj::Mesh::Geometric*>(d->mesh);
        if (!m) return "no mesh";
        for (std::size_t k = 0; k < m->layers().size(); k++) ls.add(J().add((long)m->layers()(k)->getId().toInt()).add(m->layers()(k)->getName()));
        for (std::size_t k = 0; k < m->elems().size(); k++) {
            auto e = m->elems()(k); J v;
            for (std::size_t q = 0; q < e->numberOfCoordinates(); q++) { v.add(vec(e->getV(q)->pos(), 4)); if (m->coords().getId(e->getV(q)->getId()) != e->getV(q)) v.add("of something else"); }
            es.add(J().add((long)e->getId().toInt()).add(tyOf(e)).add((long)e->getLayerId().toInt()).add((long)e->getMatId().toInt()).add(v));
        }
        std::vector<std::vector<long> > p; for (std::size_t k = 0; k < m->coords().size(); k++) p.push_back(vec(m->coords()(k)->pos(), 4).ints());
        std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
        for (auto& x : p) cs.add(J().add(x[0]).add(x[1]).add(x[2]));
        for (std::size_t k = 0; d->physicalModels && k < d->physicalModels->size(); k++) { auto x = (*d->physicalModels)(k); ms.add(J().add((long)x->getId().toInt()).add(dynamic_cast<const PhysicalModel::Predefined::PEC*>(x) ? "PEC" : "?")); }
        rest.add((long)(d->solver ? 1 : 0)).add((long)(d->sources ? d->sources->size() : 0)).add((long)(d->outputRequests ? d->outputRequests->size() : 0));
        return J().add(ls).add(es).add(cs).add(ms).add(rest);
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
