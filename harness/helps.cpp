// Conformance driver for usage lines and help texts (spec: Helps.tla).
#include "vj.h"
#include <iostream>
#include <memory>
#include "argument/Parser.h"
using namespace SEMBA::Argument;
static std::list<std::string> texts(const J& l) { std::list<std::string> r; for (auto& w : l.a) r.push_back(w.str()); return r; }
template <class T> T* make(const std::string& name, const std::string& sh, const std::string& lg) { if (sh.empty()) return new T(name, lg); if (lg.empty()) return new T(name, sh[0]); return new T(name, sh[0], lg); }
struct World {
    static void tell(Argument* a, const J& x) {
        if (x[6].str().size()) a->help(x[6].str());
        if (x[7].size()) a->metavar(texts(x[7]));
        if (x[8].size()) a->defaultVal(texts(x[8]));
        std::vector<std::list<std::string> > ch; for (auto& c : x[9].a) ch.push_back(texts(c));
        if (ch.size()) a->choices(ch);
        a->required(x[5].b());
    }
    // Every other argument is a copy of what was written down.
    template <class T> static T* opt(const J& x) { std::unique_ptr<T> r(make<T>(x[2].str(), x[3].str(), x[4].str())); tell(r.get(), x); if (x[2].str().size() % 2) return r.release(); return new T(*r); }
    template <class T> static T* pos(const J& x) { std::unique_ptr<T> r(new T(x[2].str())); tell(r.get(), x); if (x[2].str().size() % 2) return r.release(); return new T(*r); }
    J exec(const J& op, J& obs) {
        obs = J();
        Parser p; p.prog(op[1].str());
        if (op[2].str().size()) p.usage(op[2].str());
        if (op[3].str().size()) p.description(op[3].str());
        if (op[4].str().size()) p.epilog(op[4].str());
        std::vector<GroupBase*> gs(1, &p);
        for (std::size_t i = 1; i < op[5].size(); i++) {
            const J& g = op[5][i]; Group& up = dynamic_cast<Group&>(*gs[g[0].n() - 1]);
            if (g[3].b()) { gs.push_back(&up.addMutuallyExclusiveGroup()); if (g[4].b()) gs.back()->required(); }
            else if (i % 2) gs.push_back(&up.addGroup(g[1].str(), g[2].str())); else { gs.push_back(&up.addGroup(g[1].str())); gs.back()->description(g[2].str()); }
        }
        for (std::size_t i = 0; i < op[6].size(); i++) {
            const J& x = op[6][i]; GroupBase& g = *gs[x[0].n() - 1]; const std::string& k = x[1].str();
            if (k == "pos") g.addPosition(pos<Position<int> >(x)); else if (k == "mpos") g.addPosition(pos<MultiPosition<std::string> >(x));
            else if (k == "opt") g.addOption(opt<Option<std::string, int> >(x)); else if (k == "mopt") g.addOption(opt<MultiOption<int> >(x));
            else if (k == "switch") g.addOption(opt<Switch>(x)); else g.addOption(opt<MultiSwitch>(x));
        }
        std::ostringstream out; std::streambuf* was = std::cout.rdbuf(out.rdbuf());
        try { if (op[0].str() == "usage") p.printUsage(); else p.printHelp(); } catch (...) { std::cout.rdbuf(was); throw; }
        std::cout.rdbuf(was);
        std::string t = out.str(); J r;
        if (t.empty() || t.back() != '\n') return "no end of line";
        std::size_t a = 0, b; while (a < t.size()) { b = t.find('\n', a); r.add(t.substr(a, b - a)); a = b + 1; }
        return r;
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
