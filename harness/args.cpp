// Conformance driver for argument definitions and command lines (spec: Args.tla).
#include "vj.h"
#include <memory>
#include "argument/Parser.h"
using namespace SEMBA::Argument;
static std::string text(const J& w) { std::string r; for (auto& c : w.a) r += c.str(); return r; }
static std::list<std::string> texts(const J& l) { std::list<std::string> r; for (auto& w : l.a) r.push_back(w.str()); return r; }
// Every way to write the forms of an argument down is used.
template <class T> T* make(const std::string& name, const std::string& sh, const std::string& lg) {
    if (sh.empty() && name == lg) return new T(name);
    if (!sh.empty() && !lg.empty() && name == lg) return new T(sh[0], lg);
    if (sh.empty()) return new T(name, lg);
    if (lg.empty()) return new T(name, sh[0]);
    return new T(name, sh[0], lg);
}
template <class T> void tell(T* a, const J& op) {
    a->required(op[7].b());
    if (op[8].size()) a->defaultVal(texts(op[8]));
    std::vector<std::list<std::string> > ch; for (auto& c : op[9].a) ch.push_back(texts(c));
    a->choices(ch);
}
template <class T> T* value(const J& op, const std::string& sh, const std::string& lg) {
    std::unique_ptr<T> r(make<T>(op[3].str(), sh, lg));
    Argument* a = r.get(); tell(a, op);
    if (op[3].str().size() % 2 == 0) r.reset(new T(*r));
    return r.release();
}
template <class T> T* place(const J& op) {
    std::unique_ptr<T> r(new T(op[3].str()));
    Argument* a = r.get();
    if (op[8].size()) a->defaultVal(texts(op[8]));
    std::vector<std::list<std::string> > ch; for (auto& c : op[9].a) ch.push_back(texts(c));
    a->choices(ch);
    if (op[3].str().size() % 2 == 0) r.reset(new T(*r));
    return r.release();
}
template <template <typename...> class O, class F> auto typed(const std::string& ty, F f) -> decltype(f((O<int>*)nullptr)) {
    if (ty == "i") return f((O<int>*)nullptr);
    if (ty == "s") return f((O<std::string>*)nullptr);
    if (ty == "r") return f((O<double>*)nullptr);
    if (ty == "b") return f((O<bool>*)nullptr);
    if (ty == "v") return f((O<std::vector<int> >*)nullptr);
    if (ty == "is") return f((O<int, std::string>*)nullptr);
    if (ty == "ii") return f((O<int, int>*)nullptr);
    if (ty == "si") return f((O<std::string, int>*)nullptr);
    if (ty == "vs") return f((O<std::vector<int>, std::string>*)nullptr);
    if (ty == "iri") return f((O<int, double, int>*)nullptr);
    throw std::logic_error("types " + ty);
}
struct World {
    Parser p;
    std::vector<GroupBase*> gs{&p};
    std::vector<int> up{-1};
    World() { p.description("about it").prog("prog"); }
    struct A { int g; std::string name; };
    std::vector<A> as;

    J define(const J& op) {
        const std::string& n = op[0].str(); int g = (int)((op[1].n() - 1) % (long)gs.size());
        if (n != "arg" && n != "none" && gs[g]->isMutuallyExclusive()) g = up[g];
        try {
            if (n == "none") { if (op[2].b()) gs[g]->addPosition(nullptr); else gs[g]->addOption(nullptr); }
            else if (n == "group") { gs.push_back(&dynamic_cast<Group*>(gs[g])->addGroup(op[2].str(), "text")); up.push_back(g); }
            else if (n == "exclusive") { gs.push_back(&dynamic_cast<Group*>(gs[g])->addMutuallyExclusiveGroup()); up.push_back(g); if (op[2].b()) gs.back()->required(); }
            else if (n == "arg") {
                const std::string kind = op[2].str(), name = op[3].str(), sh = op[4].str(), lg = text(op[5]); std::string ty = text(op[6]);
                if (kind == "pos") gs[g]->addPosition(typed<Position>(ty, [&](auto* t) -> PositionBase* { return place<typename std::remove_pointer<decltype(t)>::type>(op); }));
                else if (kind == "opt") gs[g]->addOption(typed<Option>(ty, [&](auto* t) -> OptionBase* { return value<typename std::remove_pointer<decltype(t)>::type>(op, sh, lg); }));
                else if (kind == "mopt") gs[g]->addOption(typed<MultiOption>(ty, [&](auto* t) -> OptionBase* { return value<typename std::remove_pointer<decltype(t)>::type>(op, sh, lg); }));
                else if (kind == "switch") {
                    std::unique_ptr<Switch> r(make<Switch>(name, sh, lg)); r->required(op[7].b()); if (op[8].size()) r->defaultVal(op[8][0].str() == "1");
                    if (name.size() % 2 == 0) r.reset(new Switch(*r));
                    gs[g]->addOption(r.release());
                } else if (kind == "mswitch") {
                    std::unique_ptr<MultiSwitch> r(make<MultiSwitch>(name, sh, lg)); r->required(op[7].b()); if (op[8].size()) r->defaultVal(std::stoul(op[8][0].str()));
                    if (name.size() % 2 == 0) r.reset(new MultiSwitch(*r));
                    gs[g]->addOption(r.release());
                } else throw std::logic_error("kind " + kind);
                as.push_back(A{g, name});
            } else throw std::logic_error("op " + n);
        } catch (const Error::Group::NullArgument&) { return "null"; }
        catch (const Error::Group::Repeated&) { return "taken"; }
        catch (const Error::NoIdentifier&) { return "unidentified"; }
        return "ok";
    }
    J tree(const Object& o, int g) {
        J vs, ks;
        for (auto& a : as) {
            int home = gs[a.g]->isMutuallyExclusive() ? up[a.g] : a.g;
            if (home != g || !o.existsName(a.name)) continue;
            const Object& v = o(a.name);
            J j;
            if (v.isArray()) { J l; for (std::size_t i = 0; i < v.size(); i++) l.add(v(i).getString()); j = J().add("list").add(l); } else j = v.getString();
            vs.add(J().add(a.name).add(j));
        }
        for (std::size_t k = 1; k < gs.size(); k++) if (up[k] == g && !gs[k]->isMutuallyExclusive()) ks.add(J().add(gs[k]->getName()).add(tree(o(gs[k]->getName()), (int)k)));
        return J().add((long)o.size()).add(vs).add(ks);
    }
    J parse(const J& op) {
        std::vector<std::string> w(1, "/some/where/prog"); for (auto& x : op[1].a) w.push_back(text(x));
        auto no = [](const char* c) { return J().add("refused").add(c); };
        try {
            Object o; std::vector<std::string> left;
            if (op[2].b()) {
                if (w.size() % 2) o = p.parse(w);
                else { std::vector<const char*> c; for (auto& x : w) c.push_back(x.c_str()); o = p.parse((int)c.size(), c.data()); }
            } else {
                auto r = p.parseKnownArgs(w); o = r.first; left.assign(r.second.begin() + 1, r.second.end());
                if (r.second[0] != "prog" || p.getProg() != "prog") return "program";
            }
            J l; for (auto& x : left) l.add(x);
            return J().add("ok").add(tree(o, 0)).add(l);
        } catch (const StringParser::Error::Error&) { return no("value"); }
        catch (const Error::NotChoices& e) { return no(*e.what() ? "choice" : "choice, without saying why"); }
        catch (const Error::Multiple&) { return no("multiple"); }
        catch (const Error::Empty&) { return no("empty"); }
        catch (const Error::Ambiguous&) { return no("ambiguous"); }
        catch (const Error::Unknown&) { return no("unknown"); }
        catch (const Error::Required&) { return no("required"); }
        catch (const Error::Group::Required&) { return no("group"); }
        catch (const Error::Group::Excluded&) { return no("excluded"); }
    }
    J watch() {
        J r;
        if (p.getDescription() != "about it") r.add("description");
        for (auto* g : gs) {
            J pos, opt, kids, all, sh, lg;
            for (std::size_t i = 0; i < g->numPositions(); i++) pos.add(g->position(i).getName());
            for (std::size_t i = 0; i < g->numOptions(); i++) {
                const OptionBase& o = g->option(i); std::string s, l;
                if (o.hasShortIdentifier()) s = o.getShortIdentifier(); if (o.hasLongIdentifier()) l = o.getLongIdentifier();
                opt.add(J().add(o.getName()).add(s).add(l));
            }
            for (std::size_t i = 0; i < g->numChilds(); i++) kids.add(g->child(i).getName());
            for (std::size_t i = 0; i < g->numChildPositions(); i++) all.add(g->childPosition(i).getName());
            for (char c : {'a', 'b', 'c', 'd', 'v'}) sh.add(g->existsOption(c) ? g->childOption(g->optionName(c)).getName() : std::string());
            for (std::string l : {"aa", "ab", "aab", "al", "alpha", "be", "beta", "alt"}) {
                bool e = g->existsOption(l), ab = g->existsOption(l, true); std::size_t n = g->possibleOptions(l, true).size();
                if (ab != (n > 0) || (g->possibleOptions(l).size() == 1) != e) n = 99;
                lg.add(J().add(e ? g->childOption(g->optionName(l)).getName() : std::string()).add(e ? 1L : 0L).add((long)n));
            }
            r.add(J().add(g->getName()).add(g->isMutuallyExclusive()).add(g->isRequired()).add(pos).add(opt).add(kids).add(all).add(sh).add(lg));
        }
        return r;
    }
    J exec(const J& op, J& obs) {
        const std::string& n = op[0].str(); J res = "ok";
        if (n == "define") { for (auto& o : op[1].a) define(o); }
        else if (n == "parse") res = parse(op);
        else res = define(op);
        obs = watch();
        return res;
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
