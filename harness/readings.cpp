// Conformance driver for the typed readings of settings (spec: Readings.tla).
#include "vj.h"
#include "argument/Object.h"
using SEMBA::Argument::Object;
static J show(int v) { return (long)v; }
static J show(bool v) { return v; }
static J show(const std::string& v) { return v; }
static J show(double v) {
    if (v == 0) return J().add(false).add("").add(0L);
    char b[64]; std::snprintf(b, 64, "%.14e", std::fabs(v));
    std::string m(b), d; long e = std::stol(m.substr(m.find('e') + 1)) - 14; m = m.substr(0, m.find('e'));
    for (char c : m) if (c != '.') d += c;
    while (d.size() && d.back() == '0') { d.pop_back(); e++; }
    return J().add(v < 0).add(d).add(e);
}
static J show(const std::vector<int>& v) { J r; for (int x : v) r.add((long)x); return r; }
template <class F> static J attempt(F f) { try { return f(); } catch (const std::exception&) { return "refused"; } }
struct World {
    Object o;
    static std::string text(const J& w) { std::string r; for (auto& c : w.a) r += c.str(); return r; }
    J exec(const J& op, J& obs) {
        const std::string& n = op[0].str(); J res = "ok";
        if (n == "words") { if (op[1].size() == 1) o.setString(text(op[1][0])); else { std::list<std::string> l; for (auto& w : op[1].a) l.push_back(text(w)); o.setGenericString(l); } }
        else if (n == "int") o.setInt((int)op[1].n());
        else if (n == "bool") { if (op[1].b()) o.setTrue(); else o.setFalse(); }
        else if (n == "pair") o.set((int)op[1].n(), text(op[2]));
        else if (n == "null") o.setNull(); else if (n == "object") o.setObject(); else if (n == "array") o.setArray();
        else if (n == "real") { char b[64]; std::snprintf(b, 64, "%lde%ld", op[1].n(), op[2].n()); o.setReal(std::strtod(b, nullptr)); res = attempt([&] { return show(o.getReal()); }); }
        else throw std::logic_error("op " + n);
        J all;
        all.add(attempt([&] { return J().add(show(o.get<int>())); })).add(attempt([&] { return J().add(show(o.get<double>())); })).add(attempt([&] { return J().add(show(o.get<bool>())); }));
        all.add(attempt([&] { return J().add(show(o.get<std::string>())); })).add(attempt([&] { return J().add(show(o.get<std::vector<int> >())); }));
        all.add(attempt([&] { auto p = o.get<int, std::string>(); return J().add(show(p.first)).add(show(p.second)); }));
        all.add(attempt([&] { auto p = o.get<std::string, int>(); return J().add(show(p.first)).add(show(p.second)); }));
        all.add(attempt([&] { auto p = o.get<int, int>(); return J().add(show(p.first)).add(show(p.second)); }));
        all.add(attempt([&] { auto p = o.get<double, bool>(); return J().add(show(p.first)).add(show(p.second)); }));
        all.add(attempt([&] { auto p = o.get<int, double, std::string>(); return J().add(show(std::get<0>(p))).add(show(std::get<1>(p))).add(show(std::get<2>(p))); }));
        all.add(attempt([&] { auto p = o.get<int, std::vector<int> >(); return J().add(show(p.first)).add(show(p.second)); }));
        all.add(attempt([&] { auto p = o.get<std::vector<int>, std::string>(); return J().add(show(p.first)).add(show(p.second)); }));
        all.add(attempt([&] { auto p = o.get<int, int, int, int>(); return J().add(show(std::get<0>(p))).add(show(std::get<1>(p))).add(show(std::get<2>(p))).add(show(std::get<3>(p))); }));
        // the questions whether a reading is possible answer as the readings do
        bool same = o.is<int>() == (all[0].t == J::ARR) && o.is<double>() == (all[1].t == J::ARR) && o.is<bool>() == (all[2].t == J::ARR) && o.is<int, std::string>() == (all[5].t == J::ARR)
            && attempt([&] { return show(o.getBool()); }).t == (all[2].t == J::ARR ? J::BOOL : J::STR) && (all[1].t != J::ARR || o.getReal() == o.get<double>());
        obs = J().add(o.isString()).add(o.isBool()).add(o.isNumber()).add(o.isInt()).add(o.isReal()).add(o.getString()).add(attempt([&] { return show(o.getInt()); })).add(all);
        if (!same) obs.add("questions and readings differ");
        return res;
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
