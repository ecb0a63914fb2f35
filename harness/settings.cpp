// Conformance driver for the settings trees (spec: Settings.tla).
#include "vj.h"
#include "argument/Object.h"
using SEMBA::Argument::Object;
struct World {
    Object v[2];
    static Object& at(Object& t, const J& p) { Object* r = &t; for (auto& s : p.a) r = s.str()[0] == '#' ? &(*r)((std::size_t)std::stol(s.str().substr(1))) : &(*r)(s.str()); return *r; }
    static std::list<std::string> words(const J& w) { std::list<std::string> r; for (auto& x : w.a) r.push_back(x.str()); return r; }
    static void store(Object& o, const J& w) { if (w.size() == 1) o.setString(w[0].str()); else o.setGenericString(words(w)); }
    static J dump(const Object& o) {
        J r, k; int n = o.isNull() + o.isObject() + o.isArray() + o.isString();
        if (n != 1) return "of no type or several";
        if (o.isNull()) return r.add("n");
        if (o.isString()) { std::string all; for (auto& w : o.getGenericString()) { k.add(w); all += (k.size() > 1 ? " " : "") + w; } if (o.getString() != all) k.add("text differs"); return r.add("s").add(k); }
        for (std::size_t i = 0; i < o.size(); i++) {
            if (o.isArray()) { k.add(dump(o(i))); continue; }
            const std::string& nm = o.getName(i); J x = dump(o(i));
            try { if (&o(nm) != &o(i)) x.add("found under its name: something else"); } catch (const std::exception&) { x.add("not found under its name"); }
            if (o.existsName(nm) == o(i).isNull()) x.add("wrongly said to exist or not");
            k.add(J().add(nm).add(x));
        }
        return r.add(o.isArray() ? "a" : "d").add(k);
    }
    static std::string printed(const Object& o) { std::ostringstream s; std::streambuf* b = std::cout.rdbuf(s.rdbuf()); o.printInfo(true); std::cout.rdbuf(b); return s.str(); }
    J exec(const J& op, J& obs) {
        const std::string& n = op[0].str(); J res = "ok";
        if (n == "plant") { for (int k = 0; k < 2; k++) v[k] = build(op[1 + k]); return obs = view(), res; }
        Object& root = v[op[1].n() - 1]; Object& o = at(root, op[2]);
        auto from = [&]() -> Object& { return at(v[op[3].n() - 1], op[4]); };
        if (n == "words") store(o, op[3]);
        else if (n == "null") o.setNull(); else if (n == "object") o.setObject(); else if (n == "array") o.setArray(); else if (n == "reset") o.reset();
        else if (n == "touch") o(op[3].str());
        else if (n == "fill") { if (op[4].size() == 1) o(op[3].str()) = op[4][0].str(); else { Object x; store(x, op[4]); o.addMember(op[3].str(), x); } }
        else if (n == "push") { Object x; store(x, op[3]); o.addValue(std::move(x)); }
        else if (n == "member") o.addMember(op[5].str(), from());
        else if (n == "value") o.addValue(from());
        else if (n == "assign") { const Object& f = from(); o = f; }
        else if (n == "take") { o = std::move(from()); if (op[1].n() != op[3].n()) v[op[3].n() - 1] = Object(); }
        else if (n == "merge") o += from();
        else if (n == "sum") root = at(v[0], op[2]) + at(v[1], op[4]);
        else if (n == "erase") o.eraseMember(op[3].str());
        else if (n == "eraseAt") o.eraseValue(op[3].n() - 1);
        else if (n == "ask") { const Object& c = o; std::string w = "refused"; bool e = c.existsName(op[3].str()); if (c.isObject()) { try { c(op[3].str()); w = "there"; } catch (const std::out_of_range&) {} } res = J().add(w).add(e); }
        else throw std::logic_error("op " + n);
        obs = view();
        return res;
    }
    static Object build(const J& t) {
        Object o; const std::string& k = t[0].str();
        if (k == "s") store(o, t[1]);
        if (k == "a") { o.setArray(); for (auto& x : t[1].a) o.addValue(build(x)); }
        if (k == "d") { o.setObject(); for (auto& x : t[1].a) o.addMember(x[0].str(), build(x[1])); }
        return o;
    }
    J view() const { return J().add(dump(v[0])).add(dump(v[1])).add(printed(v[0])).add(printed(v[1])); }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
