// Conformance driver for sampled functions and magnitudes (spec: Sampled.tla).
// Files of samples are written in the driver's own working folder.
#include "vj.h"
#include <memory>
#include <unistd.h>
#include "math/function/BandLimited.h"
#include "math/function/Gaussian.h"
#include "math/function/LinearInterpolation.h"
#include "source/Generator.h"
#include "source/magnitude/Numerical.h"
using namespace SEMBA;
typedef Math::Function::LinearInterpolation<Math::Real, Math::Real> Lin;
typedef Source::Magnitude::Magnitude Mag;
typedef Source::Magnitude::Numerical Num;
template <class F> static J attempt(F f) { try { return f(); } catch (const std::exception&) { return "refused"; } }
struct World {
    struct Slot { std::unique_ptr<Math::FunctionRR> f; std::unique_ptr<Mag> m; bool has = false; };
    Slot s[4];
    std::string pre;
    World() { static int k = 0; pre = "w" + std::to_string(k++) + "s"; }
    ~World() { for (int i = 0; i < 3; i++) unlink(name(i).c_str()); }
    std::string name(long f) const { return pre + std::to_string(f) + ".txt"; }
    static std::string kind(const Slot& x) { return x.f ? "lin" : !x.m ? "none" : x.m->is<Num>() ? "num" : "mag"; }
    static Num* num(const Slot& x) { return dynamic_cast<Num*>(x.m.get()); }
    static void put(Slot& x, Math::FunctionRR* f, Mag* m, bool has) { x.f.reset(f); x.m.reset(m); x.has = has; }
    static double value(const Slot& x, double t) {
        if (x.f) return x.f->eval(t);
        if (Num* n = num(x)) return n->evaluate(t);
        return x.m->evaluate(t);
    }
    static Mag* conv(const Mag& m, const FileSystem::Project& p, double h, double t, long via) {
        if (via == 0) return new Num(p, m, h, t);
        Source::Generator g(m.cloneTo<Mag>(), Geometry::Element::Group<const Geometry::Nod>(), Source::Generator::voltage, Source::Generator::soft);
        if (via == 1) return g.exportToFile(p, h, t);
        g.convertToNumerical(p, h, t);
        return g.getMagnitude()->cloneTo<Mag>();
    }
    J run(const J& op) {
        const std::string& n = op[0].str();
        Slot* x = op[1].t == J::INT && op[1].n() >= 0 && op[1].n() < 4 ? &s[op[1].n()] : nullptr;
        if (n == "file") {
            std::ofstream o(name(op[1].n())); bool first = true; std::size_t k = 0;
            for (auto& w : op[2].a) { if (!first) o << (k % 2 ? "  " : k % 4 ? "\n" : "\t"); first = false; k++; if (w.size()) o << w[0].n(); else o << "x"; }
            if (op[3].b()) o << "\n";
        }
        else if (n == "rmfile") unlink(name(op[1].n()).c_str());
        else if (n == "lin") { std::vector<std::pair<double, double> > v; for (auto& p : op[2].a) v.push_back(std::make_pair((double)p[0].n(), (double)p[1].n())); put(*x, new Lin(v), nullptr, true); }
        else if (n == "linfile") { Lin* l = new Lin(name(op[2].n())); put(*x, l, nullptr, true); }
        else if (n == "mag") { Mag* m = new Mag(dynamic_cast<Math::FunctionRR*>(s[op[2].n()].f->clone())); put(*x, nullptr, m, true); }
        else if (n == "mag0") put(*x, nullptr, new Mag(), false);
        else if (n == "num") { Num* m = new Num(FileSystem::Project(name(op[2].n()))); put(*x, nullptr, m, true); }
        else if (n == "num0") put(*x, nullptr, new Num(), false);
        else if (n == "conv") {
            const Slot& y = s[op[2].n()]; bool was = y.m->is<Num>(), h = y.has; std::string f = name(op[3].n());
            try { Mag* m = conv(*y.m, FileSystem::Project(f), op[4].n(), op[5].n(), op[6].n()); if (!was) unlink(f.c_str()); put(*x, nullptr, m, h); }
            catch (const std::exception&) { unlink(f.c_str()); throw; }
        }
        else if (n == "copy") { const Slot& y = s[op[2].n()]; bool h = y.has; if (y.f) { auto* f = dynamic_cast<Math::FunctionRR*>(y.f->clone()); put(*x, f, nullptr, h); } else { Mag* m = y.m->cloneTo<Mag>(); put(*x, nullptr, m, h); } }
        else if (n == "assign") {
            Slot& y = s[op[2].n()];
            if (x->f) *dynamic_cast<Lin*>(x->f.get()) = *dynamic_cast<Lin*>(y.f.get());
            else if (num(*x)) *num(*x) = *num(y); else *x->m = *y.m;
            x->has = y.has;
        }
        else if (n == "drop") put(*x, nullptr, nullptr, false);
        else if (n == "gauss") {
            auto g = [&](const J& p) { return Math::Function::Gaussian(p[0].n(), p[1].n(), p[2].n()); };
            Math::Function::Gaussian a = g(op[1]), b = g(op[2]); std::unique_ptr<Math::Function::Base> c(a.clone());
            if (!(a == *c) || !(*c == a) || (a == b) != (b == a)) return "not an equality";
            auto* d = dynamic_cast<Math::Function::Gaussian*>(c.get());
            return J().add(a == b).add(J().add(scaled(d->getSpread(), 1)).add(scaled(d->getDelay(), 1)).add(scaled(d->getFreq(), 1)));
        }
        else if (n == "band") {
            Math::Function::BandLimited a(op[1].n(), op[2].n()), b(op[3].n(), op[4].n()); std::unique_ptr<Math::Function::Base> c(a.clone());
            if ((a == b) != (b == a) || a == Math::Function::Gaussian(1, 2)) return "not an equality";
            return J().add(a == *c).add(a == b);
        }
        else if (n == "upto") { auto g = Math::Function::Gaussian::buildFromMaximumFrequency(op[1].n()); return J().add(scaled(g.getSpread() * op[1].n(), 1000)).add(scaled(g.getDelay() * op[1].n(), 1000)).add(scaled(g.getFreq(), 1)); }
        else throw std::runtime_error("op " + n);
        return "ok";
    }
    J exec(const J& op, J& obs) {
        J res = attempt([&] { return run(op); }), all, q;
        for (int i = 0; i < 4; i++) {
            J v; long f = -1;
            if (!s[i].has) {
                v = "none";
                // what has no function has no value
                if (s[i].m && attempt([&] { return scaled(value(s[i], 0), 144); }).t != J::STR) v = "a value of nothing";
            }
            else v = attempt([&] { J r; for (int k = 0; k < 20; k++) r.add(scaled(value(s[i], k - 3), 144)); return r; });
            if (Num* m = num(s[i])) { std::string fn = m->getFilename(); for (int k = 0; k < 3; k++) if (fn == name(k)) f = k; if (f < 0 && !fn.empty()) f = 9; }
            all.add(J().add(kind(s[i])).add(f).add(v));
            J row;
            for (int j = 0; j < 4; j++) {
                std::string e = "n";
                if (s[i].f && s[j].f) e = *s[i].f == *s[j].f ? "t" : "f";
                else if (s[i].m && s[j].m) e = *s[i].m == *s[j].m ? "t" : "f";
                row.add(e);
            }
            q.add(row);
        }
        obs = J::obj().put("s", all).put("q", q);
        return res;
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
