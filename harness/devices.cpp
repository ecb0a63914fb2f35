// Conformance driver for output requests and sources (spec: Devices.tla).
#include "elems.h"
#include <memory>
#include "source/Generator.h"
#include "source/OnLine.h"
#include "source/PlaneWave.h"
#include "source/Dipole.h"
#include "source/port/WaveguideRectangular.h"
#include "source/port/TEMCoaxial.h"
#include "outputRequest/BulkCurrent.h"
#include "outputRequest/FarField.h"
#include "math/function/LinearInterpolation.h"
#include "physicalModel/predefined/PEC.h"
using namespace vj;
namespace OR = SEMBA::OutputRequest;
namespace SO = SEMBA::Source;
typedef Math::Function::LinearInterpolation<Math::Real, Math::Real> LinF;
struct Stock {  // the elements every register may refer to
    std::vector<CoordR3*> c; std::map<long, Elem*> e; Geometry::Element::Group<Elem> keep; PhysicalModel::Predefined::PEC* mat;
    const CoordR3* at(double x, double y, double z) { c.push_back(new CoordR3(CoordId((long)c.size() + 1), Math::CVecR3(x, y, z))); return c.back(); }
    Elem* rect(long id, double x, double y, double w, double h, const Mod* m) { return makeR("Qua4", id, {at(x, y, 0), at(x + w, y, 0), at(x + w, y + h, 0), at(x, y + h, 0)}, nullptr, m); }
    Stock() {
        mat = new PhysicalModel::Predefined::PEC(MatId(2)); mat->setName("m"); const Mod* m = mat;
        for (long k = 1; k <= 3; k++) e[k] = makeR("Node", k, {at(k, 0, 0)}, nullptr, k == 3 ? m : nullptr);
        for (long k = 4; k <= 6; k++) e[k] = makeR("Line", k, {at(k, 1, 0), at(k, 2, 0)}, nullptr, k == 6 ? m : nullptr);
        e[7] = rect(7, 0, 0, 2, 1, nullptr); e[8] = rect(8, 2, 0, 2, 1, nullptr); e[9] = rect(9, 0, 1, 4, 3, nullptr);
        e[10] = makeR("Qua4", 10, {at(0, 0, 0), at(1, 0, 0), at(1, 0, 1), at(0, 0, 1)});
        for (long k = 11; k <= 13; k++) { double x = k; std::vector<const CoordR3*> v; for (int q = 0; q < 2; q++) { v.push_back(at(x, 0, q)); v.push_back(at(x + 1, 0, q)); v.push_back(at(x + 1, 1, q)); v.push_back(at(x, 1, q)); } e[k] = makeR("Hex8", k, v, nullptr, k == 13 ? m : nullptr); }
        for (auto& p : e) keep.add(p.second);
    }
};
static Stock& stock() { static Stock* s = new Stock(); return *s; }
template <class T> static std::vector<T*> pick(const J& ids) {
    std::vector<T*> v; for (long k : ids.ints()) { T* t = dynamic_cast<T*>(stock().e.at(k)); if (!t) throw std::logic_error("kind"); v.push_back(t); } return v;
}
template <class T> static Geometry::Element::Group<const T> cg(const J& ids) { std::vector<const T*> v; for (T* t : pick<T>(ids)) v.push_back(t); return Geometry::Element::Group<const T>(v); }
template <class T> static Geometry::Element::Group<T> mg(const J& ids) { return Geometry::Element::Group<T>(pick<T>(ids)); }
static std::vector<double> numbersAfter(const std::string& s, const std::string& label, std::size_t n) {
    std::vector<double> r; std::size_t p = s.find(label); if (p == std::string::npos) return r;
    p += label.size();
    while (r.size() < n && p < s.size()) {
        if (std::isdigit((unsigned char)s[p]) || (s[p] == '-' && p + 1 < s.size() && std::isdigit((unsigned char)s[p + 1]))) { char* e; r.push_back(std::strtod(s.c_str() + p, &e)); p = e - s.c_str(); } else p++;
    }
    return r;
}
template <class T> static std::string printed(const T& x) {
    std::ostringstream o; std::streambuf* b = std::cout.rdbuf(o.rdbuf()); 
    try { x.printInfo(); } catch (...) { std::cout.rdbuf(b); throw; }
    std::cout.rdbuf(b); return o.str();
}
static std::string wordsAfter(const std::string& s, const std::string& label) {
    std::size_t p = s.find(label); return p == std::string::npos ? "?" : s.substr(p + label.size(), s.find('\n', p) - p - label.size());
}
static Math::CVecR3 along(double t, double p, double r) { return Math::CVecR3(r * std::sin(t) * std::cos(p), r * std::sin(t) * std::sin(p), r * std::cos(t)); }
static Math::CVecR3 v3(const J& a, std::size_t k = 0) { return Math::CVecR3((double)a[k].n(), (double)a[k + 1].n(), (double)a[k + 2].n()); }
static const double Q = std::acos(-1.0) / 2;
static OR::Domain mkDom(const J& d) {
    return OR::Domain(d[0].b(), d[1].n(), d[2].n(), d[3].n(), d[4].b(), d[5].n(), d[6].n(), d[7].n(), d[8].b(), d[9].b(), d[10].str());
}
static J domJ(const OR::Domain& d) {
    J r; r.add(d.isTimeDomain()).add(scaled(d.getInitialTime(), 1)).add(scaled(d.getFinalTime(), 1)).add(scaled(d.getSamplingPeriod(), 1));
    r.add(d.isFrequencyDomain()).add(scaled(d.getInitialFrequency(), 1)).add(scaled(d.getFinalFrequency(), 1)).add(scaled(d.getFrequencyStep(), 1));
    r.add(d.isLogFrequencySweep()).add(d.isUsingTransferFunction()).add(d.getTransferFunctionFile()); return r;
}
static std::string domTy(const OR::Domain& d) {
    switch (d.getDomainType()) { case OR::Domain::NONE: return "NONE"; case OR::Domain::TIME: return "TIME"; case OR::Domain::FREQ: return "FREQ"; case OR::Domain::TRAN: return "TRAN";
    case OR::Domain::TIFR: return "TIFR"; case OR::Domain::TITR: return "TITR"; case OR::Domain::FRTR: return "FRTR"; case OR::Domain::ALL: return "ALL"; }
    return "?";
}
static J ids(const Geometry::Element::Group<const Elem>& g) { J r; for (std::size_t k = 0; k < g.size(); k++) { long id = (long)g(k)->getId().toInt(); if ((const Elem*)stock().e.at(id) != (const Elem*)g(k)) r.add("another element"); else r.add(id); } return r; }
static long num(double x) { return (long)std::floor(x + .5); }
struct World {
    struct Slot { std::unique_ptr<OR::Base> o; std::unique_ptr<SO::Base> s; std::string c; std::vector<double> times; double ratio = 1; void clear() { o.reset(); s.reset(); c = ""; times.clear(); } } d[3];
    J obsOf(const Slot& x) {
        J r;
        if (x.o) {
            const OR::Base* o = x.o.get(); J par;
            std::string c = dynamic_cast<const OR::BulkCurrent*>(o) ? "bulk" : dynamic_cast<const OR::FarField*>(o) ? "far" : dynamic_cast<const OR::OutputRequest<Elem>*>(o) ? "elem" : dynamic_cast<const OR::OutputRequest<Nod>*>(o) ? "nod"
                : dynamic_cast<const OR::OutputRequest<Lin>*>(o) ? "lin" : dynamic_cast<const OR::OutputRequest<Surf>*>(o) ? "surf" : dynamic_cast<const OR::OutputRequest<Vol>*>(o) ? "vol" : "?";
            if (c == "bulk") { auto b = dynamic_cast<const OR::BulkCurrent*>(o); par.add((long)b->getDir()).add((long)b->getSkip()); }
            if (c == "far") { auto f = dynamic_cast<const OR::FarField*>(o); for (double v : {f->getInitialTheta(), f->getFinalTheta(), f->getStepTheta(), f->getInitialPhi(), f->getFinalPhi(), f->getStepPhi()}) par.add(scaled(v, 1)); }
            return r.add(c).add(o->getName()).add((long)o->getType()).add(domJ(o->domain())).add(domTy(o->domain())).add(ids(o->elems())).add(par);
        }
        if (x.s) {
            const SO::Base* s = x.s.get(); J inf, mag; std::string c = "?";
            if (auto g = dynamic_cast<const SO::Generator*>(s)) { c = "gen"; inf.add((long)g->getType()).add(wordsAfter(printed(*g), "Type: ")); }
            else if (auto l = dynamic_cast<const SO::OnLine*>(s)) { c = "line"; inf.add((long)l->getType()).add((long)l->getHardness()); std::string t = printed(*l); inf.add(wordsAfter(t, "Type: ")).add(wordsAfter(t, "Hardness: ")); }
            else if (auto p = dynamic_cast<const SO::PlaneWave*>(s)) { c = "pw"; inf.add(vec(p->getDirection(), 1)).add(vec(p->getPolarization(), 1)).add(p->isRandomic()).add((long)p->getNumberOfRandomPlanewaves()).add(scaled(p->getRelativeVariationOfRandomDelay(), 1)).add(vec(along(p->getTheta(), p->getPhi(), p->getDirection().norm()), 1)).add(vec(along(p->getAlpha(), p->getBeta(), p->getPolarization().norm()), 1)); }
            else if (auto q = dynamic_cast<const SO::Dipole*>(s)) {
                c = "dip"; std::string t = printed(*q);
                auto len = numbersAfter(t, "Length:", 1), ori = numbersAfter(t, "Orientation vector:", 3), pos = numbersAfter(t, "Position vector:", 3);
                inf.add(len.size() ? J(num(len[0])) : J("?")); J a, b; for (double v : ori) a.add(num(v)); for (double v : pos) b.add(num(v)); inf.add(a).add(b);
            } else if (auto w = dynamic_cast<const SO::Port::WaveguideRectangular*>(s)) {
                c = "wg"; inf.add(w->getExcitationMode() == SO::Port::Waveguide::TE ? "TE" : "TM").add((long)w->getMode().first).add((long)w->getMode().second).add(vec(w->getOrigin(), 1)).add(scaled(w->getWidth(), 1)).add(scaled(w->getHeight(), 1));
            } else if (auto t = dynamic_cast<const SO::Port::TEMCoaxial*>(s)) {
                c = "tem"; auto r2 = numbersAfter(printed(*t), "radii:", 2);
                inf.add(SO::Port::TEM::toStr(t->getExcitationMode())).add(vec(t->getOrigin(), 2)).add(r2.size() == 2 ? J(num(840 * r2[1] / r2[0])) : J("?"));
            }
            if (s->getMagnitude()) for (double v : x.times) mag.add(J().add(num(v)).add(scaled(s->getMagnitude()->evaluate(v), 1)));
            return r.add(c).add(s->getName()).add(ids(s->elems())).add(mag).add(inf);
        }
        return r;
    }
    J exec(const J& op, J& obs) {
        J res = run(op);
        J l; for (auto& x : d) l.add(obsOf(x));
        bool apart = true;
        for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) if (d[i].s && d[j].s && d[i].s->getMagnitude() && d[i].s->getMagnitude() == d[j].s->getMagnitude()) apart = false;
        obs = J(); obs.add(l).add(apart ? "apart" : "shared magnitude");
        return res;
    }
    static SO::Magnitude::Magnitude* mkMag(const J& m) {
        if (!m.size()) return nullptr;
        std::vector<std::pair<double, double> > v; for (std::size_t k = 0; k < m.size(); k++) v.push_back(std::make_pair((double)m[k][0].n(), (double)m[k][1].n()));
        return new SO::Magnitude::Magnitude(new LinF(v));
    }
    static OR::Base* mkOut(const J& op) {
        const std::string& c = op[2].str(); const std::string& n = op[3].str(); OR::Base::Type ty = (OR::Base::Type)op[4].n(); OR::Domain dm = mkDom(op[5]); const J& e = op[6]; const J& p = op[7];
        if (c == "elem") return new OR::OutputRequest<Elem>(dm, ty, n, mg<Elem>(e));
        if (c == "nod") return new OR::OutputRequest<Nod>(dm, ty, n, mg<Nod>(e));
        if (c == "lin") return new OR::OutputRequest<Lin>(dm, ty, n, mg<Lin>(e));
        if (c == "surf") return new OR::OutputRequest<Surf>(dm, ty, n, mg<Surf>(e));
        if (c == "vol") return new OR::OutputRequest<Vol>(dm, ty, n, mg<Vol>(e));
        if (c == "bulk") return new OR::BulkCurrent(dm, n, cg<Elem>(e), (Math::Constants::CartesianAxis)p[0].n(), (Math::UInt)p[1].n());
        return new OR::FarField(dm, n, mg<Vol>(e), p[0].n(), p[1].n(), p[2].n(), p[3].n(), p[4].n(), p[5].n());
    }
    static SO::Base* mkSrc(const J& op) {
        const std::string& c = op[2].str(); SO::Magnitude::Magnitude* m = mkMag(op[3]); const J& e = op[4]; const J& p = op[5];
        if (c == "gen") return new SO::Generator(m, cg<Nod>(e), (SO::Generator::Type)p[0].n(), (SO::Generator::Hardness)p[1].n());
        if (c == "line") return new SO::OnLine(m, cg<Lin>(e), (SO::OnLine::Type)p[0].n(), (SO::OnLine::Hardness)p[1].n());
        if (c == "pw") {
            const std::string& k = p[0].str();
            if (k == "v") return new SO::PlaneWave(m, mg<Vol>(e), v3(p, 1), v3(p, 4));
            if (k == "a") return new SO::PlaneWave(m, mg<Vol>(e), std::make_pair(Q * p[1].n(), Q * p[2].n()), std::make_pair(Q * p[3].n(), Q * p[4].n()));
            return new SO::PlaneWave(m, mg<Vol>(e), (Math::Int)p[1].n(), (Math::Real)p[2].n());
        }
        if (c == "dip") return new SO::Dipole(m, mg<Vol>(e), (double)p[0].n(), v3(p[1]), v3(p[2]));
        if (c == "wg") return new SO::Port::WaveguideRectangular(m, cg<Surf>(e), p[0].str() == "TE" ? SO::Port::Waveguide::TE : SO::Port::Waveguide::TM, std::make_pair((std::size_t)p[1].n(), (std::size_t)p[2].n()));
        return new SO::Port::TEMCoaxial(m, cg<Surf>(e), p[0].str() == "voltage" ? SO::Port::TEM::voltage : SO::Port::TEM::current, v3(p[1]) / 2.0, p[2].n(), p[3].n());
    }
    J run(const J& op) {
        const std::string& n = op[0].str(); Slot& t = d[op[1].n()];
        if (n == "out") {
            OR::Base* o;
            try { o = mkOut(op); } catch (const OR::Error::Material&) { return "refused"; }
            t.clear(); t.o.reset(o); t.c = op[2].str(); return "ok";
        }
        if (n == "src") {
            SO::Base* s; const std::string& c = op[2].str();
            try { s = mkSrc(op); }
            catch (const SO::Error::PlaneWave::Error&) { return c == "pw" ? "refused" : "unexpected"; }
            catch (const std::logic_error& e) { if (c != "wg") throw; return "refused"; }
            t.clear(); t.s.reset(s); t.c = c; for (std::size_t k = 0; k < op[3].size(); k++) t.times.push_back(op[3][k][0].n());
            if (c == "tem") t.ratio = (double)op[5][3].n() / op[5][2].n();
            return "ok";
        }
        if (n == "drop") { t.clear(); return "ok"; }
        if (n == "clone" || n == "copy" || n == "base") {
            Slot& f = d[op[2].n()]; std::unique_ptr<OR::Base> o; std::unique_ptr<SO::Base> s;
            if (n == "base") o.reset(new OR::OutputRequest<Elem>(static_cast<const OR::Base&>(*f.o)));
            else if (n == "clone") { if (f.o) o.reset(f.o->cloneTo<OR::Base>()); if (f.s) s.reset(f.s->cloneTo<SO::Base>()); }
            else if (f.o) {
                const OR::Base* b = f.o.get();
                if (f.c == "elem") o.reset(new OR::OutputRequest<Elem>(dynamic_cast<const OR::OutputRequest<Elem>&>(*b)));
                else if (f.c == "nod") o.reset(new OR::OutputRequest<Nod>(dynamic_cast<const OR::OutputRequest<Nod>&>(*b)));
                else if (f.c == "lin") o.reset(new OR::OutputRequest<Lin>(dynamic_cast<const OR::OutputRequest<Lin>&>(*b)));
                else if (f.c == "surf") o.reset(new OR::OutputRequest<Surf>(dynamic_cast<const OR::OutputRequest<Surf>&>(*b)));
                else if (f.c == "vol") o.reset(new OR::OutputRequest<Vol>(dynamic_cast<const OR::OutputRequest<Vol>&>(*b)));
                else if (f.c == "bulk") o.reset(new OR::BulkCurrent(dynamic_cast<const OR::BulkCurrent&>(*b)));
                else o.reset(new OR::FarField(dynamic_cast<const OR::FarField&>(*b)));
            } else {
                const SO::Base* b = f.s.get();
                if (f.c == "gen") s.reset(new SO::Generator(dynamic_cast<const SO::Generator&>(*b)));
                else if (f.c == "line") s.reset(new SO::OnLine(dynamic_cast<const SO::OnLine&>(*b)));
                else if (f.c == "pw") s.reset(new SO::PlaneWave(dynamic_cast<const SO::PlaneWave&>(*b)));
                else if (f.c == "dip") s.reset(new SO::Dipole(dynamic_cast<const SO::Dipole&>(*b)));
                else if (f.c == "wg") s.reset(new SO::Port::WaveguideRectangular(dynamic_cast<const SO::Port::WaveguideRectangular&>(*b)));
                else s.reset(new SO::Port::TEMCoaxial(dynamic_cast<const SO::Port::TEMCoaxial&>(*b)));
            }
            std::string c = n == "base" ? "elem" : f.c; std::vector<double> ts = f.times; double ra = f.ratio;
            t.o = std::move(o); t.s = std::move(s); t.c = c; t.times = ts; t.ratio = ra;
            return "ok";
        }
        if (n == "set" || n == "add") {
            auto g = cg<Elem>(op[2]);
            if (t.o) { if (n == "set") t.o->set(g); else t.o->add(g); return "ok"; }
            try { if (n == "set") t.s->set(g); else t.s->add(g); } catch (const std::logic_error&) { if (t.c != "tem") throw; return "refused"; }
            return "ok";
        }
        if (n == "name") { t.o->setName(op[2].str()); return "ok"; }
        if (n == "final") { t.o->domain().setFinalTime(op[2].n()); return "ok"; }
        if (n == "sampling") { t.o->domain().setSamplingPeriod(op[2].n()); return "ok"; }
        if (n == "domain") { t.o->domain() = mkDom(op[2]); return "ok"; }
        if (n == "eqdom") return t.o->domain() == d[op[2].n()].o->domain();
        if (n == "eqmag") return *t.s->getMagnitude() == *d[op[2].n()].s->getMagnitude();
        if (n == "weight") {
            Math::CVecR3 p = v3(op[2]);
            const SO::Port::Port* q = dynamic_cast<const SO::Port::Port*>(t.s.get());
            Math::CVecR3 w = q->getWeight(p);
            if (auto c = dynamic_cast<const SO::Port::TEMCoaxial*>(q)) { double rho = (p - c->getOrigin()).norm(); w = w * (c->getExcitationMode() == SO::Port::TEM::voltage ? rho * std::log(t.ratio) : 4 * Q * rho); }
            return vec(w, 27720);
        }
        if (n == "field") {
            auto p = dynamic_cast<const SO::PlaneWave*>(t.s.get()); auto f = p->getElectromagneticField(op[2].n());
            if ((f.first - p->getElectricField(op[2].n())).norm() > 1e-12) return "two electric fields";
            return J().add(vec(f.first, 1)).add(vec(f.second / Math::Constants::VACUUM_ADMITANCE, 1));
        }
        throw std::logic_error("op " + n);
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
