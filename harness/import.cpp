// Conformance driver for the import of JSON projects (spec: Import.tla).  The
// document is written here, as text, from its abstract description.
#include "modelview.h"
#include "elems.h"
#include <algorithm>
#include <set>
#include "parser/json/Parser.h"
#include "math/function/BandLimited.h"
#include "math/function/Gaussian.h"
#include "outputRequest/BulkCurrent.h"
#include "outputRequest/FarField.h"
#include "source/Generator.h"
#include "source/OnLine.h"
#include "source/PlaneWave.h"
#include "source/magnitude/Numerical.h"
#include "source/port/TEMCoaxial.h"
#include "source/port/WaveguideRectangular.h"
namespace OR = SEMBA::OutputRequest;
namespace SO = SEMBA::Source;
using vj::Elem; using vj::ElemR; using vj::Nod; using vj::Lin; using vj::Surf; using vj::Vol; using vj::vec;
typedef std::vector<std::pair<std::string, std::string> > Dmg;  // key, how
static long style = 0;
static std::string fmt(double v, bool json) {
    char b[64]; std::snprintf(b, 64, style % 3 == 1 ? "%.17e" : "%.17g", v);
    return !json && style % 3 == 2 && v >= 0 ? std::string("+") + b : b;
}
static std::string quote(const std::string& s) { std::string r; J::esc(r, s); return r; }
static std::string gap() { return style % 4 == 3 ? "  " : " "; }
static std::string nl() { return style % 2 ? "\n  " : ""; }
static std::string list(const std::vector<double>& v) { std::string r; for (std::size_t k = 0; k < v.size(); k++) r += (k ? gap() : "") + fmt(v[k], false); return r; }
static std::vector<double> halves(const J& a, std::size_t f, std::size_t n) { std::vector<double> r; for (std::size_t k = f; k < f + n; k++) r.push_back(a[k].n() / 2.0); return r; }
static std::string vec3(const std::vector<double>& v) { return "{" + (style % 4 == 3 ? " " + list(v) + " " : list(v)) + "}"; }
static std::string h3(const J& a, std::size_t f = 0) { return vec3(halves(a, f, 3)); }
static std::string i3(const J& a, std::size_t f = 0) { return "{" + std::to_string(a[f].n()) + gap() + std::to_string(a[f + 1].n()) + gap() + std::to_string(a[f + 2].n()) + "}"; }
static std::string box(const J& b) { std::vector<double> v = halves(b, 3, 3), w = halves(b, 0, 3); v.insert(v.end(), w.begin(), w.end()); return vec3(v); }  // the file lists the maximum first
struct Rec {
    struct F { std::string k, v; std::vector<Rec> sub; };
    std::vector<F> f;
    Rec& raw(const std::string& k, const std::string& v) { f.push_back(F{k, v, {}}); return *this; }
    Rec& s(const std::string& k, const std::string& v) { return raw(k, quote(v)); }
    Rec& n(const std::string& k, double v) { return raw(k, fmt(v, true)); }
    Rec& i(const std::string& k, long v) { return raw(k, std::to_string(v)); }
    Rec& b(const std::string& k, bool v) { return raw(k, v ? "true" : "false"); }
    Rec& o(const std::string& k, const Rec& r) { f.push_back(F{k, "", {r}}); return *this; }
    std::string text(const Dmg& d = Dmg()) const {
        std::vector<std::string> out;
        for (auto& x : f) {
            bool lost = false; std::string v = x.v; Dmg in;
            for (auto& e : d) {
                if (e.first == x.k) { if (e.second == "lose") lost = true; else v = quote(e.second); }
                if (e.first.compare(0, x.k.size() + 1, x.k + ".") == 0) in.push_back(std::make_pair(e.first.substr(x.k.size() + 1), e.second));
            }
            if (x.sub.size()) v = x.sub[0].text(in);
            if (!lost) out.push_back(quote(x.k) + (style % 2 ? " : " : ":") + v);
        }
        if (style % 5 == 2) std::reverse(out.begin(), out.end());
        if (style % 5 == 3 && out.size()) std::rotate(out.begin(), out.begin() + 1, out.end());
        std::string r = "{"; for (std::size_t k = 0; k < out.size(); k++) r += (k ? "," : "") + nl() + out[k];
        return r + nl() + "}";
    }
};
static std::string arr(const std::vector<std::string>& v) { std::string r = "["; for (std::size_t k = 0; k < v.size(); k++) r += (k ? "," : "") + nl() + v[k]; return r + "]"; }
static std::string ids(const J& a) { std::vector<std::string> v; for (long k : a.ints()) v.push_back(std::to_string(k)); return arr(v); }
static std::string nums(const J& a) { std::vector<std::string> v; for (long k : a.ints()) v.push_back(fmt(k / 2.0, true)); return arr(v); }
static std::string axesT(const J& a) { std::vector<double> e; for (int k = 0; k < 3; k++) e.push_back(Q * a[k].n()); std::vector<double> o; for (int k = 3; k < 6; k++) o.push_back(a[k].n()); return vec3(e) + gap() + vec3(o); }
static Rec material(const std::string& k, const std::string& name, const J& a, long id) {
    Rec r; if (id >= 0) r.i("materialId", id); r.s("name", name);
    auto mt = [&](const char* t) { r.s("materialType", t); };
    if (k == "PEC" || k == "PMC" || k == "SMA") mt(k.c_str());
    else if (k == "PML") { mt("PML"); r.s("localAxes", axesT(a)); }
    else if (k == "Classic") { mt("Classic"); r.n("permittivity", h(a[0])).n("permeability", h(a[1])).n("electricConductivity", h(a[2])).n("magneticConductivity", h(a[3])); }
    else if (k == "DispFile") { mt("Dispersive"); r.s("filename", dir.d + "/" + a[0].str()); }
    else if (k == "WireFile") { mt("Wire"); r.s("wireType", "Dispersive").n("radius", h(a[0])).s("filename", a[1].str()); }
    else if (k == "WireRL") { mt("Wire"); r.s("wireType", "Standard").n("radius", h(a[0])).n("resistance", h(a[1])).n("inductance", h(a[2])); }
    else if (k == "WireRLC") { mt("Wire"); r.s("wireType", "SeriesParallel").n("radius", h(a[0])).n("resistance", h(a[1])).n("inductance", h(a[2])).n("capacitance", h(a[3])).n("parallelResistance", h(a[4])).n("parallelInductance", h(a[5])).n("parallelCapacitance", h(a[6])); }
    else if (k == "Crystal") { mt("Anisotropic"); r.s("anisotropicModel", "Crystal").s("localAxes", axesT(a)).s("relativePermittiviy", h3(a, 6)).n("crystalRelativePermeability", h(a[9])); }
    else if (k == "Ferrite") { mt("Anisotropic"); r.s("anisotropicModel", "Ferrite").s("localAxes", axesT(a)).n("kappa", h(a[6])).n("ferriteRelativePermeability", h(a[7])).n("ferriteRelativePermittivity", h(a[8])); }
    else if (k == "SIBCFile") { mt("SIBC"); r.s("surfaceType", "File").s("filename", a[0].str()); }
    else if (k == "Multilayer") {
        mt("SIBC"); r.s("surfaceType", "Layers"); std::vector<std::string> v;
        for (auto& l : a[0].a) v.push_back(Rec().n("thickness", h(l[0])).n("permittivity", h(l[1])).n("permeability", h(l[2])).n("elecCond", h(l[3])).text());
        r.raw("layers", arr(v)).b("useSembaVectorFitting", a[1].size() > 0);
        if (a[1].size()) r.n("freqMin", h(a[1][0][0])).n("freqMax", h(a[1][0][1])).i("numberOfPoles", a[1][0][2].n());
    } else if (k == "MPre") { mt("Connector"); r.s("connectorType", a[0].n() == 1 ? "Conn_short" : a[0].n() == 2 ? "Conn_open" : "Conn_matched"); }
    else if (k == "MRLC") { mt("Connector"); long t = a[0].n(); r.s("connectorType", t == 11 ? "Conn_sRLC" : t == 18 ? "Conn_pRLC" : "Conn_sLpRC").n("resistance", h(a[1])).n("inductance", h(a[2])).n("capacitance", h(a[3])); }
    else if (k == "MDisp") { mt("Connector"); r.s("connectorType", "Conn_dispersive").s("filename", a[0].str()); }
    else if (k == "Gap") { mt("Thin_gap"); r.n("width", h(a[0])); }
    else throw std::logic_error("kind " + k);
    return r;
}
static Rec magnitude(const J& m) {
    const std::string& k = m[0].str(); Rec r;
    if (k == "G") return r.s("type", "Gaussian").n("frequencyMaximum", m[1].n());
    if (k == "B") return r.s("type", "Band_limited").n("frequencyMinimum", m[1].n()).n("frequencyMaximum", m[2].n());
    return r.s("type", "File").s("filename", dir.d + "/" + m[1].str());
}
static Rec sourceRec(const J& x) {
    const std::string& k = x[0].str(); const J& t = x[2]; const J& p = x[3]; Rec r;
    Rec mag = magnitude(x[1]);
    if (k == "pw") {
        r.s("sourceType", "planewave").o("magnitude", mag).s("layerBox", box(t)); const std::string& m = p[0].str();
        if (m == "v") { std::vector<double> d, e; for (int q = 1; q <= 3; q++) { d.push_back(p[q].n()); e.push_back(p[q + 3].n()); } return r.s("definitionMode", "by_vectors").s("directionVector", vec3(d)).s("polarizationVector", vec3(e)); }
        if (m == "a") return r.s("definitionMode", "by_angles").n("directionTheta", 90 * p[1].n()).n("directionPhi", 90 * p[2].n()).n("polarizationAlpha", 90 * p[3].n()).n("polarizationBeta", 90 * p[4].n());
        return r.s("definitionMode", "randomized_multisource").i("numberOfRandomPlanewaves", p[1].n()).n("relativeVariationOfRandomDelay", p[2].n());
    }
    if (k == "gen") return r.s("sourceType", "generator").o("magnitude", mag).s("type", p[0].str()).s("hardness", "soft").raw("coordIds", ids(t));
    if (k == "line") return r.s("sourceType", "sourceOnLine").o("magnitude", mag).s("type", p[0].str()).s("hardness", p[1].str()).raw("elemIds", ids(t));
    if (k == "wg") return r.s("sourceType", "waveguidePort").s("shape", "Rectangular").o("magnitude", mag).s("excitationMode", p[0].str()).i("firstMode", p[1].n()).i("secondMode", p[2].n()).raw("elemIds", ids(t));
    return r.s("sourceType", "temPort").o("magnitude", mag).s("excitationMode", p[0].str()).s("origin", h3(p[1])).n("innerRadius", p[2].n()).n("outerRadius", p[3].n()).raw("elemIds", ids(t));
}
static Rec domainRec(const J& d) {
    Rec r;
    if (d[0].b()) r.n("initialTime", d[1].n()).n("finalTime", d[2].n()).n("samplingPeriod", d[3].n());
    if (d[4].b()) { r.n("initialFrequency", d[5].n()).n("finalFrequency", d[6].n()).n("frequencyStep", d[7].n()).b("logFrequencySweep", d[8].b()); if (d[9].b()) r.s("transferFunctionFile", d[10].str()); }
    return r;
}
static Rec outRec(const J& x) {
    const std::string& g = x[0].str(); const std::string& ty = x[2].str(); const J& p = x[5]; Rec r;
    r.s("name", x[1].str()).s("type", ty).s("gidOutputType", g == "far" ? "Far_field" : "OutRq_on_" + g).o("domain", domainRec(x[3]));
    if (g == "layer" || g == "far") r.s("box", box(x[4])); else r.raw("elemIds", ids(x[4]));
    if (ty == "bulkCurrentElectric" || ty == "bulkCurrentMagnetic") r.s("direction", p[0].str()).i("skip", p[1].n());
    if (g == "far") { const char* k[] = {"initialTheta", "finalTheta", "stepTheta", "initialPhi", "finalPhi", "stepPhi"}; for (int q = 0; q < 6; q++) r.n(k[q], p[q].n()); }
    return r;
}
static Rec gridRec(const J& g) {
    const std::string& k = g[0].str(); Rec r;
    if (k == "cells" || k == "steps") {
        r.s("gridType", "gridCondition").s("type", k == "cells" ? "Number_of_cells" : "by_cell_size").s("layerBox", box(g[1]));
        if (k == "cells") r.s("numberOfCells", i3(g[2])); else r.s("stepSize", h3(g[2])).b("fitSizeToBox", g[3].n() != 0);
        const J& p = g[k == "cells" ? 3 : 4];
        if (p.size()) r.s("lowerPaddingMeshSize", h3(p[0])).s("upperPaddingMeshSize", h3(p[1])).s("lowerPadding", h3(p[2])).s("upperPadding", h3(p[3])).s("boundaryPaddingType", p[4].n() ? "by_number_of_cells" : "by_length");
    } else if (k == "native" || k == "lines") {
        bool n = k == "native";
        r.s("gridType", "nativeGiD").s("corner", n ? h3(g[1]) : "{0 0 0}").s("boxSize", n ? h3(g[2]) : "{1 1 1}").s("nGridPoints", n ? i3(g[3]) : "{1 1 1}");
        const char* c[] = {"xCoordinates", "yCoordinates", "zCoordinates"}; for (int q = 0; q < 3; q++) r.raw(c[q], n ? "[]" : nums(g[q + 1]));
    } else if (k == "file") {
        std::string f = dir.d + "/grid.json"; Rec x; x.raw("xs", nums(g[1])).raw("ys", nums(g[2])).raw("zs", nums(g[3])); std::string t = x.text();
        std::ofstream(f.c_str()) << t.substr(1, t.size() - 2); r.s("gridType", "positionsFromFile").s("filename", f);
    } else if (k == "part") {
        std::string f = dir.d + "/grid.json"; std::ofstream(f.c_str()) << g[1].str(); r.s("gridType", "positionsFromFile").s("filename", f);
    } else r.s("gridType", "positionsFromFile").s("filename", dir.d + "/" + g[1].str());
    return r;
}
static Rec settings(const J& o) {
    Rec r;
    for (auto& x : o.a) { const std::string& k = x[1].str(); if (k == "o") r.o(x[0].str(), settings(x[2])); else if (k == "s") r.s(x[0].str(), x[2].str()); else if (k == "b") r.b(x[0].str(), x[2].str() == "1"); else r.raw(x[0].str(), x[2].str()); }
    return r;
}
static J settingsJ(const SEMBA::Solver::Settings& s, const J& o) {
    J r;
    for (auto& x : o.a) {
        const std::string& k = x[0].str(); if (!s.existsName(k)) { r.add("missing"); continue; }
        if (x[1].str() == "o") r.add(J().add(k).add(J().add(settingsJ(s(k), x[2])).add((long)s(k).size())));
        else r.add(J().add(k).add(s(k).getString()));
    }
    return r;
}
static const std::string labels[] = {"hexahedra", "tetrahedra", "quadrilateral", "triangle", "line"}, types[] = {"Hex8", "Tet4", "Qua4", "Tri3", "Line"};
static std::string document(const J& d) {
    std::set<std::string> omit; for (auto& x : d.at("omit").a) omit.insert(x.str());
    auto dm = [&](const std::string& sec, std::size_t k) { Dmg r; for (auto& x : d.at("bad").a) if (x[0].str() == sec && x[1].n() == (long)k + 1) r.push_back(std::make_pair(x[2].str(), x[3].str())); return r; };
    auto many = [&](const std::string& sec, std::function<Rec(const J&)> f) { std::vector<std::string> v; const J& l = d.at(sec); for (std::size_t k = 0; k < l.size(); k++) v.push_back(f(l[k]).text(dm(sec, k))); return arr(v); };
    Rec r; auto put = [&](const std::string& k, const std::string& t) { if (!omit.count(k)) r.raw(k, t); };
    put("_version", quote(d.at("ver").str()));
    if (d.at("solver").size()) {
        const J& s = d.at("solver"); Rec x = settings(s[2]); x.s("solver", s[0].str());
        if (s[1].n()) { if (style % 2) x.n("geometryScalingFactor", s[1].n() / 2.0); else x.s("geometryScalingFactor", fmt(s[1].n() / 2.0, false)); }
        put("solverOptions", x.text(dm("solver", 0)));
    }
    put("materials", many("mats", [](const J& m) { return material(m[2].str(), m[1].str(), m[3], m[0].n()); }));
    put("grids", d.at("grid").size() ? arr({gridRec(d.at("grid")).text(dm("grid", 0))}) : "[]");
    put("layers", many("layers", [](const J& l) { return Rec().i("id", l[0].n()).s("name", l[1].str()); }));
    std::vector<std::string> v; for (auto& c : d.at("coords").a) v.push_back(quote(std::to_string(c[0].n()) + gap() + list(halves(c, 1, 3)))); put("coordinates", arr(v));
    Rec e;
    for (int q = 0; q < 5; q++) {
        v.clear();
        for (auto& x : d.at("elems").a) if (x[0].str() == types[q]) { std::string t = std::to_string(x[1].n()) + gap() + std::to_string(x[2].n()) + gap() + std::to_string(x[3].n()); for (long i : x[4].ints()) t += gap() + std::to_string(i); v.push_back(quote(t)); }
        if (!omit.count(labels[q])) e.raw(labels[q], arr(v));
    }
    put("elements", e.text());
    put("connectorOnPoint", many("conns", [](const J& c) { return material(c[2].str(), c[1].str(), c[3], -1).i("coordIds", c[0].n()); }));
    put("sources", many("srcs", sourceRec));
    put("outputRequests", many("outs", outRec));
    return r.text();
}
struct Viewer {
    const J& d; long factor = 2; std::set<long> fe, fc;
    Viewer(const J& doc) : d(doc) { bool omits = false; for (auto& x : d.at("omit").a) omits = omits || x.str() == "solverOptions"; if (d.at("solver").size() && !omits) factor = d.at("solver")[1].n(); for (auto& x : d.at("elems").a) fe.insert(x[1].n()); for (auto& x : d.at("coords").a) fc.insert(x[0].n()); }
    static J sortedPos(const ElemR* e) {
        std::vector<std::vector<long> > v;
        for (std::size_t k = 0; k < e->numberOfCoordinates(); k++) { std::vector<long> p; for (int q = 0; q < 3; q++) { J s = scaled(e->getV(k)->pos()(q), 4); p.push_back(s.t == J::INT ? s.n() : 999999); } v.push_back(p); }
        std::sort(v.begin(), v.end()); J r; for (auto& p : v) r.add(J().add(p[0]).add(p[1]).add(p[2])); return r;
    }
    static J fresh(const ElemR* e) { return J().add(vj::tyOf(e)).add((long)e->getLayerId().toInt()).add((long)e->getMatId().toInt()).add(sortedPos(e)); }
    J elem(const Elem* e) { const ElemR* r = dynamic_cast<const ElemR*>(e); if (!r) return "?"; long id = (long)r->getId().toInt(); if (fe.count(id)) return J().add(id); return fresh(r); }
    J elems(const vj::Element::Group<const Elem>& g) { J r; for (std::size_t k = 0; k < g.size(); k++) r.add(elem(g(k))); return r; }
    J mag(const SO::Magnitude::Magnitude* m) {
        if (!m) return "none";
        if (auto n = dynamic_cast<const SO::Magnitude::Numerical*>(m)) { std::string f = *n; bool mine = f.compare(0, dir.d.size() + 1, dir.d + "/") == 0; return J().add("F").add(mine ? f.substr(dir.d.size() + 1) : f); }
        for (long f = 1; f <= 9; f++) { SO::Magnitude::Magnitude c(new Math::Function::Gaussian(Math::Function::Gaussian::buildFromMaximumFrequency(f))); if (c == *m) return J().add("G").add(f); }
        for (long f = 1; f <= 9; f++) for (long g = f + 1; g <= 9; g++) { Math::Function::BandLimited c(f, g); bool eq = true; for (int k = 0; k < 7 && eq; k++) { double t = .11 + .23 * k; double x = c(t), y; try { y = m->evaluate(t); } catch (...) { return "?"; } eq = std::fabs(x - y) < 1e-9 * (1 + std::fabs(x)); } if (eq) return J().add("B").add(f).add(g); }
        return "another magnitude";
    }
    J source(const SO::Base* s) {
        J inf; std::string c = "?";
        if (auto g = dynamic_cast<const SO::Generator*>(s)) { c = "gen"; inf.add((long)g->getType()); }
        else if (auto l = dynamic_cast<const SO::OnLine*>(s)) { c = "line"; inf.add((long)l->getType()).add((long)l->getHardness()); }
        else if (auto p = dynamic_cast<const SO::PlaneWave*>(s)) { c = "pw"; inf.add(vec(p->getDirection(), 1)).add(vec(p->getPolarization(), 1)).add(p->isRandomic()).add((long)p->getNumberOfRandomPlanewaves()).add(scaled(p->getRelativeVariationOfRandomDelay(), 1)); }
        else if (auto w = dynamic_cast<const SO::Port::WaveguideRectangular*>(s)) { c = "wg"; inf.add(w->getExcitationMode() == SO::Port::Waveguide::TE ? "TE" : "TM").add((long)w->getMode().first).add((long)w->getMode().second).add(vec(w->getOrigin(), 4)).add(scaled(w->getWidth(), 4)).add(scaled(w->getHeight(), 4)); }
        else if (auto t = dynamic_cast<const SO::Port::TEMCoaxial*>(s)) {
            // the radii are only visible through the fields, as a ratio
            c = "tem"; std::ostringstream o; std::streambuf* b = std::cout.rdbuf(o.rdbuf()); t->printInfo(); std::cout.rdbuf(b);
            std::string x = o.str(); std::size_t q = x.find("radii:"); std::vector<double> r;
            for (q = q == std::string::npos ? x.size() : q + 6; r.size() < 2 && q < x.size();) if (std::isdigit((unsigned char)x[q])) { char* e; r.push_back(std::strtod(x.c_str() + q, &e)); q = e - x.c_str(); } else q++;
            inf.add(SO::Port::TEM::toStr(t->getExcitationMode())).add(factor == 2 ? vec(t->getOrigin(), 2) : J("any")).add(r.size() == 2 ? (long)std::floor(840 * r[1] / r[0] + .5) : 0L);
        }
        return J().add(c).add(mag(s->getMagnitude())).add(elems(s->elems())).add(inf);
    }
    J domain(const OR::Domain& x) {
        J r; r.add(x.isTimeDomain()).add(scaled(x.getInitialTime(), 1)).add(scaled(x.getFinalTime(), 1)).add(scaled(x.getSamplingPeriod(), 1));
        r.add(x.isFrequencyDomain()).add(scaled(x.getInitialFrequency(), 1)).add(scaled(x.getFinalFrequency(), 1)).add(scaled(x.getFrequencyStep(), 1));
        return r.add(x.isLogFrequencySweep()).add(x.isUsingTransferFunction()).add(x.getTransferFunctionFile());
    }
    J out(const OR::Base* o) {
        J par; std::string c = dynamic_cast<const OR::BulkCurrent*>(o) ? "bulk" : dynamic_cast<const OR::FarField*>(o) ? "far" : dynamic_cast<const OR::OutputRequest<Elem>*>(o) ? "elem" : "?";
        if (c == "bulk") { auto b = dynamic_cast<const OR::BulkCurrent*>(o); par.add((long)b->getDir()).add((long)b->getSkip()); }
        if (c == "far") { auto f = dynamic_cast<const OR::FarField*>(o); for (double v : {f->getInitialTheta(), f->getFinalTheta(), f->getStepTheta(), f->getInitialPhi(), f->getFinalPhi(), f->getStepPhi()}) par.add(scaled(v * 90 / Q, 1)); }
        return J().add(c).add(o->getName()).add((long)o->getType()).add(domain(o->domain())).add(elems(o->elems())).add(par);
    }
    J mesh(const vj::Mesh::Geometric* m) {
        J g, ls, cs, nc, es, ne;
        for (int q = 0; q < 3; q++) { J l; for (double x : m->grid().getPos(q)) l.add((long)std::floor(x * 24000 + .5)); g.add(l); }
        std::vector<std::pair<long, J> > v; auto sorted = [&](J& to) { std::stable_sort(v.begin(), v.end(), [](const std::pair<long, J>& a, const std::pair<long, J>& b) { return a.first < b.first; }); for (auto& x : v) to.add(x.second); v.clear(); };
        for (std::size_t k = 0; k < m->layers().size(); k++) { auto l = m->layers()(k); v.push_back(std::make_pair((long)l->getId().toInt(), J().add((long)l->getId().toInt()).add(l->getName()))); }
        sorted(ls);
        for (std::size_t k = 0; k < m->coords().size(); k++) { auto c = m->coords()(k); long id = (long)c->getId().toInt(); if (fc.count(id)) v.push_back(std::make_pair(id, J().add(id).add(vec(c->pos(), 4)))); else nc.add(vec(c->pos(), 4)); }
        sorted(cs);
        for (std::size_t q = 0; q < m->elems().size(); q++) { auto e = m->elems()(q);
            long id = (long)e->getId().toInt(); bool own = true;
            for (std::size_t k = 0; k < e->numberOfCoordinates(); k++) own = own && m->coords().existId(e->getV(k)->getId()) && m->coords().getId(e->getV(k)->getId()) == e->getV(k);
            if (e->getLayer() && m->layers().getId(e->getLayerId()) != e->getLayer()) own = false;
            J d; if (fe.count(id)) { d.add(id).add(vj::tyOf(e)).add((long)e->getMatId().toInt()).add((long)e->getLayerId().toInt()).add(vj::coordIds(e)); if (!own) d.add("refers to something else"); v.push_back(std::make_pair(id, d)); }
            else { d = fresh(e); if (!own) d.add("refers to something else"); ne.add(d); }
        }
        sorted(es);
        return J().add(g).add(ls).add(cs).add(nc).add(es).add(ne);
    }
};
struct World {
    J doc = J::parse("{\"ver\":\"0.14\",\"solver\":[],\"mats\":[],\"grid\":[],\"layers\":[],\"coords\":[],\"elems\":[],\"conns\":[],\"srcs\":[],\"outs\":[],\"omit\":[],\"bad\":[]}");
    J exec(const J& op, J& obs) {
        const std::string& n = op[0].str();
        if (n == "doc") doc = op[1];
        else if (n == "style") style = op[1].n();
        else if (n == "put" || n == "del" || n == "set") {
            for (auto& f : doc.o) if (f.first == op[1].str()) { if (n == "put") f.second.add(op[2]); else if (n == "set") f.second = op[2]; else f.second.a.erase(f.second.a.begin() + op[2].n() - 1); }
        } else if (n != "raw") throw std::logic_error("op " + n);
        std::istringstream in(n == "raw" ? op[1].str() : document(doc));
        if (getenv("VJ_VERBOSE")) std::cerr << in.str() << "\n";
        obs = view(in);
        return "ok";
    }
    World() { style = 0; }
    J view(std::istream& in) {
        std::unique_ptr<SEMBA::Data> data;
        try { data.reset(new SEMBA::Data(SEMBA::Parser::JSON::Parser().read(in))); }
        catch (const std::exception&) { return "refused"; }
        Viewer v(doc); J so, ma, sr, ou;
        if (data->solver) so.add(data->solver->getName()).add(settingsJ(data->solver->getSettings(), doc.at("solver")[2])).add((long)data->solver->getSettings().size());
        std::vector<std::pair<long, J> > l; if (data->physicalModels) for (std::size_t k = 0; k < data->physicalModels->size(); k++) { auto m = (*data->physicalModels)(k); l.push_back(std::make_pair((long)m->getId().toInt(), shownJ(m))); }
        std::stable_sort(l.begin(), l.end(), [](const std::pair<long, J>& a, const std::pair<long, J>& b) { return a.first < b.first; });
        for (auto& x : l) ma.add(x.second);
        auto m = data->mesh ? dynamic_cast<const vj::Mesh::Geometric*>(data->mesh) : nullptr;
        if (data->sources) for (std::size_t k = 0; k < data->sources->size(); k++) sr.add(v.source((*data->sources)(k)));
        if (data->outputRequests) for (std::size_t k = 0; k < data->outputRequests->size(); k++) ou.add(v.out((*data->outputRequests)(k)));
        return J().add(so).add(ma).add(data->mesh ? m ? v.mesh(m) : J("?") : J("none")).add(sr).add(ou);
    }
};
int main(int c, char** v) {
    std::ofstream((dir.d + "/exc.txt").c_str()) << "0 0\n1 2\n3 -1\n";
    int r = driverMain<World>(c, v);
    unlink((dir.d + "/exc.txt").c_str()); unlink((dir.d + "/grid.json").c_str());
    return r;
}
