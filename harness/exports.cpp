// Conformance driver for exported files (spec: Exports.tla).
#include "dataset.h"
#include <dirent.h>
#include <ftw.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <iterator>
#include <sstream>
#include "exporter/vtk/Exporter.h"
#include "exporter/gid/Exporter.h"
typedef std::map<std::string, std::string> Attrs;
struct Tag { std::string name; Attrs at; std::string text; bool close; };
// The tags of an XML text with their attributes and the text that follows them.
static std::string unescape(const std::string& s) {
    std::string r;
    for (std::size_t i = 0; i < s.size(); i++) {
        if (s[i] == '<' || s[i] == '>') throw std::logic_error("reserved character");
        if (s[i] != '&') { r += s[i]; continue; }
        std::size_t j = s.find(';', i); if (j == std::string::npos) throw std::logic_error("bare ampersand");
        std::string e = s.substr(i + 1, j - i - 1);
        if (e == "amp") r += '&'; else if (e == "lt") r += '<'; else if (e == "gt") r += '>'; else if (e == "quot") r += '"'; else if (e == "apos") r += '\''; else throw std::logic_error("unknown entity");
        i = j;
    }
    return r;
}
static std::vector<Tag> xml(const std::string& s) {
    std::vector<Tag> r; std::vector<std::string> open; std::size_t p = 0;
    while ((p = s.find('<', p)) != std::string::npos) {
        if (s.compare(p, 2, "<?") == 0) { p = s.find("?>", p); if (p == std::string::npos) throw std::logic_error("declaration"); continue; }
        Tag t; p++; t.close = s[p] == '/'; if (t.close) p++;
        while (p < s.size() && !isspace((unsigned char)s[p]) && s[p] != '>' && s[p] != '/') t.name += s[p++];
        bool single = false;
        for (;;) {
            while (p < s.size() && isspace((unsigned char)s[p])) p++;
            if (p >= s.size()) throw std::logic_error("tag not closed");
            if (s[p] == '/') { single = true; p++; continue; }
            if (s[p] == '>') { p++; break; }
            std::string k; while (p < s.size() && s[p] != '=') k += s[p++];
            if (p + 1 >= s.size() || s[p + 1] != '"') throw std::logic_error("attribute");
            std::size_t q = s.find('"', p + 2); if (q == std::string::npos) throw std::logic_error("attribute not closed");
            if (!t.at.insert(std::make_pair(k, unescape(s.substr(p + 2, q - p - 2)))).second) throw std::logic_error("attribute repeated");
            p = q + 1;
            if (p < s.size() && !isspace((unsigned char)s[p]) && s[p] != '/' && s[p] != '>') throw std::logic_error("attributes run together");
        }
        if (t.close) { if (open.empty() || open.back() != t.name) throw std::logic_error("tags do not match"); open.pop_back(); }
        else if (!single) open.push_back(t.name);
        std::size_t q = s.find('<', p); t.text = s.substr(p, q == std::string::npos ? q : q - p);
        r.push_back(t);
    }
    if (!open.empty()) throw std::logic_error("tag left open");
    return r;
}
template <class T> static std::vector<T> numbers(const std::string& s) {
    std::vector<T> v; std::istringstream i(s); T x; std::string w;
    while (i >> w) { std::istringstream j(w); if (!(j >> x) || !j.eof()) throw std::logic_error("number " + w); v.push_back(x); }
    return v;
}
static std::string slurp(const std::string& p) {
    std::ifstream f(p); if (!f) throw std::logic_error("file missing");
    return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
static int drop(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
struct Dir {  // a folder of this driver, removed with all it has
    std::string path;
    Dir() { std::string t = "outXXXXXX"; if (!mkdtemp(&t[0])) throw std::logic_error("mkdtemp"); path = t; }
    ~Dir() { nftw(path.c_str(), drop, 16, FTW_DEPTH | FTW_PHYS); }
    std::set<std::string> list(const std::string& sub) const {
        std::set<std::string> r; if (DIR* d = opendir((path + sub).c_str())) { while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") r.insert(n); } closedir(d); }
        return r;
    }
};
static void need(bool b, const std::string& why) { if (!b) throw std::logic_error(why); }
struct World : DataWorld {
    double f = 1;
    static J posJ(const double* p, double unit = 256) { return vec(Math::CVecR3(p[0], p[1], p[2]), (long)unit); }
    static J vtu(const std::string& s) {
        std::vector<Tag> t = xml(s); std::map<std::string, std::string> arr; std::string where; long np = -1, nc = -1; bool grid = false;
        for (auto& x : t) {
            if (x.close) continue;
            if (x.name == "VTKFile") { need(x.at["type"] == "UnstructuredGrid", "type of file"); grid = true; }
            if (x.name == "UnstructuredGrid" || x.name == "Piece") { if (x.at.count("NumberOfPoints")) np = std::stol(x.at["NumberOfPoints"]); if (x.at.count("NumberOfCells")) nc = std::stol(x.at["NumberOfCells"]); }
            if (x.name == "Points" || x.name == "Cells") where = x.name;
            if (x.name == "DataArray") {
                need(x.at["format"] == "ascii", "format");
                if (where == "Points") need(x.at["NumberOfComponents"] == "3", "components");
                arr[where == "Points" ? "points" : x.at["Name"]] = x.text;
            }
        }
        need(grid, "no grid");
        std::vector<double> p = numbers<double>(arr["points"]); std::vector<long> c = numbers<long>(arr["connectivity"]), o = numbers<long>(arr["offsets"]), y = numbers<long>(arr["types"]);
        need(p.size() == 3 * (std::size_t)np, "number of points"); need(o.size() == (std::size_t)nc && y.size() == o.size(), "number of cells");
        need(o.empty() ? c.empty() : o.back() == (long)c.size(), "offsets and connectivity");
        std::set<long> used; J cells; long at = 0;
        for (std::size_t k = 0; k < o.size(); k++) {
            J q; need(o[k] >= at, "offsets"); 
            for (; at < o[k]; at++) { need(c[at] >= 0 && c[at] < np, "a point that is not there"); used.insert(c[at]); q.add(posJ(&p[3 * c[at]])); }
            cells.add(J().add(y[k]).add(q));
        }
        need((long)used.size() == np, "a point of no cell");
        return J().add(np).add(cells);
    }
    J vtk(const std::string& base) {
        Dir d; mkdir((d.path + "/sub.d").c_str(), 0755);
        std::string fn = d.path + "/" + base, cut = base.substr(base.rfind('/') + 1), sub = "/" + base;
        { SEMBA::Exporter::VTK::Exporter e(this->d[0].get(), fn); }
        J l; long part = 0;
        try {
            std::set<std::string> files = d.list(sub + ".vtk"); bool coll = false;
            for (auto& x : xml(slurp(fn + ".pvd"))) {
                if (x.close) continue;
                if (x.name == "VTKFile") { need(x.at["type"] == "Collection", "type of index"); coll = true; }
                if (x.name != "DataSet") continue;
                std::string g = x.at["group"], f = x.at["file"];
                need(x.at["part"] == std::to_string(part++), "numbering of parts");
                need(f == cut + ".vtk/" + g + ".vtu", "file of a group: " + f);
                need(files.erase(g + ".vtu") == 1, "file not written for a group alone: " + g);
                J v = vtu(slurp(fn.substr(0, fn.size() - cut.size()) + f)); l.add(J().add(g).add(v[0]).add(v[1]));
            }
            need(coll, "no index"); need(files.empty(), "files out of the index");
            need(d.list("").size() == (base.find('/') == std::string::npos ? 3u : 1u), "other files");
        } catch (const std::logic_error& e) { return J().add("unreadable").add(std::string(e.what())); }
        return J().add("files").add(l);
    }
    J gid(const std::string& base) {
        Dir d; mkdir((d.path + "/sub.d").c_str(), 0755);
        std::string fn = d.path + "/" + base;
        { SEMBA::Exporter::GiD::Exporter e(this->d[0].get(), fn); }
        J l;
        try {
            std::istringstream in(slurp(fn + ".post.msh")); std::string line; std::set<long> allC, allE;
            while (std::getline(in, line)) {
                if (line.empty() || line[0] == '#') continue;
                need(line.compare(0, 6, "MESH \"") == 0, "mesh expected: " + line);
                std::size_t q = line.find('"', 6); std::string name = line.substr(6, q - 6), w, ty; long n = 0, dim = 0;
                std::istringstream h(line.substr(q + 1));
                while (h >> w) if (w == "dimension") h >> dim; else if (w == "ElemType") h >> ty; else if (w == "Nnode") h >> n;
                need(dim == 3 && n > 0, "head of a mesh");
                std::map<long, J> co; std::set<long> used; J cells;
                while (std::getline(in, line) && (line.empty() || line[0] == '#')) {}
                need(line == "Coordinates", "coordinates expected");
                while (std::getline(in, line) && line.compare(0, 3, "end") && line.compare(0, 3, "End")) {
                    std::vector<double> v = numbers<double>(line); need(v.size() == 4, "coordinate"); long id = (long)v[0];
                    need(id > 0 && allC.insert(id).second, "identifier of a coordinate"); 
                    for (int k = 1; k < 4; k++) { double u = v[k] * 256, w = std::round(u); if (std::fabs(u - w) <= 6e-6 * std::fabs(u)) v[k] = w / 256; }  // six digits
                    co[id] = posJ(&v[1]);
                }
                while (std::getline(in, line) && (line.empty() || line[0] == '#')) {}
                need(line == "Elements", "elements expected");
                while (std::getline(in, line) && line.compare(0, 3, "end") && line.compare(0, 3, "End")) {
                    std::vector<long> v = numbers<long>(line); need((long)v.size() == n + 1, "element"); need(v[0] > 0 && allE.insert(v[0]).second, "identifier of an element");
                    J c; for (long k = 1; k <= n; k++) { need(co.count(v[k]) == 1, "a coordinate that is not there"); used.insert(v[k]); c.add(co[v[k]]); }
                    cells.add(c);
                }
                need(used.size() == co.size(), "a coordinate of no element");
                l.add(J().add(name).add(ty).add((long)co.size()).add(cells));
            }
            need(d.list(base[0] == 's' ? "/sub.d" : "").size() == (base[0] == 's' ? 1u : 2u), "other files");
        } catch (const std::logic_error& e) { return J().add("unreadable").add(std::string(e.what())); }
        return J().add("files").add(l);
    }
    J exec(const J& op, J& obs) {
        const std::string& n = op[0].str(); std::unique_ptr<Data>& t = d[0]; J res("ok");
        if (n == "vtk" || n == "gid") res = !t || !t->mesh || !t->physicalModels ? J("spared") : n == "vtk" ? vtk(op[2].str()) : gid(op[2].str());
        else if (n == "bound") dynamic_cast<GMesh::Structured*>(t->mesh)->bounds().setBound(op[2].n(), op[3].n(), menv().bound[op[4].n()]);
        else if (n == "factor") { delete t->solver; Solver::Settings s; s.setObject(); s("k").setString("f"); s("geometryScalingFactor").setReal(op[2].n() / (double)op[3].n()); t->solver = new Solver::Info("f", s); }
        else res = run(op);
        obs = obsD(t.get());
        return res;
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
