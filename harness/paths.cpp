// Conformance driver for the paths of a project (spec: Paths.tla).
// Whatever the code does happens as an unprivileged user, in a folder of its own.
#include "vj.h"
#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <grp.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <functional>
#include <iterator>
#include "filesystem/Project.h"
using SEMBA::FileSystem::Project;
static std::string text(const J& w) { std::string r; for (auto& c : w.a) r += c.str(); return r; }
static J chars(const std::string& s) { J r; for (char c : s) r.add(std::string(1, c)); return r; }
struct Probe : Project {
    Probe(const std::string& s) : Project(s) {}
    std::vector<std::string> list(const std::string& d, const std::string& e) const { return getFilesBasenames_(d, e); }
};
static std::string scratch() {  // made once, as nobody
    static std::string dir;
    if (!dir.empty()) return dir;
    if (geteuid() == 0) {
        if (setgroups(0, nullptr) || setgid(65534) || setuid(65534)) _exit(2);
        if (setuid(0) == 0 || geteuid() == 0) _exit(2);
    }
    const char* up = getenv("SEMBA_SCRATCH"); if (!up) _exit(2);
    std::string t = std::string(up) + "/tXXXXXX";
    if (!mkdtemp(&t[0])) _exit(2);
    char* r = realpath(t.c_str(), nullptr); dir = r; free(r);
    return dir;
}
static int drop(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
struct World {
    std::string root, log;
    static int n() { static int k = 0; return k++; }
    World() {
        std::string k = std::to_string(n());
        umask(022);
        root = scratch() + "/c" + k; log = scratch() + "/log" + k;
        if (mkdir(root.c_str(), 0755) || chdir(root.c_str())) _exit(2);
        setenv("SEMBA_LOG", log.c_str(), 1);
    }
    ~World() { if (chdir("/")) _exit(2); nftw(root.c_str(), drop, 16, FTW_DEPTH | FTW_PHYS); unlink(log.c_str()); }
    std::string real(const J& p) const { std::string t = text(p); return !t.empty() && t[0] == '@' ? root + t.substr(1) : t; }
    std::string shown(const std::string& p) const { return p.compare(0, root.size(), root) == 0 && (p.size() == root.size() || p[root.size()] == '/') ? "@" + p.substr(root.size()) : p; }
    static std::string kind(const std::string& p) {
        struct stat st; if (lstat(p.c_str(), &st)) return "none";
        return S_ISDIR(st.st_mode) ? "d" : st.st_mode & S_IXUSR ? "x" : "f";
    }
    static std::string content(const std::string& p) { std::ifstream f(p); return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()); }
    void walk(const std::string& p, J& o) const {
        std::string k = kind(p);
        J e; e.add(shown(p)).add(k).add(k == "f" ? content(p) : ""); o.add(e);
        if (k != "d") return;
        if (DIR* d = opendir(p.c_str())) {
            while (dirent* x = readdir(d)) { std::string m = x->d_name; if (m != "." && m != "..") walk(p + "/" + m, o); }
            closedir(d);
        }
    }
    std::string here() const { char b[4096]; return getcwd(b, sizeof b) ? b : "gone"; }
    bool spared(const std::string& p) const {
        struct stat st; if (stat(p.c_str(), &st) || !S_ISDIR(st.st_mode)) return false;
        char* r = realpath(p.c_str(), nullptr); std::string f = r ? r : ""; free(r);
        std::string h = here() + "/", q = p;
        while (!q.empty() && q.back() == '/') q.pop_back();
        std::string l = q.substr(q.rfind('/') + 1);
        return h.compare(0, f.size() + 1, f + "/") == 0 || f.compare(0, root.size() + 1, root + "/") != 0 || l == "." || l == ".." || l.empty();
    }
    J run(const std::string& n, const std::string& p, const J& op) {
        Project a; a.setFilename(p);
        if (n == "names") {
            Project b(a), c(p); J r, e; c = a;
            r.add(chars(a.getFolder())).add(chars(a.getBasename()));
            std::string s = a.getBasename();
            if (s.size() == 1 || s.find_first_not_of('.') != std::string::npos) e.add(chars(a.getExtension())).add(chars(a.getProjectName())).add(chars(a.getOutputName())).add(chars(a.getOutputFilename()));
            r.add(e);
            // the questions left the path alone, and so are its copies
            bool same = a == p && b == p && c == p && a.getFilename() == p && a.toStr() == p;
            r.add(same ? chars(p) : J("changed"));
            return r;
        }
        if (n == "ask") {
            J r; Project there(root); there.isFolder(); bool d = a.isFolder();
            r.add(d); r.add(d ? "folder" : a.canOpen() ? "opens" : "no"); r.add(a.canExecute());
            try { r.add(shown(a.getFullPath())); } catch (const std::exception&) { r.add("refused"); }
            return r;
        }
        if (n == "makeDir") { try { a.makeDir(); return J("ok"); } catch (const std::exception&) { return J("refused"); } }
        if (n == "rmDir") { if (spared(p)) return J("spared"); a.rmDir(); return J("ok"); }
        if (n == "touch") {
            bool x = op[2].str() == "x";
            int f = open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY, x ? 0755 : 0644);
            if (f >= 0) { std::string t = x ? "#!/bin/sh\nprintf '%s' \"$*\" > \"$SEMBA_LOG\"\n" : "old"; if (::write(f, t.data(), t.size()) < 0) _exit(2); close(f); }
            return J("ok");
        }
        if (n == "cd") { a.changeDir(); return J("ok"); }
        if (n == "write") {
            if (kind(p) == "x") return J("spared");
            std::ofstream f;
            try { if (op[2].str().size() % 2) a.openFile(f); else a.openFile(f, false); } catch (const std::exception&) { return J("closed"); }
            if (!f.is_open()) return J("closed");
            f << op[2].str(); return J("ok");
        }
        if (n == "read") {
            std::string k = kind(p); struct stat st; if (stat(p.c_str(), &st) == 0 && (S_ISDIR(st.st_mode) || k == "x")) return J("spared");
            std::ifstream f; try { a.openAsInput(f); } catch (const std::exception&) { return J("closed"); }
            if (!f.is_open()) return J("closed");
            J r; r.add(std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>())); return r;
        }
        if (n == "exec") {
            unlink(log.c_str());
            try { a.exec(op[2].str()); } catch (const std::exception&) { return J("refused"); }
            if (kind(log) == "none") return J("nothing ran");
            J r; r.add("ran").add(content(log)); return r;
        }
        if (n == "list") { J r; for (auto& x : Probe("").list(p, text(op[2]))) r.add(x); return r; }
        if (n == "relative") {
            Project q(real(op[2])); Project r = a.relativeTo(q); std::string s = r;
            if (a != p || q != real(op[2])) return J("changed");
            return chars(shown(s));
        }
        throw std::logic_error("op " + n);
    }
    J exec(const J& op, J& obs) {
        J r = run(op[0].str(), op[0].str() == "names" ? text(op[1]) : real(op[1]), op);
        J t; walk(root, t); obs.add(t).add(shown(here()));
        return r;
    }
};
int main(int c, char** v) { return driverMain<World>(c, v); }
