// Minimal JSON value, used by every conformance driver: a driver reads one
// case per line ({"case":name,"ops":[[name,arg...],...]}), executes the ops on
// the real library and writes one event per op ({"op":..,"res":..,"obs":..}).
#ifndef VJ_H
#define VJ_H
#include <cctype>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <functional>
#include <fstream>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <sys/resource.h>
#include <unistd.h>

struct J {
    enum T { INT, STR, ARR, OBJ, BOOL } t;
    long i;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J> > o;
    J() : t(ARR), i(0) {}
    J(int v) : t(INT), i(v) {}
    J(long v) : t(INT), i(v) {}
    J(unsigned long v) : t(INT), i((long)v) {}
    J(unsigned v) : t(INT), i((long)v) {}
    J(bool v) : t(BOOL), i(v) {}
    J(const char* v) : t(STR), i(0), s(v) {}
    J(const std::string& v) : t(STR), i(0), s(v) {}
    static J arr() { return J(); }
    static J obj() { J r; r.t = OBJ; return r; }
    J& add(const J& v) { a.push_back(v); return *this; }
    J& put(const std::string& k, const J& v) {
        t = OBJ; o.push_back(std::make_pair(k, v)); return *this;
    }
    std::size_t size() const { return a.size(); }
    const J& operator[](std::size_t k) const { return a.at(k); }
    const J& at(const std::string& k) const {
        for (std::size_t n = 0; n < o.size(); n++) if (o[n].first == k) return o[n].second;
        throw std::out_of_range("J::at " + k);
    }
    bool has(const std::string& k) const {
        for (std::size_t n = 0; n < o.size(); n++) if (o[n].first == k) return true;
        return false;
    }
    long n() const { return i; }
    bool b() const { return i != 0; }
    const std::string& str() const { return s; }
    std::vector<long> ints() const {
        std::vector<long> r;
        for (std::size_t k = 0; k < a.size(); k++) r.push_back(a[k].i);
        return r;
    }
    static void esc(std::string& out, const std::string& s) {
        out += '"';
        for (std::size_t k = 0; k < s.size(); k++) {
            unsigned char c = (unsigned char)s[k];
            if (c == '"' || c == '\\') { out += '\\'; out += (char)c; }
            else if (c == '\n') out += "\\n";
            else if (c == '\t') out += "\\t";
            else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); out += b; }
            else out += (char)c;
        }
        out += '"';
    }
    void dump(std::string& out) const {
        switch (t) {
        case INT: out += std::to_string(i); break;
        case BOOL: out += i ? "true" : "false"; break;
        case STR: esc(out, s); break;
        case ARR:
            out += '[';
            for (std::size_t k = 0; k < a.size(); k++) { if (k) out += ','; a[k].dump(out); }
            out += ']'; break;
        case OBJ:
            out += '{';
            for (std::size_t k = 0; k < o.size(); k++) {
                if (k) out += ',';
                esc(out, o[k].first); out += ':'; o[k].second.dump(out);
            }
            out += '}'; break;
        }
    }
    std::string dump() const { std::string r; dump(r); return r; }

    static J parse(const std::string& s) { std::size_t p = 0; return parse_(s, p); }
private:
    static void ws(const std::string& s, std::size_t& p) {
        while (p < s.size() && std::isspace((unsigned char)s[p])) p++;
    }
    static std::string str_(const std::string& s, std::size_t& p) {
        std::string r; p++;
        while (p < s.size() && s[p] != '"') {
            if (s[p] == '\\') {
                p++;
                if (s[p] == 'n') r += '\n';
                else if (s[p] == 't') r += '\t';
                else if (s[p] == 'r') r += '\r';
                else if (s[p] == 'u') {
                    r += (char)std::strtol(s.substr(p + 1, 4).c_str(), 0, 16); p += 4;
                } else r += s[p];
                p++;
            } else r += s[p++];
        }
        p++; return r;
    }
    static J parse_(const std::string& s, std::size_t& p) {
        ws(s, p);
        if (s[p] == '"') return J(str_(s, p));
        if (s[p] == '[') {
            J r; p++; ws(s, p);
            while (s[p] != ']') { r.a.push_back(parse_(s, p)); ws(s, p); if (s[p] == ',') p++; ws(s, p); }
            p++; return r;
        }
        if (s[p] == '{') {
            J r = J::obj(); p++; ws(s, p);
            while (s[p] != '}') {
                ws(s, p); std::string k = str_(s, p); ws(s, p); p++;
                r.o.push_back(std::make_pair(k, parse_(s, p))); ws(s, p);
                if (s[p] == ',') p++; ws(s, p);
            }
            p++; return r;
        }
        if (s.compare(p, 4, "true") == 0) { p += 4; return J(true); }
        if (s.compare(p, 5, "false") == 0) { p += 5; return J(false); }
        char* e; long v = std::strtol(s.c_str() + p, &e, 10);
        p = e - s.c_str(); return J(v);
    }
};

// Exact scaled value: v*scale must be an integer, otherwise a marker string.
inline J scaled(double v, long scale) {
    double x = v * (double)scale;
    double r = std::floor(x + 0.5);
    if (std::fabs(x - r) > 1e-6 * (1.0 + std::fabs(x)) || std::fabs(x) > 1e9 || x != x) {
        char b[64]; std::snprintf(b, 64, "inexact:%.12g", v); return J(b);
    }
    return J((long)r);
}

// World is default-constructed per case; it provides J exec(const J& op, J& obs).
template <class World>
int driverMain(int argc, char** argv) {
    if (argc < 3) { std::cerr << "usage: driver cases trace\n"; return 2; }
    struct rlimit lim = {(rlim_t)3 << 30, (rlim_t)3 << 30};
    setrlimit(RLIMIT_AS, &lim);
    struct rlimit fs = {(rlim_t)2 << 30, (rlim_t)2 << 30};
    setrlimit(RLIMIT_FSIZE, &fs);
    std::ifstream in(argv[1]);
    std::FILE* out = std::fopen(argv[2], "w");
    if (!in || !out) return 2;
    // The library prints warnings on stdout/stderr: keep them out of the way.
    if (!std::freopen("/dev/null", "w", stdout)) return 2;
    if (!getenv("VJ_VERBOSE")) std::cerr.rdbuf(std::cout.rdbuf());
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        J c = J::parse(line);
        std::string h = "{\"op\":[\"case\"," ;
        J::esc(h, c.at("case").s);
        h += "],\"res\":0,\"obs\":0}\n";
        std::fputs(h.c_str(), out); std::fflush(out);
        alarm(30);
        {
            World w;
            const J& ops = c.at("ops");
            for (std::size_t k = 0; k < ops.size(); k++) {
                J ev = J::obj(); ev.put("op", ops[k]);
                J res; J obs;
                try { res = w.exec(ops[k], obs); }
                catch (const std::exception& e) { res = J(std::string("uncaught:") + e.what()); }
                catch (...) { res = J("uncaught"); }
                ev.put("res", res); ev.put("obs", obs);
                std::string o = ev.dump(); o += '\n';
                std::fputs(o.c_str(), out);
            }
        }
        std::fflush(out);
        alarm(0);
    }
    std::fclose(out);
    return 0;
}
#endif
