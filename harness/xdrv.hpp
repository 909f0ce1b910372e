// Common part of all drivers: reads operation scripts (one JSON record per
// line, scripts separated by "---"), runs each script in a forked child
// against the real library and writes one JSON event per operation:
//   {"op":<the record>,"r":<result>,"s":<projected state>}
// A child that dies or hangs is recorded as an event with operation "Crash".
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace xd {

// ---------------------------------------------------------------- JSON input
struct J {
    enum T { Nul, Bool, Int, Real, Str, Arr, Obj } t = Nul;
    long long i = 0; double d = 0; bool b = false; std::string s;
    std::vector<J> a; std::map<std::string, J> o;
    const J& operator[](const char* k) const {
        auto it = o.find(k);
        if (it == o.end()) { fprintf(stderr, "driver: missing field %s\n", k); _exit(97); }
        return it->second;
    }
    bool has(const char* k) const { return o.count(k) > 0; }
    const J& at(size_t k) const { return a.at(k); }
    size_t size() const { return a.size(); }
    long long num() const { return t == Real ? (long long)d : t == Str ? atoll(s.c_str()) : i; }
    double real() const {
        if (t == Int) return (double)i;
        if (t == Real) return d;
        if (t == Str) { if (s == "NaN") return NAN; if (s == "Infinity") return INFINITY; if (s == "-Infinity") return -INFINITY; return strtod(s.c_str(), 0); }
        return 0;
    }
    std::vector<float> floats() const { std::vector<float> r; for (auto& x : a) r.push_back((float)x.real()); return r; }
    std::vector<std::string> strs() const { std::vector<std::string> r; for (auto& x : a) r.push_back(x.s); return r; }
};
struct JP {
    const char* p; const char* e;
    void ws() { while (p < e && strchr(" \t\r\n", *p)) p++; }
    J val() {
        ws(); J v;
        if (p >= e) return v;
        if (*p == '{') { v.t = J::Obj; p++; ws(); while (*p != '}') { J k = val(); ws(); p++; v.o[k.s] = val(); ws(); if (*p == ',') { p++; ws(); } } p++; }
        else if (*p == '[') { v.t = J::Arr; p++; ws(); while (*p != ']') { v.a.push_back(val()); ws(); if (*p == ',') { p++; ws(); } } p++; }
        else if (*p == '"') {
            v.t = J::Str; p++;
            while (*p != '"') {
                if (*p == '\\') { p++; char c = *p++;
                    if (c == 'n') v.s += '\n'; else if (c == 't') v.s += '\t'; else if (c == 'r') v.s += '\r'; else if (c == 'b') v.s += '\b'; else if (c == 'f') v.s += '\f';
                    else if (c == 'u') { unsigned u = strtoul(std::string(p, 4).c_str(), 0, 16); p += 4;
                        if (u < 0x80) v.s += (char)u; else if (u < 0x800) { v.s += (char)(0xC0 | u >> 6); v.s += (char)(0x80 | (u & 63)); }
                        else { v.s += (char)(0xE0 | u >> 12); v.s += (char)(0x80 | ((u >> 6) & 63)); v.s += (char)(0x80 | (u & 63)); } }
                    else v.s += c; }
                else v.s += *p++; }
            p++; }
        else if (!strncmp(p, "true", 4)) { v.t = J::Bool; v.b = true; p += 4; }
        else if (!strncmp(p, "false", 5)) { v.t = J::Bool; p += 5; }
        else if (!strncmp(p, "null", 4)) { p += 4; }
        else { char* q; v.d = strtod(p, &q); std::string n(p, (const char*)q); if (n.find_first_of(".eE") == std::string::npos) { v.t = J::Int; v.i = atoll(n.c_str()); } else v.t = J::Real; p = q; }
        return v;
    }
};
inline J parse(std::string const& s) { JP x{s.data(), s.data() + s.size()}; return x.val(); }

// ------------------------------------------------- labels with odd characters
// With XD_RICH, every label or name given to the library is wrapped in odd
// characters, and unwrapped where it is observed.
static const std::string PRE = "\\\"", SUF = "\"\\\n\t\x01\x7f\xC3\xA9 /'</b>{[:,";
inline bool isRich() { static bool r = getenv("XD_RICH") != nullptr; return r; }
inline std::string rich(std::string const& s) { return isRich() && !s.empty() ? PRE + s + SUF : s; }
inline std::vector<std::string> rich(std::vector<std::string> v) { for (auto& s : v) s = rich(s); return v; }
inline std::string plain(std::string s) {
    if (!isRich()) return s;
    if (s.size() < PRE.size() + SUF.size() || s.compare(0, PRE.size(), PRE) || s.compare(s.size() - SUF.size(), SUF.size(), SUF)) return s;
    return s.substr(PRE.size(), s.size() - PRE.size() - SUF.size());
}
// --------------------------------------------------------------- JSON output
inline std::string q(std::string const& t) {
    std::string r = "\"", s = plain(t);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
inline std::string n(long long i) { return std::to_string(i); }
inline std::string b(bool x) { return x ? "true" : "false"; }
// a real, as a string for the specification
inline std::string f(double x) {
    if (std::isnan(x)) return "\"NaN\"";
    if (std::isinf(x)) return x > 0 ? "\"Infinity\"" : "\"-Infinity\"";
    char c[40]; snprintf(c, 40, "\"%.17g\"", x); return c;
}
// a real that is expected to be a small integer
inline std::string fi(double x) { if (x == std::floor(x) && std::fabs(x) < 1e9) return n((long long)x); return f(x); }
template <class C, class F> std::string arr(C const& c, F g) { std::string r = "["; bool first = true; for (auto const& x : c) { if (!first) r += ","; first = false; r += g(x); } return r + "]"; }
template <class C> std::string fa(C const& c) { return arr(c, [](double x) { return f(x); }); }
template <class C> std::string fia(C const& c) { return arr(c, [](double x) { return fi(x); }); }
template <class C> std::string sa(C const& c) { return arr(c, [](std::string const& x) { return q(x); }); }
struct O { // object builder
    std::string s = "{"; bool first = true;
    O& k(const char* key, std::string const& v) { if (!first) s += ","; first = false; s += q(key) + ":" + v; return *this; }
    std::string str() const { return s + "}"; }
};
inline std::string ok(std::string const& v = "0") { return O().k("k", "\"ok\"").k("v", v).str(); }
inline std::string exc() { return O().k("k", "\"exc\"").k("v", "0").str(); }
// runs a call; an exception of any kind is the result "exc"
inline std::string guard(std::function<std::string()> g) {
    try { return ok(g()); }
    catch (std::exception const& e) { if (getenv("XD_WHAT")) fprintf(stderr, "exc: %s\n", e.what()); return exc(); }
}

// With XD_GRAIN, frame values are multiples of a number with many digits.
inline float grain() { static float g = getenv("XD_GRAIN") ? strtof(getenv("XD_GRAIN"), 0) : 1.f; return g; }
inline std::vector<float> fine(std::vector<float> v) { for (auto& x : v) x *= grain(); return v; }
// the multiple, if it is exactly one
inline std::string coarse(float x) {
    if (grain() == 1.f) return fi(x);
    float k = std::round(x / grain());
    return k * grain() == x ? fi(k) : f(x);
}
// ------------------------------------------------------------------- driver
struct Driver {
    virtual ~Driver() {}
    // executes one operation, returns its result; state() is logged after it
    virtual std::string exec(J const& op) = 0;
    virtual std::string state() = 0;
};

inline int run(int argc, char** argv, std::function<Driver*()> make, int timeout_s = 20) {
    if (argc < 3) { fprintf(stderr, "usage: %s scripts out\n", argv[0]); return 2; }
    std::ifstream in(argv[1]); std::string line;
    std::vector<std::vector<std::string>> scripts(1);
    while (std::getline(in, line)) { if (line == "---") scripts.push_back({}); else if (!line.empty()) scripts.back().push_back(line); }
    if (scripts.back().empty()) scripts.pop_back();
    int out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (out < 0) return 2;
    auto emit = [&](std::string s) { s += "\n"; size_t k = 0; while (k < s.size()) { ssize_t w = write(out, s.data() + k, s.size() - k); if (w <= 0) _exit(96); k += w; } };
    bool nofork = getenv("XD_NOFORK") != nullptr;
    for (auto& sc : scripts) {
        auto body = [&]() {
            std::unique_ptr<Driver> d(make());
            std::string init = d->state();
            emit("{\"op\":{\"o\":\"Begin\"},\"r\":" + ok() + ",\"s\":" + init + "}");
            for (auto& l : sc) {
                J op = parse(l);
                std::string r = d->exec(op);
                std::string s = d->state();
                emit("{\"op\":" + l + ",\"r\":" + r + ",\"s\":" + s + "}");
            }
            d.reset();
        };
        if (nofork) { body(); emit("{\"op\":{\"o\":\"End\"},\"r\":" + ok() + ",\"s\":0}"); continue; }
        pid_t p = fork();
        if (p == 0) {
            alarm(timeout_s);
            body();
            _exit(0);
        }
        int st = 0; waitpid(p, &st, 0);
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 96 || WEXITSTATUS(st) == 97)) return 3; // driver error
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) emit("{\"op\":{\"o\":\"End\"},\"r\":" + ok() + ",\"s\":0}");
        else emit("{\"op\":{\"o\":\"Crash\",\"how\":" + q(WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "timeout" : "signal") : "sanitizer") + "},\"r\":" + exc() + ",\"s\":0}");
    }
    return 0;
}
}
