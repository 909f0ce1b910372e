// Driver for spec/JsonText.tla: JSON values, written to text and read from it.
#include "xdrv.hpp"
#include "json.h"
using namespace xd;
static std::string bytes(J const& j) { std::string s; for (auto& c : j.a) s += (char)c.num(); return s; }
static std::string codes(std::string const& s) { std::string r = "["; for (size_t i = 0; i < s.size(); i++) r += (i ? "," : "") + n((unsigned char)s[i]); return r + "]"; }
static std::string dump(Json::Value const& v) {
    std::string t, x = "0";
    switch (v.type()) {
        case Json::nullValue: t = "z"; break;
        case Json::booleanValue: t = "b"; x = b(v.asBool()); break;
        case Json::intValue: t = "i"; x = "\"" + std::to_string((long long)v.asLargestInt()) + "\""; break;
        case Json::uintValue: t = "u"; x = "\"" + std::to_string((unsigned long long)v.asLargestUInt()) + "\""; break;
        case Json::realValue: t = "r"; x = f(v.asDouble()); break;
        case Json::stringValue: t = "s"; x = codes(v.asString()); break;
        case Json::arrayValue: t = "a"; x = "["; for (unsigned i = 0; i < v.size(); i++) x += (i ? "," : "") + dump(v[i]); x += "]"; break;
        case Json::objectValue: { t = "o"; x = "["; std::map<std::string, std::string> m; for (auto& k : v.getMemberNames()) m[k] = dump(v[k]);
            if (m.size() != v.size()) t = "o?";
            for (auto& p : m) x += (x.size() > 1 ? ",[" : "[") + codes(p.first) + "," + p.second + "]"; x += "]"; }
    }
    return "{\"t\":\"" + t + "\",\"v\":" + x + "}";
}
static Json::Value make(J const& j) {
    std::string t = j["t"].s; J const& v = j["v"];
    if (t == "z") return Json::Value();
    if (t == "b") return Json::Value(v.b);
    if (t == "i") return Json::Value((Json::Int64)strtoll(v.s.c_str(), 0, 10));
    if (t == "u") return Json::Value((Json::UInt64)strtoull(v.s.c_str(), 0, 10));
    if (t == "r") return Json::Value(strtod(v.s.c_str(), 0));
    if (t == "s") return Json::Value(bytes(v));
    return Json::Value(t == "a" ? Json::arrayValue : Json::objectValue);
}
static std::string write(Json::Value const& v, std::string const& w) {
    if (w == "fast") { Json::FastWriter x; return x.write(v); }
    if (w == "styled") { Json::StyledWriter x; return x.write(v); }
    std::ostringstream o;
    if (w == "stream") { Json::StyledStreamWriter x("  "); x.write(o, v); return o.str(); }
    Json::StreamWriterBuilder b; if (w == "dense") { b["indentation"] = ""; b["commentStyle"] = "None"; }
    std::unique_ptr<Json::StreamWriter> x(b.newStreamWriter()); x->write(v, &o);
    return o.str();
}
static bool read(std::string const& t, Json::Value& v, std::string const& m) {
    Json::Reader r;
    if (m == "string") return r.parse(t, v, false);
    if (m == "notes") return r.parse(t, v);
    if (m == "stream") { std::istringstream i(t); return r.parse(i, v, false); }
    // exactly these bytes, with nothing after them
    std::unique_ptr<char[]> c(new char[t.size()]); memcpy(c.get(), t.data(), t.size());
    if (m == "range") return r.parse(c.get(), c.get() + t.size(), v, false);
    Json::CharReaderBuilder b; if (m == "builder") b["collectComments"] = false; std::string e;
    std::unique_ptr<Json::CharReader> x(b.newCharReader());
    return x->parse(c.get(), c.get() + t.size(), &v, &e);
}
struct D : Driver {
    Json::Value m[4];
    std::string state() override { std::string s = "["; for (int i = 1; i <= 3; i++) s += (i > 1 ? "," : "") + dump(m[i]); return s + "]"; }
    std::string exec(J const& op) override {
        std::string o = op["o"].s; Json::Value& X = m[op["s"].num()]; Json::Value& K = m[op.has("k") ? op["k"].num() : 0];
        Json::Value const& C = X;
        return guard([&]() -> std::string {
            if (o == "set") X = make(op["v"]);
            else if (o == "copy") X = K;
            else if (o == "swap") X.swap(K);
            else if (o == "append") X.append(K);
            else if (o == "setidx") X[(Json::ArrayIndex)op["i"].num()] = K;
            else if (o == "setkey") X[bytes(op["key"])] = K;
            else if (o == "rmkey") { std::string y = bytes(op["key"]); Json::Value r; if (X.isNull() || X.isObject()) X.removeMember(y.data(), y.data() + y.size(), &r); else r = X.removeMember(y); K = r; }
            else if (o == "rmidx") { Json::Value r; return n(X.removeIndex(op["i"].num(), &r)); }
            else if (o == "resize") X.resize(op["n"].num());
            else if (o == "clear") X.clear();
            else if (o == "getidx") K = C[(Json::ArrayIndex)op["i"].num()];
            else if (o == "getkey") K = C[bytes(op["key"])];
            else if (o == "member") return n(C.isMember(bytes(op["key"])));
            else if (o == "size") return n(C.size());
            else if (o == "equal") return n(X == K);
            else if (o == "comment") X.setComment(bytes(op["c"]), (Json::CommentPlacement)op["p"].num());
            else if (o == "write") { std::string t = write(C, op["w"].s); Json::Value v; bool ok = read(t, v, op["w"].s == "dense" ? "builder" : "string"); K = v; return O().k("text", codes(t)).k("again", n(ok)).str(); }
            else if (o == "read") { X = Json::Value(); return n(read(bytes(op["text"]), X, op["m"].s)); }
            else if (o == "deep") {
                // n arrays (or objects) inside one another, all closed or not; then written, read again and compared
                std::string t, z; bool obj = op["t"].s == "o"; int d = op["n"].num();
                for (int i = 0; i < d; i++) { t += obj ? "{\"a\":" : "["; z += obj ? "}" : "]"; }
                t += obj ? "0" : ""; if (op["z"].num()) t += z;
                Json::Value v, w; if (!read(t, v, op["m"].s)) return "0";
                return n(read(write(v, op["w"].s), w, "string") && v == w ? 1 : 2);
            }
            else { fprintf(stderr, "unknown op %s\n", o.c_str()); _exit(97); }
            return "0";
        });
    }
};
int main(int c, char** v) { return run(c, v, [] { return new D; }); }
