// Documents: what is written is read again by the JSON library, as text, and
// writing the loaded object again has to give the same document.
#pragma once
#include "xdrv.hpp"
#include "xmmJson.hpp"
namespace xd {
inline std::string text(Json::Value const& j) { return Json::FastWriter().write(j); }
inline Json::Value reread(Json::Value const& j) {
    static int turn = 0; Json::Value k; std::string t = turn++ % 2 ? Json::StyledWriter().write(j) : text(j);
    if (!Json::Reader().parse(t, k)) throw std::runtime_error("a written document is not readable: " + t);
    return k;
}
// names that are all blank may be written or left out; inside a set they are
// those of the set once the set was read (what they are then is observed)
inline Json::Value unnamed(Json::Value j, bool always = false) {
    if (!j.isMember("column_names")) return j;
    bool blank = true; for (auto const& c : j["column_names"]) blank = blank && c.asString().empty();
    if (blank || always) j.removeMember("column_names");
    return j;
}
inline Json::Value inSet(Json::Value j) { for (auto& p : j["phrases"]) p = unnamed(p, true); return j; }
inline void same(Json::Value const& a, Json::Value const& b) {
    if (text(a) == text(b)) return;
    fprintf(stderr, "documents differ:\n%s%s", text(a).c_str(), text(b).c_str());
    throw std::runtime_error("documents differ");
}
}
