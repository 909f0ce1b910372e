// Driver for spec/Events.tla
#include "xdrv.hpp"
#include "xmmEvents.hpp"
using namespace xd;
static const int NG = 2, NS = 3;
struct Ev { int v; };
typedef xmm::EventGenerator<Ev> G;
struct Sub;
static std::vector<std::string> calls; static G* current; static Sub* subs; static int count;
struct Sub {
    int id; std::string a = "none"; int target = 1;
    void called(int m, Ev& e);
    void one(Ev& e) { called(1, e); }
    void two(Ev& e) { called(2, e); }
};
void Sub::called(int m, Ev& e) {
    count++; calls.push_back(O().k("s", n(id)).k("m", n(m)).k("v", n(e.v)).str());
    Sub* t = &subs[target];
    if (a == "remove") current->removeListener(t, &Sub::one);
    else if (a == "add") current->addListener(t, &Sub::one);
    else if (a == "clear") current->removeListeners();
}
struct EvDriver : Driver {
    std::unique_ptr<G> g[NG + 1]; Sub s[NS + 1];
    EvDriver() { subs = s; for (int i = 1; i <= NG; i++) g[i].reset(new G()); for (int i = 0; i <= NS; i++) s[i].id = i; }
    std::string state() override { std::string r = O().k("calls", n(count)).str(); count = 0; return r; }
    std::string exec(J const& op) override {
        std::string o = op["o"].s; int k = op.has("g") ? op["g"].num() : 0; int i = op.has("s") ? op["s"].num() : 0;
        return guard([&]() -> std::string {
            if (o == "add") { if (op["m"].num() == 1) g[k]->addListener(&s[i], &Sub::one); else g[k]->addListener(&s[i], &Sub::two); }
            else if (o == "rm") g[k]->removeListener(&s[i], &Sub::one);
            else if (o == "clear") g[k]->removeListeners();
            else if (o == "todo") { s[i].a = op["a"]["a"].s; s[i].target = op["a"]["s"].num(); }
            else if (o == "copy") *g[k] = *g[op["q"].num()];
            else if (o == "new") g[k].reset(new G());
            else if (o == "notify") { calls.clear(); current = g[k].get(); Ev e{(int)op["v"].num()}; g[k]->notifyListeners(e); std::string r = arr(calls, [](std::string const& x) { return x; }); if (e.v != op["v"].num()) return "\"event changed\""; return r; }
            else { fprintf(stderr, "unknown op %s\n", o.c_str()); _exit(97); }
            return "0";
        });
    }
};
int main(int c, char** v) { return run(c, v, [] { return new EvDriver; }); }
