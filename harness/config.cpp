// Driver for spec/Config.tla
#include "params.hpp"
using namespace xd;
static const char* LAB[] = {"", "a", "b c"};
struct Cfg {
    virtual ~Cfg() {}
    virtual Cfg* copy() = 0; virtual void assign(Cfg*) = 0; virtual void dset(int, J const&) = 0; virtual void cset(std::string, int, J const&) = 0;
    virtual std::string cget(std::string) = 0; virtual void put(std::string, Cfg*, std::string) = 0; virtual void mode(int) = 0; virtual void est(int) = 0;
    virtual void reset() = 0; virtual void reset1(std::string) = 0; virtual Json::Value json() = 0; virtual void load(Json::Value const&) = 0;
    virtual Cfg* make(Json::Value const&) = 0; virtual std::string proj() = 0;
};
template <class M> struct CfgT : Cfg {
    xmm::Configuration<M> c; std::string k;
    CfgT(std::string kk) : k(kk) {}
    CfgT(CfgT const& o) : c(o.c), k(o.k) {}
    CfgT(Json::Value const& j, std::string kk) : c(j), k(kk) {}
    Cfg* copy() override { return new CfgT(*this); }
    void assign(Cfg* o) override { c = static_cast<CfgT*>(o)->c; }
    void dset(int f, J const& v) override { P<M>::set(c, f, v); }
    void cset(std::string l, int f, J const& v) override { P<M>::set(c[l], f, v); }
    std::string cget(std::string l) override { return all(c[l]); }
    void put(std::string l, Cfg* o, std::string m) override { xmm::ClassParameters<M> p(static_cast<CfgT*>(o)->c[m]); c[l] = p; }
    void mode(int v) override { c.multithreading = (xmm::MultithreadingMode)v; }
    void est(int v) override { c.multiClass_regression_estimator = (xmm::MultiClassRegressionEstimator)v; }
    void reset() override { c.reset(); }
    void reset1(std::string l) override { c.reset(l); }
    Json::Value json() override { return c.toJson(); }
    void load(Json::Value const& j) override { c.fromJson(j); }
    Cfg* make(Json::Value const& j) override { return new CfgT(j, k); }
    std::string proj() override {
        std::string inc = "[", cls = "["; bool first = true;
        for (std::string l : rich(std::vector<std::string>(LAB, LAB + 3))) if (c.includes(l)) { inc += (first ? "" : ",") + q(l); cls += (first ? "" : ",") + all(c[l]); first = false; }
        return O().k("alive", "true").k("k", q(k)).k("d", all(c)).k("mt", n((int)c.multithreading)).k("est", n((int)c.multiClass_regression_estimator)).k("inc", inc + "]").k("cls", cls + "]").str();
    }
};
struct ConfigDriver : Driver {
    std::unique_ptr<xmm::SharedParameters> s[3]; std::unique_ptr<Cfg> c[3];
    std::string state() override {
        std::string a = "[", d = "[";
        for (int i = 1; i <= 2; i++) { a += (i > 1 ? "," : "") + shared(s[i].get()); d += (i > 1 ? "," : "") + (c[i] ? c[i]->proj() : std::string("{\"alive\":false}")); }
        return O().k("s", a + "]").k("c", d + "]").str();
    }
    std::string exec(J const& op) override {
        std::string o = op["o"].s;
        auto& S = s[op.has("s") ? op["s"].num() : 0]; auto& SU = s[op.has("s") && op.has("u") ? op["u"].num() : 0];
        auto& C = c[op.has("c") ? op["c"].num() : 0]; auto& CU = c[op.has("c") && op.has("u") ? op["u"].num() : 0];
        return guard([&]() -> std::string {
            if (o == "snew") S.reset(new xmm::SharedParameters());
            else if (o == "sdel") S.reset();
            else if (o == "scopy") S.reset(new xmm::SharedParameters(*SU));
            else if (o == "sassign") *S = *SU;
            else if (o == "sjson") { Json::Value j = SU->toJson(); S->fromJson(j); same(j, S->toJson()); }
            else if (o == "sjsonnew") { Json::Value j = SU->toJson(); S.reset(new xmm::SharedParameters(reread(j))); same(SU->toJson(), S->toJson()); }
            else if (o == "sset") {
                setShared(S.get(), op["f"].s, op["v"]);
            }
            else if (o == "cnew") { std::string k = op["k"].s; if (k == "gmm") C.reset(new CfgT<xmm::GMM>(k)); else if (k == "hmm") C.reset(new CfgT<xmm::HMM>(k)); else C.reset(new CfgT<xmm::KMeans>(k)); }
            else if (o == "cdel") C.reset();
            else if (o == "ccopy") C.reset(CU->copy());
            else if (o == "cassign") C->assign(CU.get());
            else if (o == "cjson") { Json::Value j = CU->json(); C->load(j); same(j, C->json()); }
            else if (o == "cjsonnew") { Json::Value j = CU->json(); C.reset(CU->make(reread(j))); same(CU->json(), C->json()); }
            else if (o == "dset") C->dset(op["f"].num(), op["v"]);
            else if (o == "cset") C->cset(rich(op["l"].s), op["f"].num(), op["v"]);
            else if (o == "cget") return C->cget(rich(op["l"].s));
            else if (o == "cput") C->put(rich(op["l"].s), CU.get(), rich(op["m"].s));
            else if (o == "mode") C->mode(op["v"].num());
            else if (o == "est") C->est(op["v"].num());
            else if (o == "reset") C->reset();
            else if (o == "reset1") C->reset1(rich(op["l"].s));
            else { fprintf(stderr, "unknown op %s\n", o.c_str()); _exit(97); }
            return "0";
        });
    }
};
int main(int c, char** v) { return run(c, v, [] { return new ConfigDriver; }); }
