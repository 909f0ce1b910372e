// Driver for spec/Clusters.tla
#include "params.hpp"
#include "xmmKMeans.hpp"
using namespace xd;
typedef xmm::KMeans K;
static std::vector<J> SETS;
static std::shared_ptr<xmm::TrainingSet> makeSet(J const& j) {
    auto ts = std::make_shared<xmm::TrainingSet>(xmm::MemoryMode::OwnMemory, j["bi"].b ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
    ts->dimension.set(j["dim"].num());
    if (j["bi"].b) ts->dimension_input.set(j["din"].num());
    for (auto const& p : j["phr"].a) {
        ts->addPhrase(p["i"].num(), p["l"].s);
        auto h = ts->getPhrase(p["i"].num());
        for (auto const& x : p["f"].a) h->record(x.floats());
    }
    return ts;
}
struct D : Driver {
    std::unique_ptr<K> m[4];
    std::map<int, std::shared_ptr<xmm::TrainingSet>> lib;
    xmm::TrainingSet* set(int k) { if (!k) return nullptr; auto& p = lib[k]; if (!p) p = makeSet(SETS.at(k - 1)); return p.get(); }
    std::string state() override {
        std::string s = "[";
        for (int i = 1; i <= 3; i++) {
            s += i > 1 ? "," : "";
            if (!m[i]) { s += "{\"alive\":false}"; continue; }
            s += O().k("alive", "true").k("d", all<K>(m[i]->configuration)).k("mode", m[i]->initialization_mode == K::InitializationMode::Random ? "\"random\"" : "\"biased\"").k("cs", fa(m[i]->centers)).str();
        }
        return s + "]";
    }
    std::string exec(J const& op) override {
        std::string o = op["o"].s;
        auto& X = m[op["s"].num()]; auto& U = m[op.has("u") ? op["u"].num() : 0];
        return guard([&]() -> std::string {
            if (o == "new") X.reset(new K(u(op["k"])));
            else if (o == "del") X.reset();
            else if (o == "copy") X.reset(new K(*U));
            else if (o == "assign") *X = *U;
            else if (o == "dset") P<K>::set(X->configuration, op["f"].num(), op["v"]);
            else if (o == "mode") X->initialization_mode = op["m"].s == "random" ? K::InitializationMode::Random : K::InitializationMode::Biased;
            else if (o == "reset") X->reset();
            else if (o == "train") X->train(set(op["k"].num()));
            else if (o == "filter") { X->filter(op["x"].floats()); return O().k("dist", fa(X->results.distances)).k("near", n((long long)X->results.likeliest + 1)).str(); }
            else { fprintf(stderr, "unknown op %s\n", o.c_str()); _exit(97); }
            return "0";
        });
    }
};
int main(int c, char** v) {
    std::ifstream in(getenv("XD_SETS") ? getenv("XD_SETS") : ""); std::string l;
    while (std::getline(in, l)) SETS.push_back(parse(l));
    return run(c, v, [] { return new D; });
}
