// Reading of documents, for spec/JsonDoc.tla: each document is given to the
// constructor of its type and to an existing object; what comes of it is recorded.
#include "params.hpp"
#include "xmmGmm.hpp"
#include "xmmHierarchicalHmm.hpp"
#include "xmmKMeans.hpp"
using namespace xd;
static Json::Value untag(J const& d) {
    std::string t = d["t"].s; J const& v = d["v"];
    if (t == "i") return Json::Value((int)v.num());
    if (t == "r") return Json::Value(v.real());
    if (t == "s") return Json::Value(v.s);
    if (t == "b") return Json::Value(v.b);
    if (t == "a") { Json::Value r(Json::arrayValue); for (auto& x : v.a) r.append(untag(x)); return r; }
    if (t == "o") { Json::Value r(Json::objectValue); for (auto& x : v.o) r[x.first] = untag(x.second); return r; }
    return Json::Value();
}
static std::string tag(Json::Value const& d) {
    auto mk = [](const char* t, std::string v) { return "{\"t\":\"" + std::string(t) + "\",\"v\":" + v + "}"; };
    switch (d.type()) {
        case Json::intValue: case Json::uintValue:
            if (d.asDouble() > 2e9 || d.asDouble() < -2e9) return mk("r", f(d.asDouble()));
            return mk("i", n(d.asLargestInt()));
        case Json::realValue: return mk("r", f(d.asDouble()));
        case Json::stringValue: return mk("s", q(d.asString()));
        case Json::booleanValue: return mk("b", b(d.asBool()));
        case Json::arrayValue: {
            if (d.size() > 200) return mk("n", n(d.size()));
            std::string s = "["; for (Json::ArrayIndex i = 0; i < d.size(); i++) s += (i ? "," : "") + tag(d[i]);
            return mk("a", s + "]");
        }
        case Json::objectValue: {
            std::string s = "{"; bool first = true;
            for (auto& m : d.getMemberNames()) { s += (first ? "" : ",") + q(m) + ":" + tag(d[m]); first = false; }
            return mk("o", s + "}");
        }
        default: return mk("z", "0");
    }
}
// the parameters of a class, as an object that has them
template <class M> struct Par : xmm::ClassParameters<M> { Par() {} explicit Par(Json::Value const& j) : xmm::ClassParameters<M>(j) {} };

// what a program does with an object it has loaded
static void use(xmm::Phrase& p) { xmm::Phrase c(p); float s = 0; for (unsigned i = 0; i < p.size(); i++) for (unsigned d = 0; d < p.dimension.get(); d++) s += p.getValue(i, d) + c.getValue(i, d); if (p.size() && p.size() < 100) { p.mean(); c.standardDeviation(); } volatile float keep = s; (void)keep; }
static void use(xmm::TrainingSet& t) { xmm::TrainingSet c(t); for (auto& p : t) use(*p.second); t.labels(); if (!c.empty()) { c.mean(); c.removePhrasesOfClass(*c.labels().begin()); c.addPhrase(77, "new"); c.dimension.set(c.dimension.get() + 1); } }
static void use(xmm::GaussianDistribution& g) {
    xmm::GaussianDistribution c(g); std::vector<float> x(g.dimension.get(), 0.5f), y(g.dimension.get(), 0.f);
    try { if (g.dimension_input.get() > 0) { c.regression(std::vector<float>(x.begin(), x.begin() + g.dimension_input.get()), y); c.likelihood_input(x.data()); } } catch (std::exception const&) {}
    try { c.likelihood(x.data()); } catch (std::exception const&) {}
    try { c.updateInverseCovariance(); c.regularize(std::vector<double>(g.dimension.get(), 1.)); } catch (std::exception const&) {}
}
template <class T> void use(T& p) { T c(p); c = p; c.toJson(); }
template <class M> void filterOn(M& m, unsigned k) {
    unsigned d = m.shared_parameters->bimodal.get() ? m.shared_parameters->dimension_input.get() : m.shared_parameters->dimension.get();
    if (d > 1000) return;
    for (unsigned i = 0; i < k; i++) { try { m.filter(std::vector<float>(d, 0.5f + i)); } catch (std::exception const&) {} }
}

struct Base { virtual ~Base() {} virtual std::string read(Json::Value const& doc, Json::Value const& tgt) = 0; };
template <class T> struct Twin { // objects that have nothing that their document does not show
    static std::string play(T&) { return ""; }
    static void use_(T& x) { use(x); }
};
template <class M> struct ModelTwin {
    static std::string play(M& m) { // what the model answers, which depends on its past
        filterOn(m, 1); std::string s;
        for (double v : m.results.smoothed_normalized_likelihoods) s += f(v);
        for (double v : m.results.output_values) s += f(v);
        return s + m.results.likeliest;
    }
    static void use_(M& m) {
        M c(m); m.reset(); filterOn(m, 2); c = m; c.reset(); filterOn(c, 2); c.toJson();
        Json::Value j = m.toJson(); for (Json::Value const& x : j["models"]) { c.removeClass(x["label"].asString()); c.reset(); filterOn(c, 1); break; }
    }
};
template <> struct Twin<xmm::GMM> : ModelTwin<xmm::GMM> {};
template <> struct Twin<xmm::HierarchicalHMM> : ModelTwin<xmm::HierarchicalHMM> {};
template <class T> void prepare(T&) {}
template <> void prepare(xmm::GMM& m) { m.reset(); filterOn(m, 2); }
template <> void prepare(xmm::HierarchicalHMM& m) { m.reset(); filterOn(m, 2); }

template <class T> struct Reader : Base {
    std::string read(Json::Value const& doc, Json::Value const& tgt) override {
        O o; Json::Value made, after; bool c = false, fr = false;
        try { T x(doc); made = x.toJson(); c = true; o.k("c", "\"ok\"").k("cw", "true"); Twin<T>::use_(x); }
        catch (std::exception const& e) { if (c) throw; o.k("c", "\"no\"").k("cw", b(strlen(e.what()) > 3)); if (getenv("XD_WHAT")) fprintf(stderr, "%s\n", e.what()); }
        T x(tgt), twin(tgt);
        prepare(x); prepare(twin);
        std::string before = text(x.toJson());
        try { x.fromJson(doc); after = x.toJson(); fr = true; o.k("f", "\"ok\"").k("fw", "true").k("same", "false"); Twin<T>::use_(x); }
        catch (std::exception const& e) {
            if (fr) throw;
            bool same = text(x.toJson()) == before && Twin<T>::play(x) == Twin<T>::play(twin);
            o.k("f", "\"no\"").k("fw", b(strlen(e.what()) > 3)).k("same", b(same));
            Twin<T>::use_(x);
        }
        return o.k("agree", b(c && fr && text(made) == text(after))).k("after", tag(after)).str();
    }
};
struct JsonDriver : Driver {
    std::string state() override { return "0"; }
    std::string exec(J const& op) override {
        std::string t = op["ty"].s;
        std::unique_ptr<Base> r;
        if (t == "phrase") r.reset(new Reader<xmm::Phrase>);
        else if (t == "set") r.reset(new Reader<xmm::TrainingSet>);
        else if (t == "gauss") r.reset(new Reader<xmm::GaussianDistribution>);
        else if (t == "shared") r.reset(new Reader<xmm::SharedParameters>);
        else if (t == "pgmm") r.reset(new Reader<Par<xmm::GMM>>);
        else if (t == "phmm") r.reset(new Reader<Par<xmm::HMM>>);
        else if (t == "pkm") r.reset(new Reader<Par<xmm::KMeans>>);
        else if (t == "cgmm") r.reset(new Reader<xmm::Configuration<xmm::GMM>>);
        else if (t == "chmm") r.reset(new Reader<xmm::Configuration<xmm::HMM>>);
        else if (t == "ckm") r.reset(new Reader<xmm::Configuration<xmm::KMeans>>);
        else if (t == "gmm") r.reset(new Reader<xmm::GMM>);
        else if (t == "hmm") r.reset(new Reader<xmm::HierarchicalHMM>);
        else { fprintf(stderr, "unknown type\n"); _exit(97); }
        Json::Value doc = untag(op["doc"]), tgt = untag(op["tgt"]);
        return guard([&]() -> std::string { return r->read(doc, tgt); });
    }
};
int main(int c, char** v) { return run(c, v, [] { return new JsonDriver; }); }
