// Driver for spec/Model.tla: mixtures and hierarchical hidden Markov models.
// Training sets come from the file named by XD_SETS (the one the specification reads).
#include "params.hpp"
#include "xmmGmm.hpp"
#include "xmmHierarchicalHmm.hpp"
#include <condition_variable>
#include <mutex>
using namespace xd;
static std::vector<std::string> LAB = {"", "a", "b", "c d"};
static std::vector<J> SETS;

struct Hash {
    unsigned long long h = 1469598103934665603ULL;
    void bytes(void const* p, size_t n) { for (size_t i = 0; i < n; i++) h = (h ^ ((unsigned char const*)p)[i]) * 1099511628211ULL; }
    template <class T> void vec(std::vector<T> const& v) { size_t n = v.size(); bytes(&n, sizeof n); for (T x : v) { x += 0; bytes(&x, sizeof x); } }
    std::string str() { char b[32]; snprintf(b, 32, "\"h%016llx\"", h); return b; }
};
static void hashMix(Hash& h, xmm::SingleClassGMM const& g) {
    h.vec(g.mixture_coeffs);
    for (auto& c : g.components) { h.vec(c.mean); h.vec(c.covariance); }
}
static std::string mix(xmm::SingleClassGMM const& g) {
    std::string s = "[";
    for (size_t c = 0; c < g.components.size(); c++)
        s += (c ? "," : "") + O().k("w", f(g.mixture_coeffs.at(c))).k("m", fa(g.components[c].mean)).k("c", fa(g.components[c].covariance)).str();
    return s + "]";
}
// numbers of a class: prior, transitions, one mixture per state
static std::string numbers(xmm::SingleClassGMM const& g) { return "{\"pri\":[],\"tr\":[],\"st\":[" + mix(g) + "]}"; }
static std::string numbers(xmm::SingleClassHMM const& m) {
    std::string s = "{\"pri\":" + fa(m.prior) + ",\"tr\":" + fa(m.transition) + ",\"st\":[";
    for (size_t i = 0; i < m.states.size(); i++) s += (i ? "," : "") + mix(m.states[i]);
    return s + "]}";
}
static std::string hashOf(xmm::SingleClassGMM const& g) { Hash h; hashMix(h, g); return h.str(); }
static std::string hashOf(xmm::SingleClassHMM const& m) { Hash h; h.vec(m.prior); for (auto& s : m.states) hashMix(h, s); return h.str(); }
static std::string exits(xmm::SingleClassGMM const&) { return "[]"; }
static std::string exits(xmm::SingleClassHMM const& m) {
    Json::Value j = m.toJson()["exitProbabilities"]; std::vector<float> v;
    for (auto const& x : j) v.push_back(x.asFloat());
    return fa(v);
}
static std::string trans(xmm::SingleClassGMM const&) { return "[]"; }
static std::string trans(xmm::SingleClassHMM const& m) { return fa(m.transition); }
static std::string hp(xmm::GMM const&) { return "{\"prior\":[],\"trans\":[],\"exit\":[]}"; }
static std::string hp(xmm::HierarchicalHMM const& m) {
    return O().k("prior", fa(m.prior)).k("trans", arr(m.transition, [](std::vector<double> const& v) { return fa(v); })).k("exit", fa(m.exit_transition)).str();
}
static std::string result(xmm::GMM&, xmm::SingleClassGMM const& c, bool bi) {
    O o; o.k("inst", f(c.results.instant_likelihood)).k("ll", f(c.results.log_likelihood)).k("beta", fa(c.beta));
    if (bi) o.k("out", fa(c.results.output_values)).k("ocov", fa(c.results.output_covariance)); else o.k("out", "[]").k("ocov", "[]");
    return o.str();
}
static std::string result(xmm::HierarchicalHMM& m, xmm::SingleClassHMM const& c, bool bi) {
    bool h = m.configuration.hierarchical.get();
    O o; o.k("inst", f(c.results.instant_likelihood)).k("ll", f(c.results.log_likelihood)).k("ls", n((long long)c.results.likeliest_state + 1)).k("prog", f(c.results.progress));
    o.k("xl", h ? f(c.results.exit_likelihood) : "\"0\"").k("xr", h ? f(c.results.exit_ratio) : "\"0\"");
    o.k("a", h ? std::string("[]") : fa(c.alpha));
    o.k("ah", h ? "[" + fa(c.alpha_h[0]) + "," + fa(c.alpha_h[1]) + "," + fa(c.alpha_h[2]) + "]" : std::string("[]"));
    if (bi) o.k("out", fa(c.results.output_values)).k("ocov", fa(c.results.output_covariance)); else o.k("out", "[]").k("ocov", "[]");
    return o.str();
}
static bool exitpoint(xmm::GMM&, int, float) { return false; }
static bool exitpoint(xmm::HierarchicalHMM& m, int s, float p) { m.addExitPoint(s, p); return true; }
static void hset(xmm::GMM&, std::string const&, J const&) {}
static void hset(xmm::HierarchicalHMM& m, std::string const& w, J const& v) {
    std::vector<double> x; for (auto& e : v.a) x.push_back(e.real());
    if (w == "prior") m.prior = x; else if (w == "exit") m.exit_transition = x;
    else { m.transition.clear(); for (auto& r : v.a) { std::vector<double> y; for (auto& e : r.a) y.push_back(e.real()); m.transition.push_back(y); } }
}

struct Base {
    virtual ~Base() {}
    virtual Base* copy() = 0; virtual void assign(Base*) = 0; virtual Json::Value json() = 0; virtual void load(Json::Value const&) = 0; virtual Base* make(Json::Value const&) = 0;
    virtual void sset(std::string const&, J const&) = 0; virtual void dset(int, J const&) = 0; virtual void cset(std::string const&, int, J const&) = 0;
    virtual void creset() = 0; virtual void creset1(std::string const&) = 0; virtual void mt(int) = 0; virtual void est(int) = 0;
    virtual std::string train(xmm::TrainingSet*, std::string const*, bool snap, bool expected) = 0;
    virtual void rm(std::string const&) = 0; virtual void through(std::string const&) = 0; virtual void clear() = 0; virtual void reset() = 0; virtual std::string filter(std::vector<float> const&) = 0;
    virtual std::string query() = 0; virtual void hset(std::string const&, J const&) = 0; virtual void exitp(int, float) = 0; virtual std::string proj() = 0;
};
struct Ev { std::string l; int st; double it; float pr; double ll; std::string num, hash; bool mine; };

template <class M> struct Slot : Base {
    M m; std::string kind;
    std::mutex mx; std::condition_variable cv; std::vector<Ev> evs; bool done = false; bool recording = false;
    void on(xmm::TrainingEvent const& e) {
        std::lock_guard<std::mutex> lock(mx);
        Ev x; x.l = e.label; x.st = e.status; x.it = e.iterations; x.pr = e.progression; x.ll = e.log_likelihood; x.mine = e.model == (void*)&m;
        if ((e.status == xmm::TrainingEvent::Run && recording) || e.status == xmm::TrainingEvent::Done) { auto it = m.models.find(e.label); if (it != m.models.end()) { x.num = numbers(it->second); x.hash = hashOf(it->second); } }
        evs.push_back(x);
        if (e.status == xmm::TrainingEvent::Alldone) { done = true; cv.notify_all(); }
    }
    Slot(std::string k, bool bi) : m(bi), kind(k) { listen(); }
    Slot(Slot const& o) : m(o.m), kind(o.kind) { listen(); }
    Slot(Json::Value const& j, std::string k) : m(j), kind(k) { listen(); }
    void listen() { m.training_events.removeListeners(); m.training_events.addListener(this, &Slot::on); }
    Base* copy() override { return new Slot(*this); }
    void assign(Base* o) override { m = static_cast<Slot*>(o)->m; listen(); }
    Json::Value json() override { return m.toJson(); }
    void load(Json::Value const& j) override { m.fromJson(j); }
    Base* make(Json::Value const& j) override { return new Slot(j, kind); }
    void sset(std::string const& w, J const& v) override { setShared(m.shared_parameters.get(), w, v); }
    void dset(int w, J const& v) override { P<typename Conf<M>::T>::set(m.configuration, w, v); }
    void cset(std::string const& l, int w, J const& v) override { P<typename Conf<M>::T>::set(m.configuration[l], w, v); }
    template <class X, class D = void> struct Conf { typedef X T; };
    template <class D> struct Conf<xmm::HierarchicalHMM, D> { typedef xmm::HMM T; };
    void creset() override { m.configuration.reset(); }
    void creset1(std::string const& l) override { m.configuration.reset(l); }
    void mt(int v) override { m.configuration.multithreading = (xmm::MultithreadingMode)v; }
    void est(int v) override { m.configuration.multiClass_regression_estimator = (xmm::MultiClassRegressionEstimator)v; }
    std::string train(xmm::TrainingSet* ts, std::string const* l, bool snap, bool expected) override {
        { std::lock_guard<std::mutex> lock(mx); evs.clear(); done = false; recording = snap; }
        if (l) m.train(ts, *l); else m.train(ts);
        if (expected) { std::unique_lock<std::mutex> lock(mx); cv.wait_for(lock, std::chrono::seconds(12), [&] { return done; }); }
        usleep(expected && m.configuration.multithreading == xmm::MultithreadingMode::Background ? 2000 : 0);
        std::lock_guard<std::mutex> lock(mx); recording = false;
        // of the snapshots, the first four and the last two of every class are kept
        std::map<std::string, int> total, seen;
        for (auto& e : evs) if (e.st == xmm::TrainingEvent::Run) total[e.l]++;
        std::string s = "[";
        for (size_t i = 0; i < evs.size(); i++) {
            Ev& e = evs[i]; bool keep = e.st == xmm::TrainingEvent::Done && e.num.size();
            if (e.st == xmm::TrainingEvent::Run && e.num.size()) { int k = ++seen[e.l]; keep = k <= 4 || k > total[e.l] - 2; }
            static const char* names[] = {"run", "error", "cancel", "done", "alldone"};
            O o; o.k("l", q(e.l)).k("st", q(names[e.st])).k("it", fi(e.it)).k("pr", f(e.pr)).k("ll", f(e.ll)).k("mine", b(e.mine)).k("has", b(keep));
            if (keep) o.k("num", e.num).k("hash", e.hash);
            s += (i ? "," : "") + o.str();
        }
        return s + "]";
    }
    void through(std::string const& l) override {
        if (!m.models.count(l)) return;
        typedef typename std::decay<decltype(m.models.begin()->second)>::type C;
        C a(m.models.at(l)), other(m.models.begin()->second);
        C fresh(m.shared_parameters); other = a; fresh = other;
        same(a.toJson(), fresh.toJson()); same(a.toJson(), C(fresh).toJson());
        m.models.at(l) = fresh;
        m.reset();
    }
    void rm(std::string const& l) override { m.removeClass(l); }
    void clear() override { m.clear(); }
    void reset() override { m.reset(); }
    std::string filter(std::vector<float> const& x) override {
        std::vector<float> exact(x); exact.shrink_to_fit();
        m.filter(exact);
        if (m.size() == 0) return "0";
        bool bi = m.shared_parameters->bimodal.get();
        std::string s = "["; bool first = true;
        for (auto& c : m.models) { s += (first ? "" : ",") + result(m, c.second, bi); first = false; }
        O o; o.k("cls", s + "]").k("inst", fa(m.results.instant_likelihoods)).k("instn", fa(m.results.instant_normalized_likelihoods)).k("sm", fa(m.results.smoothed_likelihoods))
            .k("smn", fa(m.results.smoothed_normalized_likelihoods)).k("sml", fa(m.results.smoothed_log_likelihoods)).k("likeliest", q(m.results.likeliest));
        if (bi) o.k("out", fa(m.results.output_values)).k("ocov", fa(m.results.output_covariance)); else o.k("out", "[]").k("ocov", "[]");
        return o.str();
    }
    std::string query() override {
        return O().k("size", n(m.size())).k("has", arr(rich(LAB), [&](std::string const& l) { return b(m.hasClass(l)); })).k("at", arr(rich(LAB), [&](std::string const& l) { return n(m.getIndex(l)); }))
            .k("tr", b(m.trained())).k("busy", b(m.training())).str();
    }
    void hset(std::string const& w, J const& v) override { ::hset(m, w, v); }
    void exitp(int s, float p) override { exitpoint(m, s, p); }
    std::string proj() override {
        std::string inc = "[", cc = "[", cls = "["; bool first = true;
        for (auto l : rich(LAB)) if (m.configuration.includes(l)) { inc += (first ? "" : ",") + q(l); cc += (first ? "" : ",") + all(m.configuration[l]); first = false; }
        first = true;
        for (auto& c : m.models) {
            // a class and its states use the settings of the model
            bool shares = c.second.shared_parameters == m.shared_parameters && c.first == c.second.label && !c.second.isTraining();
            cls += (first ? "" : ",") + O().k("l", q(c.first)).k("par", all(c.second.parameters)).k("tr", trans(c.second)).k("exitp", exits(c.second)).k("hash", hashOf(c.second)).k("own", b(shares)).str(); first = false;
        }
        return O().k("alive", "true").k("kind", q(kind)).k("sh", shared(m.shared_parameters.get()))
            .k("cf", O().k("d", all(m.configuration)).k("mt", n((int)m.configuration.multithreading)).k("est", n((int)m.configuration.multiClass_regression_estimator)).k("inc", inc + "]").k("cls", cc + "]").str())
            .k("cls", cls + "]").k("hp", hp(m)).str();
    }
};
struct ModelDriver : Driver {
    std::unique_ptr<Base> s[4];
    int count = 2;
    std::vector<std::unique_ptr<xmm::TrainingSet>> sets;
    ModelDriver() {
        if (getenv("XD_SLOTS")) count = atoi(getenv("XD_SLOTS"));
        for (auto& j : SETS) {
            bool bi = j["bi"].b;
            auto* t = new xmm::TrainingSet(xmm::MemoryMode::OwnMemory, bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
            t->dimension.set(j["dim"].num()); if (bi) t->dimension_input.set(j["din"].num()); t->column_names.set(rich(j["cols"].strs()));
            for (auto& p : j["phr"].a) {
                t->addPhrase(p["i"].num(), rich(p["l"].s)); auto ph = t->getPhrase(p["i"].num());
                for (auto& x : p["f"].a) ph->record(x.floats());
            }
            sets.emplace_back(t);
        }
    }
    std::string state() override {
        std::string a = "["; for (int i = 1; i <= count; i++) a += (i > 1 ? "," : "") + (s[i] ? s[i]->proj() : std::string("{\"alive\":false}"));
        return a + "]";
    }
    std::string exec(J const& op) override {
        std::string o = op["o"].s;
        auto& M = s[op["s"].num()]; auto& U = s[op.has("u") ? op["u"].num() : 0];
        return guard([&]() -> std::string {
            if (o == "mnew") { if (op["k"].s == "gmm") M.reset(new Slot<xmm::GMM>("gmm", op["bi"].b)); else M.reset(new Slot<xmm::HierarchicalHMM>("hmm", op["bi"].b)); }
            else if (o == "mdel") M.reset();
            else if (o == "mcopy") M.reset(U->copy());
            else if (o == "massign") M->assign(U.get());
            else if (o == "mjson") { Json::Value j = U->json(); M->load(j); same(j, M->json()); }
            else if (o == "mjsonnew") { Json::Value j = U->json(); M.reset(U->make(reread(j))); same(j, M->json()); }
            else if (o == "sset") M->sset(op["f"].s, op["v"]);
            else if (o == "dset") M->dset(op["f"].num(), op["v"]);
            else if (o == "cset") M->cset(rich(op["l"].s), op["f"].num(), op["v"]);
            else if (o == "creset") M->creset();
            else if (o == "creset1") M->creset1(rich(op["l"].s));
            else if (o == "mt") M->mt(op["v"].num());
            else if (o == "est") M->est(op["v"].num());
            else if (o == "train" || o == "train1") {
                int k = op["set"].num(); xmm::TrainingSet* t = k ? sets.at(k - 1).get() : nullptr;
                std::string l = o == "train1" ? rich(op["l"].s) : std::string();
                return M->train(t, o == "train1" ? &l : nullptr, op["snap"].b, t && t->size() > 0);
            }
            else if (o == "through") M->through(rich(op["l"].s));
            else if (o == "rm") M->rm(rich(op["l"].s));
            else if (o == "clear") M->clear();
            else if (o == "reset") M->reset();
            else if (o == "filter") return M->filter(op["x"].floats());
            else if (o == "q") return M->query();
            else if (o == "hset") M->hset(op["f"].s, op["v"]);
            else if (o == "exitp") M->exitp(op["n"].num(), (float)op["p"].real());
            else { fprintf(stderr, "unknown op %s\n", o.c_str()); _exit(97); }
            return "0";
        });
    }
};
int main(int c, char** v) {
    std::ifstream in(getenv("XD_SETS") ? getenv("XD_SETS") : "/dev/null"); std::string line;
    while (std::getline(in, line)) if (!line.empty()) SETS.push_back(parse(line));
    return run(c, v, [] { return new ModelDriver; }, 60);
}
