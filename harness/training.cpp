// Driver for spec/Training.tla: training in threads under a scheduler.
// The first operation of a script says which schedules it is run under; every
// schedule is a run of its own (a child process); runs that look the same from
// outside are recorded once.
#include "params.hpp"
#include "sched.hpp"
#include "xmmGmm.hpp"
#include "xmmHierarchicalHmm.hpp"
#include <condition_variable>
#include <mutex>
#include <set>
#include <thread>
using namespace xd;
static std::vector<J> SETS;
static const std::vector<std::string> LAB = {"", "a", "b", "c d"};
struct Hash {
    unsigned long long h = 1469598103934665603ULL;
    void bytes(void const* p, size_t n) { for (size_t i = 0; i < n; i++) h = (h ^ ((unsigned char const*)p)[i]) * 1099511628211ULL; }
    template <class T> void vec(std::vector<T> const& v) { size_t n = v.size(); bytes(&n, sizeof n); for (T x : v) { x += 0; bytes(&x, sizeof x); } }
    std::string str() { char b[32]; snprintf(b, 32, "h%016llx", h); return b; }
};
static void mix(Hash& h, xmm::SingleClassGMM const& g) { h.vec(g.mixture_coeffs); for (auto& c : g.components) { h.vec(c.mean); h.vec(c.covariance); } }
static std::string hashOf(xmm::SingleClassGMM const& g) { Hash h; mix(h, g); return h.str(); }
// decoding a class on its own closes its chain of states into a cycle: the transitions then depend on what was decoded
static bool hier = true;
static std::string hashOf(xmm::SingleClassHMM const& m) { Hash h; h.vec(m.prior); if (hier) h.vec(m.transition); for (auto& s : m.states) mix(h, s); return h.str(); }
static const char* NAMES[] = {"run", "error", "cancel", "done", "alldone"};
static int statusOf(std::string const& s) { for (int i = 0; i < 5; i++) if (s == NAMES[i]) return i; return -1; }
static void line(std::string const& op, std::string const& r, std::string const& s) { std::string l = "{\"op\":" + op + ",\"r\":" + r + ",\"s\":" + s + "}"; sc::log(l.data(), l.size()); }

struct Any { virtual ~Any() {} virtual std::string exec(J const& op, const char* who) = 0; };
template <class M> struct Run : Any {
    std::unique_ptr<M> m; M* self; std::vector<J> const& ops;
    std::vector<std::shared_ptr<xmm::TrainingSet>> sets;
    std::mutex mx; std::condition_variable cv; int alldones = 0;
    bool bi;
    Run(std::vector<J> const& o, J const& conf) : ops(o) {
        for (auto& j : SETS) {
            auto t = std::make_shared<xmm::TrainingSet>(xmm::MemoryMode::OwnMemory, j["bi"].b ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
            t->dimension.set(j["dim"].num()); if (j["bi"].b) t->dimension_input.set(j["din"].num());
            for (auto& p : j["phr"].a) { t->addPhrase(p["i"].num(), p["l"].s); auto ph = t->getPhrase(p["i"].num()); for (auto& x : p["f"].a) ph->record(x.floats()); }
            sets.push_back(t);
        }
        bi = conf["bi"].b; m.reset(new M(bi)); configure(*m, conf); self = m.get();
    }
    static void configure(M& m, J const& c) {
        m.shared_parameters->em_algorithm_min_iterations.set(c["emin"].num()); m.shared_parameters->em_algorithm_max_iterations.set(c["emax"].num());
        m.configuration.multithreading = (xmm::MultithreadingMode)c["mt"].num(); conf1(m, c);
    }
    static void conf1(xmm::GMM& m, J const& c) { m.configuration.gaussians.set(c["n"].num()); }
    static void conf1(xmm::HierarchicalHMM& m, J const& c) { m.configuration.states.set(c["n"].num()); m.configuration.hierarchical.set(c["hier"].b); }
    xmm::TrainingSet* set(int k) { return k ? sets.at(k - 1).get() : nullptr; }
    // what training alone, one class after the other, gives
    std::string ref(J const& conf) {
        std::string s = "[";
        for (size_t k = 0; k < sets.size(); k++) {
            M x(bi); configure(x, conf); x.configuration.multithreading = xmm::MultithreadingMode::Sequential;
            std::string t;
            try { x.train(sets[k].get()); for (auto& c : x.models) t += (t.empty() ? "" : ",") + q(c.first) + ":" + q(hashOf(c.second)); } catch (std::exception const&) {}
            s += (k ? "," : "") + ("{\"none\":\"\"" + (t.empty() ? "" : "," + t) + "}");
        }
        return s + "]";
    }
    std::string rest() {
        if (!m) return "{\"rest\":false}";
        if (m->training()) return "{\"rest\":false}";
        O o; o.k("rest", "true").k("trained", b(m->trained())).k("size", n(m->size()));
        std::string c = "[";
        for (auto& l : LAB) c += (l == LAB[0] ? "" : ",") + (m->hasClass(l) ? q(hashOf(m->models.at(l))) : std::string("\"\""));
        return o.k("cls", c + "]").str();
    }
    void on(xmm::TrainingEvent const& e) {
        bool all = e.status == xmm::TrainingEvent::Status::Alldone;
        int c = sc::counter((int)e.status, 1);
        J const* act = nullptr;
        for (auto& x : ops) if (x["o"].s == "on" && statusOf(x["st"].s) == (int)e.status && (all || x["l"].s == e.label || x["l"].s == "*") && x["n"].num() == c) act = &x;
        std::string h;
        // the numbers of a class that is done are final
        if (e.status == xmm::TrainingEvent::Status::Done) { auto it = self->models.find(e.label); h = it == self->models.end() ? "?" : hashOf(it->second); }
        line(O().k("o", "\"ev\"").k("l", q(e.label)).k("st", q(NAMES[e.status])).str(), O().k("it", fi(e.iterations)).k("mine", b(e.model == (void*)self)).k("h", q(h)).str(), "0");
        if (act) exec((*act)["act"], all ? "a" : "w");
        line("{\"o\":\"fin\",\"l\":" + q(e.label) + ",\"st\":" + q(NAMES[e.status]) + "}", "0", "0");
        if (all) { std::lock_guard<std::mutex> lock(mx); alldones++; cv.notify_all(); }
    }
    void listen() { m->training_events.addListener(this, &Run::on); }
    std::vector<float> frame() { return std::vector<float>(bi ? self->shared_parameters->dimension_input.get() : self->shared_parameters->dimension.get(), 0.5f); }
    std::string exec(J const& op, const char* who) override {
        std::string o = op["o"].s, w = q(who), text = "{\"o\":" + q(o);
        for (auto& f : op.o) if (f.first != "o") text += "," + q(f.first) + ":" + (f.second.t == J::Str ? q(f.second.s) : n(f.second.num()));
        text += "}";
        line("{\"o\":\"call\",\"by\":" + w + ",\"op\":" + text + "}", "0", "0");
        std::string r = guard([&]() -> std::string {
            if (o == "train") self->train(set(op["k"].num()));
            else if (o == "train1") self->train(set(op["k"].num()), op["l"].s);
            else if (o == "cancel") self->cancelTraining();
            else if (o == "cancel1") self->cancelTraining(op["l"].s);
            else if (o == "rm") self->removeClass(op["l"].s);
            else if (o == "clear") self->clear();
            else if (o == "reset") self->reset();
            else if (o == "filter") { self->filter(frame()); auto& R = self->results; bool ok = R.instant_likelihoods.size() == R.smoothed_likelihoods.size() && R.smoothed_likelihoods.size() == R.smoothed_normalized_likelihoods.size() && R.smoothed_log_likelihoods.size() == R.smoothed_likelihoods.size() && (!bi || R.smoothed_likelihoods.empty() || R.output_values.size() == self->shared_parameters->dimension.get() - self->shared_parameters->dimension_input.get()); return ok ? n(R.smoothed_likelihoods.size()) : n(-1); }
            else if (o == "poll") return n(self->training());
            else if (o == "mt") self->configuration.multithreading = (xmm::MultithreadingMode)op["v"].num();
            else if (o == "wait") { while (self->training()) usleep(100); }
            else if (o == "waitdone") { std::unique_lock<std::mutex> lock(mx); while (alldones < op["n"].num()) cv.wait(lock); }
            else if (o == "copy") { M c(*self); return n(c.size()); }
            else if (o == "into") { M c(bi); configure(c, ops[0]); *self = c; self->training_events.removeListeners(); listen(); }
            else if (o == "json") self->toJson();
            else if (o == "load") { M c(bi); configure(c, ops[0]); Json::Value j = c.toJson(); self->fromJson(j); }
            else if (o == "del") { m.reset(); }
            else { fprintf(stderr, "unknown op %s\n", o.c_str()); _exit(97); }
            return "0";
        });
        bool busy = false; for (auto& x : ops) busy = busy || (x["o"].s == "on" && x["st"].s == "alldone"); // a listener may be using the model
        std::string s = !strcmp(who, "c") && (!busy || o == "waitdone") && (o == "wait" || o == "waitdone" || o == "cancel" || o == "clear" || o == "filter" || o == "train") ? rest() : "{\"rest\":false}";
        line("{\"o\":\"ret\",\"by\":" + w + ",\"op\":" + text + "}", r, s);
        return r;
    }
};
template <class M> static void once(std::vector<J> const& ops, J const& conf, sc::Policy const& p, std::string const& ref, std::string const& text) {
    Run<M> run(ops, conf); run.listen();
    line("{\"o\":\"Again\",\"conf\":" + text + "}", "0", ref);
    sc::begin(p);
    for (auto& o : ops) if (o["o"].s != "on" && o["o"].s != "sched") run.exec(o, "c");
    if (run.m) { J d; d.t = J::Obj; d.o["o"].t = J::Str; d.o["o"].s = "del"; run.exec(d, "c"); }
    sc::end();
}
// all runs of a script, until one does not end
template <class M> static void child(std::vector<J> const& ops, FILE* out, std::string const& text) {
    sc::Shared* S = sc::shared(); J const& c = ops[0];
    std::set<std::string> seen; std::vector<unsigned char> prefix; int runs = c["runs"].num(); bool complete = false; std::string pol = c["policy"].s;
    hier = c["hier"].b;
    std::string ref; { Run<M> r(ops, c); ref = "{\"ref\":" + r.ref(c) + "}"; }
    while (S->done < runs && !complete) {
        sc::Policy p; memset(&p, 0, sizeof p);
        unsigned seed = c["seed"].num() + S->done;
        if (pol == "list") { p.kind = sc::List; p.list = prefix.data(); p.nlist = prefix.size(); }
        else if (pol == "prio" || (pol == "mixed" && S->done % 2)) { p.kind = sc::Priorities; p.changes = 1 + seed % 5; p.length = 40 + 60 * (seed % 7); p.spurious = seed % 5 == 0; }
        else { p.kind = sc::Random; static const int pm[] = {1000, 500, 200, 60, 20}; p.permille = pm[seed % 5]; p.spurious = seed % 7 == 0; }
        p.seed = seed;
        sc::reset(); alarm(20);
        once<M>(ops, c, p, ref, text);
        alarm(0);
        S->done = S->done + 1; S->total = S->total + S->steps; if (S->nchoices > S->deep) S->deep = S->nchoices;
        std::string log((const char*)S->log, (size_t)S->nlog);
        if (seen.insert(log).second) { fwrite(log.data(), 1, log.size(), out); fflush(out); S->different = S->different + 1; }
        if (S->verdict == 4) break; // taken off the leash: slow, and not repeatable
        if (pol == "list") { // the next schedule, depth first, with at most so many preemptions
            int d = S->nchoices - 1, bound = c["pre"].num();
            std::vector<unsigned char> next;
            for (; d >= 0; d--) {
                int before = d ? S->choices[d - 1].preempts : 0;
                if (S->choices[d].taken + 1 < S->choices[d].options && (!S->choices[d].could || before < bound)) { for (int i = 0; i < d; i++) next.push_back(S->choices[i].taken); next.push_back(S->choices[d].taken + 1); break; }
            }
            if (d < 0) complete = true;
            prefix = next;
        }
    }
    fprintf(out, "{\"op\":{\"o\":\"End\",\"runs\":%d,\"different\":%d,\"complete\":%d,\"steps\":%ld,\"choices\":%d},\"r\":0,\"s\":0}\n", S->done, S->different, complete, S->total, S->deep);
    fflush(out);
}
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::ifstream in(argv[1]); std::string l; std::vector<std::vector<std::string>> scripts(1);
    while (std::getline(in, l)) { if (l == "---") scripts.push_back({}); else if (!l.empty()) scripts.back().push_back(l); }
    if (scripts.back().empty()) scripts.pop_back();
    { std::ifstream s(getenv("XD_SETS") ? getenv("XD_SETS") : ""); while (std::getline(s, l)) SETS.push_back(parse(l)); }
    FILE* out = fopen(argv[2], "a"); if (!out) return 2;
    sc::Shared* S = sc::shared();
    for (auto& s : scripts) {
        std::vector<J> ops; for (auto& x : s) ops.push_back(parse(x));
        fprintf(out, "{\"op\":{\"o\":\"Begin\"},\"r\":0,\"s\":0}\n"); fflush(out);
        sc::reset(); S->done = 0; S->total = 0; S->deep = 0; S->different = 0;
        pid_t pid = fork();
        if (pid == 0) { if (ops.at(0)["kind"].s == "gmm") child<xmm::GMM>(ops, out, s[0]); else child<xmm::HierarchicalHMM>(ops, out, s[0]); fflush(out); _exit(0); }
        int st = 0; waitpid(pid, &st, 0);
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 96)) return 3;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        // the run that did not end
        std::string how = S->verdict == 1 ? "deadlock" : S->verdict == 2 ? "no progress" : WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "timeout" : "signal") : "sanitizer";
        std::string log((const char*)S->log, (size_t)S->nlog);
        log += "{\"op\":{\"o\":\"Crash\",\"how\":\"" + how + "\"},\"r\":0,\"s\":0}\n";
        fwrite(log.data(), 1, log.size(), out); fflush(out);
    }
    fclose(out);
    return 0;
}
