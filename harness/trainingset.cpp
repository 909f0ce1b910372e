// Driver for spec/TrainingSet.tla
#include "xdrv.hpp"
#include "doc.hpp"
#include "xmmTrainingSet.hpp"
using namespace xd;
typedef std::vector<float> V;
static const int TS = 2, HS = 2;

struct SetDriver : Driver {
    std::unique_ptr<xmm::TrainingSet> ts[TS + 1];
    std::shared_ptr<xmm::Phrase> h[HS + 1];
    static std::vector<std::string> pad(std::vector<std::string> c, unsigned n) { if (c.size() < n) c.resize(n); return c; }
    std::string frames(xmm::Phrase const& p, bool out) {
        unsigned cnt = out ? p.outputSize() : p.bimodal() ? p.inputSize() : p.size();
        unsigned d0 = out ? p.dimension_input.get() : 0, d1 = p.bimodal() && !out ? p.dimension_input.get() : p.dimension.get();
        std::string s = "[";
        for (unsigned i = 0; i < cnt; i++) { V v; for (unsigned d = d0; d < d1; d++) v.push_back(p.getValue(i, d)); s += (i ? "," : "") + arr(v, coarse); }
        return s + "]";
    }
    std::string cell(xmm::Phrase const& p) {
        return O().k("label", q(p.label.get())).k("bi", b(p.bimodal())).k("dim", n(p.dimension.get())).k("din", n(p.dimension_input.get()))
            .k("cols", sa(pad(p.column_names, p.dimension.get()))).k("size", n(p.size()))
            .k("fin", frames(p, false)).k("fout", p.bimodal() ? frames(p, true) : "[]").str();
    }
    std::string set(xmm::TrainingSet* t) {
        if (!t) return "{\"alive\":false}";
        std::vector<int> idx, ridx; std::string phr = "[";
        for (auto it = t->begin(); it != t->end(); ++it) { phr += (idx.empty() ? "" : ",") + cell(*it->second); idx.push_back(it->first); }
        // the other iterators and the lookup have to agree with the first
        bool agree = true; size_t k = 0;
        for (auto it = t->rbegin(); it != t->rend(); ++it) ridx.insert(ridx.begin(), it->first);
        agree = agree && ridx == idx;
        for (auto it = t->cbegin(); it != t->cend(); ++it) agree = agree && k < idx.size() && it->first == idx[k++] && t->getPhrase(it->first) == it->second;
        agree = agree && k == idx.size();
        for (auto it = t->crbegin(); it != t->crend(); ++it) agree = agree && k > 0 && it->first == idx[--k];
        std::string cls = "["; bool first = true;
        for (auto const& l : t->labels()) {
            xmm::TrainingSet* c = t->getPhrasesOfClass(l);
            if (!c) { cls += std::string(first ? "" : ",") + "\"missing\""; first = false; continue; }
            std::vector<int> ci; bool same = true;
            for (auto& x : *c) { ci.push_back(x.first); same = same && t->getPhrase(x.first) == x.second; }
            cls += (first ? "" : ",") + O().k("l", q(l)).k("bi", b(c->bimodal())).k("dim", n(c->dimension.get())).k("din", n(c->dimension_input.get()))
                .k("cols", sa(c->column_names.get())).k("idx", arr(ci, [](int i) { return n(i); })).k("same", b(same)).str();
            first = false;
        }
        return O().k("alive", "true").k("bi", b(t->bimodal())).k("dim", n(t->dimension.get())).k("din", n(t->dimension_input.get()))
            .k("cols", sa(t->column_names.get())).k("size", n(t->size())).k("empty", b(t->empty()))
            .k("idx", agree ? arr(idx, [](int i) { return n(i); }) : "\"iterators disagree\"").k("phr", phr + "]")
            .k("labels", sa(std::vector<std::string>(t->labels().begin(), t->labels().end()))).k("cls", cls + "]").str();
    }
    std::string state() override {
        std::string s = "[", g = "[";
        for (int i = 1; i <= TS; i++) s += (i > 1 ? "," : "") + set(ts[i].get());
        for (int i = 1; i <= HS; i++) {
            if (!h[i]) { g += std::string(i > 1 ? "," : "") + "{\"held\":false}"; continue; }
            std::string at = "[";
            for (int t = 1; t <= TS; t++) {
                std::vector<int> w;
                if (ts[t]) for (auto& x : *ts[t]) if (x.second == h[i]) w.push_back(x.first);
                at += (t > 1 ? "," : "") + arr(w, [](int k) { return n(k); });
            }
            g += (i > 1 ? "," : "") + O().k("held", "true").k("ph", cell(*h[i])).k("at", at + "]").str();
        }
        return O().k("ts", s + "]").k("h", g + "]").str();
    }
    std::string exec(J const& op) override {
        std::string o = op["o"].s;
        auto& t = ts[op.has("t") ? op["t"].num() : 0];
        auto& u = ts[op.has("u") ? op["u"].num() : 0];
        auto& hk = h[op.has("k") ? op["k"].num() : 0];
        auto& hj = h[op.has("j") ? op["j"].num() : 0];
        int i = op.has("i") ? op["i"].num() : 0;
        return guard([&]() -> std::string {
            if (o == "new") t.reset(new xmm::TrainingSet(xmm::MemoryMode::OwnMemory, op["bi"].b ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal));
            else if (o == "copy") t.reset(new xmm::TrainingSet(*u));
            else if (o == "assign") *t = *u;
            else if (o == "json") { Json::Value j = u->toJson(); t->fromJson(reread(j)); same(inSet(j), inSet(t->toJson())); }
            else if (o == "jsonnew") { Json::Value j = u->toJson(); t.reset(new xmm::TrainingSet(reread(j))); same(inSet(j), inSet(t->toJson())); }
            else if (o == "del") t.reset();
            else if (o == "clear") t->clear();
            else if (o == "add") t->addPhrase(i, rich(op["l"].s));
            else if (o == "addcopy") t->addPhrase(i, *hk);
            else if (o == "addptr") t->addPhrase(i, hk);
            else if (o == "rm") t->removePhrase(i);
            else if (o == "rmclass") t->removePhrasesOfClass(rich(op["l"].s));
            else if (o == "rmfirst") { if (!t->labels().empty()) t->removePhrasesOfClass(*t->labels().begin()); }
            else if (o == "hget") hk = t->getPhrase(i);
            else if (o == "hnew") {
                hk = std::make_shared<xmm::Phrase>(xmm::MemoryMode::OwnMemory, t->bimodal() ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
                hk->dimension.set(t->dimension.get()); hk->dimension_input.set(t->dimension_input.get()); hk->label.set(rich(op["l"].s));
            }
            else if (o == "hdrop") hk.reset();
            else if (o == "hlabel") hk->label.set(rich(op["l"].s));
            else if (o == "hassign") *hk = *hj;
            else if (o == "hjson") { Json::Value j = hj->toJson(); hk->fromJson(reread(j)); same(unnamed(j), unnamed(hk->toJson())); }
            else if (o == "plabel" || o == "rec" || o == "recin" || o == "recout") {
                auto p = t->getPhrase(i);
                if (!p) return "\"none\"";
                if (o == "plabel") p->label.set(rich(op["l"].s));
                else if (o == "rec") p->record(fine(op["v"].floats()));
                else if (o == "recin") p->record_input(fine(op["v"].floats()));
                else p->record_output(fine(op["v"].floats()));
            }
            else if (o == "tdim") t->dimension.set(op["d"].num());
            else if (o == "tdin") t->dimension_input.set(op["d"].num());
            else if (o == "tcols") t->column_names.set(rich(op["c"].strs()));
            else if (o == "getp") return b(t->getPhrase(i) != nullptr);
            else if (o == "getc") return b(t->getPhrasesOfClass(rich(op["l"].s)) != nullptr);
            else if (o == "stats") {
                V lo, hi; for (auto& m : t->minmax()) { lo.push_back(m.first); hi.push_back(m.second); }
                return O().k("mean", fa(t->mean())).k("std", fa(t->standardDeviation())).k("min", fia(lo)).k("max", fia(hi)).str();
            }
            else if (o == "norm") {
                xmm::TrainingSet c(*t); c.normalize();
                std::string s = "["; bool first = true;
                for (auto& p : c) for (unsigned k = 0; k < p.second->size(); k++) {
                    V v; for (unsigned d = 0; d < c.dimension.get(); d++) v.push_back(p.second->getValue(k, d));
                    s += (first ? "" : ",") + fa(v); first = false; }
                return s + "]";
            }
            else if (o == "rescale") t->rescale(op["off"].floats(), op["gain"].floats());
            else { fprintf(stderr, "unknown op %s\n", o.c_str()); _exit(97); }
            return "0";
        });
    }
};
int main(int c, char** v) { return run(c, v, [] { return new SetDriver; }); }
