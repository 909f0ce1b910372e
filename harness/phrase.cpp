// Driver for spec/Phrase.tla
#include "xdrv.hpp"
#include "doc.hpp"
#include "xmmPhrase.hpp"
using namespace xd;
typedef std::vector<float> V;
static const int SLOTS = 3, BUFLEN = 12;

struct PhraseDriver : Driver {
    std::unique_ptr<xmm::Phrase> ph[SLOTS + 1];
    std::map<std::string, float*> buf; // external buffers, allocated exactly so that overruns show
    PhraseDriver() {
        buf["X"] = new float[BUFLEN]; buf["Y"] = new float[BUFLEN];
        for (int i = 0; i < BUFLEN; i++) { buf["X"][i] = (i + 1) * grain(); buf["Y"][i] = (101 + i) * grain(); }
    }
    ~PhraseDriver() {
        for (auto& p : ph) p.reset();
        delete[] buf["X"]; delete[] buf["Y"];
    }
    std::string frame(float const* p, unsigned w) { return arr(V(p, p + w), coarse); }
    std::string frames(xmm::Phrase const& p, bool out) {
        unsigned n = out ? p.outputSize() : p.bimodal() ? p.inputSize() : p.size();
        unsigned d0 = out ? p.dimension_input.get() : 0;
        unsigned d1 = p.bimodal() && !out ? p.dimension_input.get() : p.dimension.get();
        std::vector<long> idx;
        if (n <= 12) for (unsigned i = 1; i <= n; i++) idx.push_back(i);
        else for (long i : {1L, 2L, (long)n / 2, 255L, 256L, 257L, 258L, 512L, 513L, (long)n - 1, (long)n}) idx.push_back(i);
        return arr(idx, [&](long i) -> std::string {
            if (i < 1 || i > (long)n) return "[]";
            V v; for (unsigned d = d0; d < d1; d++) v.push_back(p.getValue(i - 1, d));
            return arr(v, coarse); });
    }
    std::string proj(xmm::Phrase const* p) {
        if (!p) return "{\"alive\":false}";
        std::vector<std::string> cols = p->column_names;
        if (cols.size() < p->dimension.get()) cols.resize(p->dimension.get());
        return O().k("alive", "true").k("own", b(p->ownMemory())).k("bi", b(p->bimodal())).k("dim", n(p->dimension.get()))
            .k("din", n(p->dimension_input.get())).k("label", q(p->label.get())).k("cols", sa(cols)).k("size", n(p->size()))
            .k("lin", n(p->inputSize())).k("lout", n(p->outputSize())).k("empty", b(p->empty()))
            .k("fin", frames(*p, false)).k("fout", p->bimodal() ? frames(*p, true) : "[]").str();
    }
    std::string state() override {
        std::string s = "[";
        for (int i = 1; i <= SLOTS; i++) s += (i > 1 ? "," : "") + proj(ph[i].get());
        return O().k("ph", s + "]").k("buf", O().k("X", frame(buf["X"], BUFLEN)).k("Y", frame(buf["Y"], BUFLEN)).str()).str();
    }
    std::string exec(J const& op) override {
        std::string o = op["o"].s;
        if (o == "poke") { buf[op["b"].s][op["i"].num() - 1] = op["x"].num() * grain(); return ok(); }
        auto& p = ph[op["p"].num()];
        auto& r = ph[op.has("q") ? op["q"].num() : 1];
        return guard([&]() -> std::string {
            if (o == "new") p.reset(new xmm::Phrase(op["own"].b ? xmm::MemoryMode::OwnMemory : xmm::MemoryMode::SharedMemory,
                                                    op["bi"].b ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal));
            else if (o == "copy") p.reset(new xmm::Phrase(*r));
            else if (o == "assign") *p = *r;
            else if (o == "del") p.reset();
            else if (o == "rec") p->record(fine(op["v"].floats()));
            else if (o == "recin") p->record_input(fine(op["v"].floats()));
            else if (o == "recout") p->record_output(fine(op["v"].floats()));
            else if (o == "fill" || o == "fillin" || o == "fillout") {
                unsigned dim = p->dimension.get(), din = p->dimension_input.get();
                if (o != "fill" && !p->bimodal()) { o == "fillin" ? p->record_input(V(1)) : p->record_output(V(1)); return "0"; }
                for (int i = 1; i <= op["n"].num(); i++) {
                    V v; unsigned w = o == "fill" ? dim : o == "fillin" ? din : dim - din;
                    for (unsigned d = 1; d <= w; d++) v.push_back((op["base"].num() + 10 * i + d) * grain());
                    if (o == "fill") p->record(v); else if (o == "fillin") p->record_input(v); else p->record_output(v);
                }
            }
            else if (o == "clear") p->clear();
            else if (o == "clearin") p->clearInput();
            else if (o == "clearout") p->clearOutput();
            else if (o == "setdim") p->dimension.set(op["d"].num());
            else if (o == "setdin") p->dimension_input.set(op["d"].num());
            else if (o == "label") p->label.set(rich(op["l"].s));
            else if (o == "cols") p->column_names = std::vector<std::string>(p->dimension.get(), rich(op["l"].s));
            else if (o == "get") return coarse(p->getValue(op["i"].num(), op["d"].num()));
            else if (o == "ptr") {
                std::string w = op["w"].s; unsigned i = op["i"].num();
                if (w == "all") return frame(p->getPointer(i), p->dimension.get());
                if (w == "in") { float* x = p->getPointer_input(i); return frame(x, p->dimension_input.get()); }
                float* x = p->getPointer_output(i);
                return frame(x, p->dimension.get() - p->dimension_input.get());
            }
            else if (o == "con") p->connect(buf[op["b"].s], op["n"].num());
            else if (o == "con2") p->connect(buf[op["b"].s], buf[op["c"].s], op["n"].num());
            else if (o == "conin") p->connect_input(buf[op["b"].s], op["n"].num());
            else if (o == "conout") p->connect_output(buf[op["b"].s], op["n"].num());
            else if (o == "discon") p->disconnect();
            else if (o == "stats") {
                V lo, hi; for (auto& m : p->minmax()) { lo.push_back(m.first); hi.push_back(m.second); }
                return O().k("mean", fa(p->mean())).k("std", fa(p->standardDeviation())).k("min", fia(lo)).k("max", fia(hi)).str();
            }
            else if (o == "rescale") p->rescale(op["off"].floats(), op["gain"].floats());
            else if (o == "json") { Json::Value j = r->toJson(); p->fromJson(reread(j)); same(unnamed(j), unnamed(p->toJson())); }
            else if (o == "jsonnew") { Json::Value j = r->toJson(); p.reset(new xmm::Phrase(reread(j))); same(unnamed(j), unnamed(p->toJson())); }
            else { fprintf(stderr, "unknown op %s\n", o.c_str()); _exit(97); }
            return "0";
        });
    }
};
int main(int c, char** v) { return run(c, v, [] { return new PhraseDriver; }); }
