// Driver for spec/Attribute.tla
#include "xdrv.hpp"
#include "xmmAttribute.hpp"
using namespace xd;
static const int NS = 3, NO = 2;
struct AttrDriver;
static AttrDriver* D = nullptr;
struct Observer { int id; void changed(xmm::AttributeBase* a); };

// ------------------------------------------------------- values of each type
template <class T> struct V {
    static T in(J const& j) { return (T)(std::is_floating_point<T>::value ? j.real() : (double)strtoll(j.s.c_str(), 0, 10)); }
    static std::string out(T x) { return std::is_floating_point<T>::value ? f((double)x) : q(std::to_string((long long)x)); }
};
template <> struct V<long> { static long in(J const& j) { return strtoll(j.s.c_str(), 0, 10); } static std::string out(long x) { return q(std::to_string(x)); } };
template <> struct V<bool> { static bool in(J const& j) { return j.s == "1"; } static std::string out(bool x) { return q(x ? "1" : "0"); } };
template <> struct V<std::string> { static std::string in(J const& j) { return j.s; } static std::string out(std::string const& x) { return q(x); } };
template <class E> struct V<std::vector<E>> {
    static std::vector<E> in(J const& j) { std::vector<E> r; for (auto& x : j.a) r.push_back(V<E>::in(x)); return r; }
    static std::string out(std::vector<E> const& v) { return arr(v, [](E const& x) { return V<E>::out(x); }); }
};
template <class T> struct ElemOf { typedef T type; };
template <class E> struct ElemOf<std::vector<E>> { typedef E type; };

struct Slot {
    virtual ~Slot() {}
    virtual Slot* copy() = 0; virtual void assign(Slot*) = 0; virtual void set(J const&, bool) = 0;
    virtual void limits(int which, J const* lo, J const* hi) = 0; virtual void listen(Observer*) = 0;
    virtual std::string at(int i) = 0; virtual void resize(int) = 0; virtual std::string value() = 0; virtual int size() = 0;
    virtual xmm::AttributeBase* base() = 0;
};
template <class T> struct Ops {
    static std::string at(xmm::Attribute<T>&, int) { return "0"; }
    static void resize(xmm::Attribute<T>&, int) {}
    static int size(xmm::Attribute<T>&) { return 0; }
    static xmm::Attribute<T>* make(T v, T lo, T hi, int) { return new xmm::Attribute<T>(v, lo, hi); }
    static xmm::Attribute<T>* dflt(T v, int) { return new xmm::Attribute<T>(v); }
};
template <class E> struct Ops<std::vector<E>> {
    typedef xmm::Attribute<std::vector<E>> A;
    static std::string at(A& a, int i) { return V<E>::out(a.at(i)); }
    static void resize(A& a, int n) { a.resize(n); }
    static int size(A& a) { return a.size(); }
    static A* make(std::vector<E> v, E lo, E hi, int n) { return new A(v, lo, hi, n); }
};
template <class T> struct S : Slot {
    typedef typename ElemOf<T>::type E;
    std::unique_ptr<xmm::Attribute<T>> a;
    S() {}
    S(J const& op) { a.reset(Ops<T>::make(V<T>::in(op["v"]), V<E>::in(op["lo"]), V<E>::in(op["hi"]), op["size"].num())); }
    Slot* copy() override { auto s = new S<T>(); s->a.reset(new xmm::Attribute<T>(*a)); return s; }
    void assign(Slot* o) override { *a = *static_cast<S<T>*>(o)->a; }
    void set(J const& v, bool silent) override { if (silent) a->set(V<T>::in(v), true); else a->set(V<T>::in(v)); }
    void limits(int w, J const* lo, J const* hi) override {
        if (w == 0) a->setLimitMin(V<E>::in(*lo)); else if (w == 1) a->setLimitMax(V<E>::in(*hi));
        else if (w == 2) a->setLimits(V<E>::in(*lo), V<E>::in(*hi)); else a->setLimits();
    }
    void listen(Observer* o) override { a->onAttributeChange(o, &Observer::changed); }
    std::string at(int i) override { return Ops<T>::at(*a, i); }
    void resize(int n) override { Ops<T>::resize(*a, n); }
    std::string value() override { return V<T>::out(a->get()); }
    int size() override { return Ops<T>::size(*a); }
    xmm::AttributeBase* base() override { return a.get(); }
};
struct AttrDriver : Driver {
    std::unique_ptr<Slot> a[NS + 1]; std::string ty[NS + 1]; Observer obs[NO + 1]; std::string calls; bool first = true;
    AttrDriver() { D = this; for (int i = 0; i <= NO; i++) obs[i].id = i; }
    Slot* make(J const& op) {
        std::string t = op["t"].s;
        if (t == "uint") return new S<unsigned>(op); if (t == "int") return new S<int>(op); if (t == "long") return new S<long>(op);
        if (t == "uchar") return new S<unsigned char>(op); if (t == "char") return new S<char>(op); if (t == "float") return new S<float>(op);
        if (t == "double") return new S<double>(op); if (t == "bool") return new S<bool>(op); if (t == "string") return new S<std::string>(op);
        if (t == "vfloat") return new S<std::vector<float>>(op); if (t == "vint") return new S<std::vector<int>>(op); return new S<std::vector<std::string>>(op);
    }
    std::string state() override {
        std::string s = "[";
        for (int i = 1; i <= NS; i++) s += (i > 1 ? "," : "") + (a[i] ? O().k("alive", "true").k("t", q(ty[i])).k("v", a[i]->value()).k("ch", b(a[i]->base()->changed)).k("n", n(a[i]->size())).str() : std::string("{\"alive\":false}"));
        return s + "]";
    }
    std::string exec(J const& op) override {
        std::string o = op["o"].s; int k = op["k"].num(); calls = "["; first = true; std::string v = "0", kind = "ok";
        try {
            if (o == "new") { a[k].reset(make(op)); ty[k] = op["t"].s; }
            else if (o == "del") a[k].reset();
            else if (o == "copy") { int j = op["j"].num(); a[k].reset(a[j]->copy()); ty[k] = ty[j]; }
            else if (o == "assign") a[k]->assign(a[op["j"].num()].get());
            else if (o == "set") a[k]->set(op["v"], op["silent"].b);
            else if (o == "lo") a[k]->limits(0, &op["lo"], nullptr);
            else if (o == "hi") a[k]->limits(1, nullptr, &op["hi"]);
            else if (o == "lims") a[k]->limits(2, &op["lo"], &op["hi"]);
            else if (o == "nolims") a[k]->limits(3, nullptr, nullptr);
            else if (o == "listen") a[k]->listen(op["w"].num() ? &obs[op["w"].num()] : nullptr);
            else if (o == "at") v = a[k]->at(op["i"].num());
            else if (o == "resize") a[k]->resize(op["n"].num());
            else { fprintf(stderr, "unknown op %s\n", o.c_str()); _exit(97); }
        } catch (std::exception const& e) { kind = "exc"; v = "0"; }
        return O().k("k", q(kind)).k("v", v).k("calls", calls + "]").str();
    }
};
void Observer::changed(xmm::AttributeBase* x) {
    for (int i = 1; i <= NS; i++) if (D->a[i] && D->a[i]->base() == x) {
        D->calls += (D->first ? "" : ",") + O().k("own", n(id)).k("k", n(i)).k("v", D->a[i]->value()).str(); D->first = false; return; }
    D->calls += std::string(D->first ? "" : ",") + "\"unknown attribute\""; D->first = false;
}
int main(int c, char** v) { return run(c, v, [] { return new AttrDriver; }); }
