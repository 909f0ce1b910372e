// Driver for spec/Gaussian.tla
#include "doc.hpp"
#include "xmmGaussianDistribution.hpp"
using namespace xd;
typedef xmm::GaussianDistribution G;
typedef G::CovarianceMode CM;
static std::vector<double> dbl(J const& j) { std::vector<double> r; for (auto& x : j.a) r.push_back(x.real()); return r; }
static std::string ja(Json::Value const& v) { std::string s = "["; for (Json::ArrayIndex i = 0; i < v.size(); i++) s += (i ? "," : "") + f(v[i].asDouble()); return s + "]"; }
static CM mode(std::string const& m) { return m == "full" ? CM::Full : m == "diag" ? CM::Diagonal : (CM)7; }
static std::string ell(xmm::Ellipse const& e) { return "[" + f(e.x) + "," + f(e.y) + "," + f(e.width) + "," + f(e.height) + "," + f(e.angle) + "]"; }
struct D : Driver {
    std::unique_ptr<G> g[4];
    std::string state() override {
        std::string s = "[";
        for (int i = 1; i <= 3; i++) {
            s += i > 1 ? "," : "";
            if (!g[i]) { s += "{\"alive\":false}"; continue; }
            Json::Value j = g[i]->toJson();
            s += O().k("alive", "true").k("bi", b(j["bimodal"].asBool())).k("dim", n(g[i]->dimension.get())).k("din", n(g[i]->dimension_input.get()))
                .k("mode", g[i]->covariance_mode.get() == CM::Full ? "\"full\"" : "\"diag\"").k("mean", fa(g[i]->mean)).k("cov", fa(g[i]->covariance)).k("ocov", fa(g[i]->output_covariance))
                .k("inv", ja(j["inverse_covariance"])).k("iinv", ja(j["inverse_covariance_input"])).k("det", f(j["covariance_determinant"].asDouble())).k("idet", f(j["covariance_determinant_input"].asDouble())).str();
        }
        return s + "]";
    }
    std::string exec(J const& op) override {
        std::string o = op["o"].s;
        auto& X = g[op.has("s") ? op["s"].num() : 0]; auto& U = g[op.has("u") ? op["u"].num() : 0];
        return guard([&]() -> std::string {
            if (o == "new") X.reset(new G(op["b"].b, (unsigned)op["d"].num(), (unsigned)op["i"].num(), mode(op["m"].s)));
            else if (o == "del") X.reset();
            else if (o == "copy") X.reset(new G(*U));
            else if (o == "assign") *X = *U;
            else if (o == "json") { Json::Value j = U->toJson(); X->fromJson(reread(j)); same(j, X->toJson()); }
            else if (o == "jsonnew") { Json::Value j = U->toJson(); X.reset(new G(reread(j))); same(j, X->toJson()); }
            else if (o == "dim") X->dimension.set((unsigned)op["d"].num());
            else if (o == "din") X->dimension_input.set((unsigned)op["d"].num());
            else if (o == "mode") X->covariance_mode.set(mode(op["m"].s));
            else if (o == "set") { X->mean = dbl(op["mean"]); X->covariance = dbl(op["cov"]); }
            else if (o == "upd") X->updateInverseCovariance();
            else if (o == "regu") X->regularize(dbl(op["v"]));
            else if (o == "frome") { J const& e = op["e"]; xmm::Ellipse x; x.x = e.at(0).real(); x.y = e.at(1).real(); x.width = e.at(2).real(); x.height = e.at(3).real(); x.angle = e.at(4).real(); X->fromEllipse(x, op["a"].num() - 1, op["c"].num() - 1); }
            else if (o == "toe") return ell(X->toEllipse(op["a"].num() - 1, op["c"].num() - 1));
            else if (o == "cov2e") { auto v = dbl(op["v"]); return ell(xmm::covariance2ellipse(v[0], v[1], v[2])); }
            else {
                // exactly as many values as the call may read
                std::vector<float> x = op["x"].floats(); size_t di = X->dimension_input.get();
                std::vector<float> in(x.begin(), x.begin() + di), out(x.begin() + di, x.end());
                if (o == "lik") return f(X->likelihood(x.data()));
                if (o == "lin") return f(X->likelihood_input(in.data()));
                if (o == "lbi") return f(X->likelihood_bimodal(in.data(), out.data()));
                if (o == "reg") { std::vector<float> y(7, 99.f); X->regression(in, y); return fa(y); }
                fprintf(stderr, "unknown op %s\n", o.c_str()); _exit(97);
            }
            return "0";
        });
    }
};
int main(int c, char** v) { return run(c, v, [] { return new D; }); }
