// Reading and writing of settings, for the drivers of spec/Config.tla and spec/Model.tla
#pragma once
#include "doc.hpp"
#include "xmmModelSharedParameters.hpp"
#include "xmmGmmParameters.hpp"
#include "xmmHmmParameters.hpp"
#include "xmmKMeansParameters.hpp"
#include "xmmModelConfiguration.hpp"
using namespace xd;
static unsigned u(J const& j) { return (unsigned)strtoull(j.s.c_str(), 0, 10); }
static std::string us(unsigned x) { return q(std::to_string(x)); }
typedef xmm::GaussianDistribution::CovarianceMode CM;

template <class M> struct P;
template <> struct P<xmm::GMM> {
    typedef xmm::ClassParameters<xmm::GMM> C;
    static const int n = 4;
    static void set(C& c, int f, J const& v) {
        if (f == 1) c.gaussians.set(u(v)); else if (f == 2) c.relative_regularization.set(v.real());
        else if (f == 3) c.absolute_regularization.set(v.real()); else c.covariance_mode.set((CM)v.num());
    }
    static std::string get(C const& c, int f) {
        return f == 1 ? us(c.gaussians.get()) : f == 2 ? xd::f(c.relative_regularization.get()) : f == 3 ? xd::f(c.absolute_regularization.get()) : q(std::to_string((int)c.covariance_mode.get()));
    }
};
template <> struct P<xmm::HMM> {
    typedef xmm::ClassParameters<xmm::HMM> C;
    static const int n = 8;
    static void set(C& c, int f, J const& v) {
        switch (f) {
            case 1: c.states.set(u(v)); break; case 2: c.gaussians.set(u(v)); break;
            case 3: c.relative_regularization.set(v.real()); break; case 4: c.absolute_regularization.set(v.real()); break;
            case 5: c.covariance_mode.set((CM)v.num()); break; case 6: c.transition_mode.set((xmm::HMM::TransitionMode)v.num()); break;
            case 7: c.regression_estimator.set((xmm::HMM::RegressionEstimator)v.num()); break; default: c.hierarchical.set(v.s == "1");
        }
    }
    static std::string get(C const& c, int f) {
        switch (f) {
            case 1: return us(c.states.get()); case 2: return us(c.gaussians.get());
            case 3: return xd::f(c.relative_regularization.get()); case 4: return xd::f(c.absolute_regularization.get());
            case 5: return q(std::to_string((int)c.covariance_mode.get())); case 6: return q(std::to_string((int)c.transition_mode.get()));
            case 7: return q(std::to_string((int)c.regression_estimator.get())); default: return q(c.hierarchical.get() ? "1" : "0");
        }
    }
};
template <> struct P<xmm::KMeans> {
    typedef xmm::ClassParameters<xmm::KMeans> C;
    static const int n = 3;
    static void set(C& c, int f, J const& v) { if (f == 1) c.clusters.set(u(v)); else if (f == 2) c.max_iterations.set(u(v)); else c.relative_distance_threshold.set((float)v.real()); }
    static std::string get(C const& c, int f) { return f == 1 ? us(c.clusters.get()) : f == 2 ? us(c.max_iterations.get()) : xd::f(c.relative_distance_threshold.get()); }
};
static std::string shared(xmm::SharedParameters* p) {
    if (!p) return "{\"alive\":false}";
    return O().k("alive", "true").k("bi", b(p->bimodal.get())).k("dim", n(p->dimension.get())).k("din", n(p->dimension_input.get())).k("cols", sa(p->column_names.get()))
        .k("emin", us(p->em_algorithm_min_iterations.get())).k("emax", us(p->em_algorithm_max_iterations.get())).k("pct", f(p->em_algorithm_percent_chg.get())).k("win", us(p->likelihood_window.get())).str();
}
static void setShared(xmm::SharedParameters* S, std::string const& f, J const& v) {
    if (f == "bi") S->bimodal.set(v.b); else if (f == "dim") S->dimension.set(v.num()); else if (f == "din") S->dimension_input.set(v.num());
    else if (f == "cols") S->column_names.set(rich(v.strs())); else if (f == "emin") S->em_algorithm_min_iterations.set(u(v)); else if (f == "emax") S->em_algorithm_max_iterations.set(u(v));
    else if (f == "pct") S->em_algorithm_percent_chg.set(v.real()); else S->likelihood_window.set(u(v));
}
template <class M> std::string all(xmm::ClassParameters<M> const& p) { std::string s = "["; for (int i = 1; i <= P<M>::n; i++) s += (i > 1 ? "," : "") + P<M>::get(p, i); return s + "]"; }
