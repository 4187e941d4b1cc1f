// A GMM or a hierarchical HMM behind one face, and what can be observed of it.
#pragma once
#include "hmmref.hpp"

struct Setup {
    bool hmm = false, bi = false;
    ClassCfg def;
    std::map<std::string, ClassCfg> per;
    unsigned minIt = 2, maxIt = 2, window = 1;
    double pct = 0.01;
    bool mixture = false;
    Threads threads = Threads::Sequential;
};
inline std::string setupStr(const Setup &u) {
    std::string o = str(u.hmm ? "HMM " : "GMM ", cfgStr(u.def), " iterations ", u.minIt, "/", u.maxIt, " pct ", u.pct, " window ", u.window, u.mixture ? " mixture" : " likeliest",
                        u.threads == Threads::Sequential ? " sequential" : u.threads == Threads::Parallel ? " parallel" : " background", "\n");
    for (auto &p : u.per) o += str("class '", p.first, "': ", cfgStr(p.second), "\n");
    return o;
}
inline Setup genSetup(Gen &g, const SetSpec &s, int kind = -1, bool classCfg = true) {
    Setup u;
    u.hmm = kind < 0 ? g.coin() : kind != 0;
    u.bi = s.bi;
    u.def = genCfg(g, s, 3, 4);
    if (u.hmm) u.def.gaussians = static_cast<unsigned>(g.integer(1, 2));
    u.def.hier = g.coin();
    if (classCfg)
        for (auto &l : s.labels)
            if (g.chance(1, 4)) {
                u.per[l] = genCfg(g, s, u.hmm ? 2 : 3, 4);
                u.per[l].hier = u.def.hier;
            }
    u.minIt = static_cast<unsigned>(g.integer(1, 3));
    u.maxIt = g.chance(1, 3) ? static_cast<unsigned>(g.integer(0, 5)) : u.minIt;
    u.pct = g.oneof({0.01, 0.1, 1., 5.});
    u.window = g.chance(1, 15) ? static_cast<unsigned>(g.integer(6, 200)) : static_cast<unsigned>(g.oneof({1, 1, 2, 5}));
    u.mixture = g.coin();
    return u;
}
template <typename M>
inline void applySetup(M &m, const Setup &u) {
    setCfg(m.configuration, u.def);
    m.configuration.reset();
    for (auto &p : u.per) setCfg(m.configuration[p.first], p.second);
    m.shared_parameters->em_algorithm_min_iterations.set(u.minIt);
    m.shared_parameters->em_algorithm_max_iterations.set(u.maxIt);
    m.shared_parameters->em_algorithm_percent_chg.set(u.pct);
    m.shared_parameters->likelihood_window.set(u.window);
    m.configuration.multiClass_regression_estimator = u.mixture ? MultiEst::Mixture : MultiEst::Likeliest;
    m.configuration.multithreading = u.threads;
}
inline void put(std::string &o, double v) {
    char b[40];
    snprintf(b, sizeof b, "%.17g ", v);
    o += b;
}
template <typename V>
inline void putv(std::string &o, const char *n, const V &v) {
    o += std::string(n) + "[";
    for (auto x : v) put(o, x);
    o += "] ";
}
template <typename R>
inline std::string commonResults(const R &r, bool bi) {
    std::string o = "likeliest '" + r.likeliest + "' ";
    putv(o, "inst", r.instant_likelihoods);
    putv(o, "instn", r.instant_normalized_likelihoods);
    putv(o, "smooth", r.smoothed_likelihoods);
    putv(o, "smoothn", r.smoothed_normalized_likelihoods);
    putv(o, "log", r.smoothed_log_likelihoods);
    if (bi) {
        putv(o, "y", r.output_values);
        putv(o, "cov", r.output_covariance);
    }
    return o + "\n";
}
// everything a user reads after a frame was filtered
inline std::string resultsStr(const xmm::GMM &m) {
    bool bi = m.shared_parameters->bimodal.get();
    std::string o = commonResults(m.results, bi);
    for (auto &k : m.models) {
        o += " '" + k.first + "' ";
        put(o, k.second.results.instant_likelihood);
        put(o, k.second.results.log_likelihood);
        putv(o, "beta", k.second.beta);
        if (bi) {
            putv(o, "y", k.second.results.output_values);
            putv(o, "cov", k.second.results.output_covariance);
        }
        o += "\n";
    }
    return o;
}
inline std::string resultsStr(const xmm::HierarchicalHMM &m) {
    bool bi = m.shared_parameters->bimodal.get();
    std::string o = commonResults(m.results, bi);
    for (auto &k : m.models) {
        auto &r = k.second.results;
        o += " '" + k.first + "' ";
        put(o, r.instant_likelihood);
        put(o, r.log_likelihood);
        put(o, r.progress);
        put(o, r.exit_likelihood);
        put(o, r.exit_ratio);
        put(o, r.likeliest_state);
        if (m.configuration.hierarchical.get())
            for (int e = 0; e < 3; ++e) putv(o, "alpha", k.second.alpha_h[e]);
        else
            putv(o, "alpha", k.second.alpha);
        if (bi) {
            putv(o, "y", r.output_values);
            putv(o, "cov", r.output_covariance);
        }
        o += "\n";
    }
    return o;
}
inline std::string jsonText(const Json::Value &v) {
    Json::FastWriter w;
    return w.write(v);
}
// parameters of one class (all in JSON form, exact to the writer's precision)
template <typename M>
inline std::string classText(const M &m, const std::string &l) {
    auto it = m.models.find(l);
    return it == m.models.end() ? "missing" : jsonText(it->second.toJson());
}

struct AnyModel {
    std::unique_ptr<xmm::GMM> gm;
    std::unique_ptr<xmm::HierarchicalHMM> hm;
    AnyModel() {}
    AnyModel(bool hmm, bool bi) {
        if (hmm) hm.reset(new xmm::HierarchicalHMM(bi));
        else gm.reset(new xmm::GMM(bi));
    }
    explicit AnyModel(const Setup &u) : AnyModel(u.hmm, u.bi) { setup(u); }
    xmm::Writable &face() { return hm ? static_cast<xmm::Writable &>(*hm) : *gm; }
    bool hmm() const { return hm != nullptr; }
    AnyModel copy() const {
        AnyModel r;
        if (hm) r.hm.reset(new xmm::HierarchicalHMM(*hm));
        else r.gm.reset(new xmm::GMM(*gm));
        return r;
    }
    void assign(const AnyModel &o) {
        if (hm) *hm = *o.hm;
        else *gm = *o.gm;
    }
    template <typename F>
    auto with(F f) { return hm ? f(*hm) : f(*gm); }
    template <typename F>
    auto with(F f) const { return hm ? f(static_cast<const xmm::HierarchicalHMM &>(*hm)) : f(static_cast<const xmm::GMM &>(*gm)); }
    // both branches must have the same type
    void setup(const Setup &u) {
        if (hm) applySetup(*hm, u);
        else applySetup(*gm, u);
    }
    void train(xmm::TrainingSet *t) {
        if (hm) hm->train(t);
        else gm->train(t);
    }
    void train(xmm::TrainingSet *t, const std::string &l) {
        if (hm) hm->train(t, l);
        else gm->train(t, l);
    }
    void filter(const std::vector<float> &x) {
        if (hm) hm->filter(x);
        else gm->filter(x);
    }
    void reset() {
        if (hm) hm->reset();
        else gm->reset();
    }
    void clear() {
        if (hm) hm->clear();
        else gm->clear();
    }
    void removeClass(const std::string &l) {
        if (hm) hm->removeClass(l);
        else gm->removeClass(l);
    }
    std::string results() const { return hm ? resultsStr(*hm) : resultsStr(*gm); }
    Json::Value json() const { return hm ? hm->toJson() : gm->toJson(); }
    void fromJson(const Json::Value &v) {
        if (hm) hm->fromJson(v);
        else gm->fromJson(v);
    }
    std::string text() const { return jsonText(json()); }
    std::string cls(const std::string &l) const { return hm ? classText(*hm, l) : classText(*gm, l); }
    unsigned size() const { return hm ? hm->size() : gm->size(); }
    xmm::SharedParameters &shared() { return hm ? *hm->shared_parameters : *gm->shared_parameters; }
    bool trained() const { return hm ? hm->trained() : gm->trained(); }
    bool training() const { return hm ? hm->training() : gm->training(); }
    std::string likeliest() const { return hm ? hm->results.likeliest : gm->results.likeliest; }
};
