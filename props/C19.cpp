// C19: saving and reloading a model gives back the same model.
#include "anymodel.hpp"

namespace {
SetOpts smallSet() {
    SetOpts o;
    o.maxClasses = 3;
    o.maxPhrases = 2;
    o.minLen = 12;
    o.maxLen = 16;
    o.sep = 2;
    o.maxD = 4;
    o.oddLabels = true;
    return o;
}
Json::Value through(const Json::Value &v, int how) {
    if (how == 0) return v;
    std::string t = how == 1 ? Json::FastWriter().write(v) : Json::StyledWriter().write(v);
    Json::Value r;
    Json::Reader rd;
    PBT_CHECK("json-text", rd.parse(t, r), "the written text does not parse: ", rd.getFormattedErrorMessages());
    return r;
}
std::vector<std::vector<float>> stream(Gen &g, const SetSpec &s) {
    std::vector<std::vector<float>> r;
    ObsStream obs(s);
    for (size_t n = 0; g.more(n, 10, 5); ++n) r.push_back(obs.next(g));
    return r;
}
// the same words, numbers equal to a tolerance
void same(const char *tag, const std::string &a, const std::string &b, double rel, const char *what) {
    std::istringstream x(a), y(b);
    std::string p, q;
    while (true) {
        bool i = static_cast<bool>(x >> p), j = static_cast<bool>(y >> q);
        PBT_CHECK(tag, i == j, what, " differ in length");
        if (!i) return;
        if (p == q) continue;
        char *e1, *e2;
        double u = strtod(p.c_str(), &e1), v = strtod(q.c_str(), &e2);
        size_t b1 = p.find('['), b2 = q.find('[');
        if (b1 != std::string::npos && b1 == b2) {
            u = strtod(p.c_str() + b1 + 1, &e1);
            v = strtod(q.c_str() + b2 + 1, &e2);
        }
        PBT_CHECK(tag, *e1 == 0 && *e2 == 0, what, ": '", p, "' vs '", q, "'");
        PBT_CLOSE(tag, u, v, rel, rel * 1e-2, what, "\n", a, "\n", b);
    }
}
template <typename P>
void sameGmmParams(const P &a, const P &b, const std::string &w) {
    PBT_CHECK("configuration", a.gaussians.get() == b.gaussians.get() && a.covariance_mode.get() == b.covariance_mode.get() &&
                                   a.relative_regularization.get() == b.relative_regularization.get() &&
                                   a.absolute_regularization.get() == b.absolute_regularization.get(), w);
}
void sameParams(const xmm::ClassParameters<xmm::GMM> &a, const xmm::ClassParameters<xmm::GMM> &b, const std::string &w) { sameGmmParams(a, b, w); }
void sameParams(const xmm::ClassParameters<xmm::HMM> &a, const xmm::ClassParameters<xmm::HMM> &b, const std::string &w) {
    sameGmmParams(a, b, w);
    PBT_CHECK("configuration", a.states.get() == b.states.get() && a.transition_mode.get() == b.transition_mode.get() &&
                                   a.regression_estimator.get() == b.regression_estimator.get() && a.hierarchical.get() == b.hierarchical.get(), w);
}
void sameShared(const xmm::SharedParameters &a, const xmm::SharedParameters &b) {
    PBT_CHECK("shared-parameters", a.bimodal.get() == b.bimodal.get() && a.dimension.get() == b.dimension.get() && a.dimension_input.get() == b.dimension_input.get(), "dimensions");
    PBT_CHECK("shared-parameters", a.em_algorithm_min_iterations.get() == b.em_algorithm_min_iterations.get() &&
                                       a.em_algorithm_max_iterations.get() == b.em_algorithm_max_iterations.get() &&
                                       a.em_algorithm_percent_chg.get() == b.em_algorithm_percent_chg.get() && a.likelihood_window.get() == b.likelihood_window.get(), "training");
    auto x = a.column_names.get(), y = b.column_names.get();
    x.resize(a.dimension.get());  // names never given are empty
    y.resize(a.dimension.get());
    PBT_CHECK("column-names", x == y);
}
template <typename M>
void sameModel(M &a, M &b, const Setup &u, const SetSpec &s) {
    sameShared(*a.shared_parameters, *b.shared_parameters);
    sameParams(a.configuration, b.configuration, "default parameters");
    PBT_CHECK("configuration", a.configuration.multithreading == b.configuration.multithreading &&
                                   a.configuration.multiClass_regression_estimator == b.configuration.multiClass_regression_estimator, "modes");
    for (auto &l : s.labels) {
        PBT_CHECK("configuration", b.configuration.includes(l) == (u.per.count(l) > 0), "class-specific parameters of '", l, "'");
        if (u.per.count(l)) sameParams(a.configuration[l], b.configuration[l], "class '" + l + "'");
    }
    PBT_CHECK("classes", a.size() == b.size() && a.trained() == b.trained(), a.size(), " vs ", b.size());
    auto i = a.models.begin(), j = b.models.begin();
    for (; i != a.models.end(); ++i, ++j) {
        PBT_CHECK("classes", i->first == j->first && i->second.label == j->second.label, i->first, " vs ", j->first);
        sameParams(i->second.parameters, j->second.parameters, "trained parameters of '" + i->first + "'");
        PBT_CHECK("shared-by-classes", j->second.shared_parameters == b.shared_parameters, "the classes of the loaded model do not share its parameters");
    }
}
struct Log {
    int n = 0;
    void on(xmm::TrainingEvent const &) { ++n; }
};
}  // namespace

PBT_FACET(round_trip, 8000, 120000, "2 or more classes") {
    SetSpec s = genSet(g, smallSet());
    Setup u = genSetup(g, s);
    noteSet(g, s);
    g.note(setupStr(u));
    auto ts = makeTS(s);
    bool names = g.coin();
    if (names) {
        std::vector<std::string> n;
        for (unsigned d = 0; d < s.D; ++d) n.push_back(str("col ", d));
        ts->column_names.set(n);
    }
    AnyModel a(u);
    bool trained = !g.chance(1, 12);
    if (trained) {
        a.train(ts.get());
        if (u.hmm && u.def.hier && g.coin()) {
            unsigned n = 100;
            for (auto &k : a.hm->models) n = std::min(n, k.second.parameters.states.get());
            a.hm->addExitPoint(g.integer(0, static_cast<int>(n) - 1), genExit(g));
            for (auto &e : a.hm->exit_transition) e = g.smooth(0, 1);
            for (auto &e : a.hm->prior) e = g.logreal(0.01, 1);
            for (auto &r : a.hm->transition)
                for (auto &e : r) e = g.logreal(0.01, 1);
        }
        a.reset();
    }
    int how = g.integer(0, 2), target = g.integer(0, 2);
    g.note("how ", how, " target ", target, "\n");
    Json::Value j = through(a.json(), how);
    AnyModel b;
    Log log;
    if (target == 0) {  // constructor
        if (u.hmm) b.hm.reset(new xmm::HierarchicalHMM(j));
        else b.gm.reset(new xmm::GMM(j));
    } else if (target == 1) {
        b = AnyModel(u.hmm, g.coin());
        b.fromJson(j);
    } else {  // a model that was something else, with listeners
        SetSpec q = genSet(g, smallSet());
        Setup v = genSetup(g, q, u.hmm);
        b = AnyModel(v);
        auto t2 = makeTS(q);
        b.train(t2.get());
        for (auto &x : stream(g, q)) b.filter(x);
        if (b.hm) b.hm->training_events.addListener(&log, &Log::on);
        else b.gm->training_events.addListener(&log, &Log::on);
        b.fromJson(j);
    }
    if (u.hmm) sameModel(*a.hm, *b.hm, u, s);
    else sameModel(*a.gm, *b.gm, u, s);
    for (auto &l : s.labels)
        if (trained) same("parameters", a.cls(l), b.cls(l), 1e-6, "class parameters");
    if (trained) {
        // written again, the loaded model gives the same text, up to the precision of the numbers
        std::string x = a.text(), y = b.text();
        for (auto *t : {&x, &y})
            for (auto &ch : *t)
                if (strchr(",:[]{}\"", ch)) ch = ' ';
        same("rewrite", x, y, 1e-6, "JSON");
    }
    if (!trained) {
        if (target == 2) g.label("untrained into trained");
        return;
    }
    auto xs = stream(g, s);
    for (auto &x : xs) {
        g.note("filter ", vstr(x), "\n");
        a.filter(x);
        b.filter(x);
        same("behaviour", a.results(), b.results(), 1e-5, "results");
    }
    // the loaded model goes on being trained and configured as the original
    std::string relabel = g.pick(s.labels);
    if (g.coin()) {
        a.train(ts.get());
        b.train(ts.get());
    } else if (g.coin()) {
        a.train(ts.get(), relabel);
        b.train(ts.get(), relabel);
    } else {
        a.removeClass(relabel);
        b.removeClass(relabel);
    }
    PBT_CHECK("retrained", a.size() == b.size(), a.size(), " vs ", b.size());
    if (a.size()) {
        a.reset();
        b.reset();
        for (auto &x : xs) {
            a.filter(x);
            b.filter(x);
            same("retrained", a.results(), b.results(), 1e-5, "results");
        }
    }
    if (target == 2 && a.size() == s.labels.size()) {
        int before = log.n;
        b.train(ts.get());
        PBT_CHECK("listeners", log.n > before, "loading dropped the model's own listeners");
    }
    if (s.labels.size() > 1) g.nontrivial();
    g.label(str(u.hmm ? (u.def.hier ? "hierarchical HMM" : "HMM") : "GMM", target == 2 ? " into a used model" : ""));
}

PBT_FACET(kmeans, 4000, 50000, "2 or more clusters, trained") {
    SetSpec s = genSet(g, smallSet());
    noteSet(g, s);
    auto ts = makeTS(s);
    xmm::KMeans a(static_cast<unsigned>(g.integer(1, 5)));
    a.initialization_mode = g.coin() ? xmm::KMeans::InitializationMode::Random : xmm::KMeans::InitializationMode::Biased;
    a.configuration.max_iterations.set(static_cast<unsigned>(g.integer(1, 60)));
    a.configuration.relative_distance_threshold.set(static_cast<float>(g.logreal(1e-6, 1e-1)));
    bool trained = !g.chance(1, 8);
    if (trained) a.train(ts.get());
    Json::Value j = through(a.toJson(), g.integer(0, 2));
    xmm::KMeans b(static_cast<unsigned>(g.integer(1, 3)));
    if (g.coin()) {
        SetSpec q = genSet(g, smallSet());
        auto t = makeTS(q);
        b.train(t.get());
    }
    b.fromJson(j);
    PBT_CHECK("kmeans", a.configuration.clusters.get() == b.configuration.clusters.get() && a.configuration.max_iterations.get() == b.configuration.max_iterations.get() &&
                            a.initialization_mode == b.initialization_mode, "configuration");
    PBT_CLOSE("kmeans", a.configuration.relative_distance_threshold.get(), b.configuration.relative_distance_threshold.get(), 1e-6, 0, "threshold");
    sameShared(*a.shared_parameters, *b.shared_parameters);
    PBT_CHECK("kmeans", a.centers.size() == b.centers.size(), a.centers.size(), " vs ", b.centers.size());
    for (size_t i = 0; i < a.centers.size(); ++i) PBT_CLOSE("kmeans", a.centers[i], b.centers[i], 1e-6, 1e-30, "center ", i);
    if (trained)
        for (size_t n = 0; g.more(n, 5, 2); ++n) {
            std::vector<float> x(s.D);
            for (auto &v : x) v = static_cast<float>(s.scale * g.smooth(-6, 6));
            a.filter(x);
            b.filter(x);
            for (size_t k = 0; k < a.results.distances.size(); ++k) PBT_CLOSE("kmeans", a.results.distances[k], b.results.distances[k], 1e-5, 1e-6 * s.scale, "distance");
        }
    else
        PBT_CHECK("kmeans", pbt::throws<std::runtime_error>([&] { b.filter(std::vector<float>(b.shared_parameters->dimension.get())); }), "an untrained model filters");
    if (trained && a.configuration.clusters.get() > 1) g.nontrivial();
}

// parameter objects on their own
PBT_FACET(parameters, 6000, 60000, "always") {
    int kind = g.integer(0, 3), how = g.integer(0, 2);
    ClassCfg c = genCfg(g, g.oneof({1., 0.01, 100.}), 20, 30);
    c.hier = g.coin();
    g.note("kind ", kind, " ", cfgStr(c), "\n");
    if (kind == 0) {
        xmm::ClassParameters<xmm::GMM> a, b;
        setCfg(a, c);
        b.fromJson(through(a.toJson(), how));
        sameParams(a, b, "GMM");
        sameParams(a, xmm::ClassParameters<xmm::GMM>(through(a.toJson(), how)), "GMM");
    } else if (kind == 1) {
        xmm::ClassParameters<xmm::HMM> a, b;
        setCfg(a, c);
        b.fromJson(through(a.toJson(), how));
        sameParams(a, b, "HMM");
        sameParams(a, xmm::ClassParameters<xmm::HMM>(through(a.toJson(), how)), "HMM");
    } else if (kind == 2) {
        xmm::Configuration<xmm::HMM> a, b;
        setCfg(a, c);
        a.multithreading = g.pick(std::vector<Threads>{Threads::Sequential, Threads::Parallel, Threads::Background});
        a.multiClass_regression_estimator = g.coin() ? MultiEst::Mixture : MultiEst::Likeliest;
        std::vector<std::string> ls;
        for (size_t n = 0; g.more(n, 4, 2); ++n) {
            ls.push_back(genLabel(g));
            setCfg(a[ls.back()], genCfg(g, 1, 20, 30));
        }
        if (g.coin()) setCfg(b["other"], c);
        b.fromJson(through(a.toJson(), how));
        sameParams(a, b, "defaults");
        PBT_CHECK("configuration", a.multithreading == b.multithreading && a.multiClass_regression_estimator == b.multiClass_regression_estimator, "modes");
        PBT_CHECK("configuration", !b.includes("other"), "class-specific parameters from before the load remain");
        for (auto &l : ls) {
            PBT_CHECK("configuration", b.includes(l), "class '", l, "'");
            sameParams(a[l], b[l], "class " + l);
        }
    } else {
        xmm::SharedParameters a, b;
        bool bi = g.coin();
        a.bimodal.set(bi);
        unsigned D = static_cast<unsigned>(g.integer(bi ? 2 : 1, 6));
        a.dimension.set(D);
        if (bi) a.dimension_input.set(static_cast<unsigned>(g.integer(1, static_cast<int>(D) - 1)));
        if (g.coin()) {
            std::vector<std::string> n;
            for (unsigned d = 0; d < D; ++d) n.push_back(genLabel(g));
            a.column_names.set(n);
        }
        a.em_algorithm_min_iterations.set(static_cast<unsigned>(g.integer(1, 100)));
        a.em_algorithm_max_iterations.set(static_cast<unsigned>(g.integer(0, 100)));
        a.em_algorithm_percent_chg.set(g.logreal(1e-9, 10));
        a.likelihood_window.set(static_cast<unsigned>(upto(g, 1, 50, 100000)));
        if (g.coin()) {
            b.bimodal.set(g.coin());
            b.dimension.set(static_cast<unsigned>(g.integer(2, 8)));
        }
        b.fromJson(through(a.toJson(), how));
        sameShared(a, b);
        sameShared(a, xmm::SharedParameters(through(a.toJson(), how)));
        sameShared(a, xmm::SharedParameters(a));
    }
    g.nontrivial();
}
