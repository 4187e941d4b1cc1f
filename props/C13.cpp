// C13: GMM recognition: likelihoods, smoothing, normalisation and decision.
#include "model.hpp"

PBT_FACET(recognition, 22000, 400000, "2 or more classes and a window longer than 1 that slides") {
    SetOpts o;
    o.maxClasses = 4;
    o.maxPhrases = 2;
    o.maxLen = 16;
    o.oddLabels = true;
    SetSpec s = genSet(g, o);
    noteSet(g, s);
    bool custom;
    auto m = genGmm(g, s, custom, 4);
    RefGmm r = RefGmm::from(*m, s);
    if (r.worstCond() > 1e7L) throw pbt::Discard{"ill conditioned"};
    double tol = 1e-8 + 1e-10 * static_cast<double>(r.worstCond());
    bool large = g.chance(1, 25);  // a long window and a longer stream
    auto start = [&] {
        unsigned w = static_cast<unsigned>(large ? g.integer(8, 90) : g.oneof({1, 1, 2, 3, 5, 8}));
        m->shared_parameters->likelihood_window.set(w);
        m->reset();
        r.reset(w);
        g.note("window ", w, "\n");
        return w;
    };
    unsigned w = start(), since = 0;
    bool slid = false, floored = false;
    for (size_t n = 0; g.more(n, large ? 200 : 24, large ? 110 : 10); ++n) {
        if (g.chance(1, large ? 90 : 12)) {
            w = start();
            since = 0;
        }
        auto x = genObs(g, s);
        g.note("filter ", vstr(x), "\n");
        m->filter(x);
        auto out = r.filter(x);
        for (auto &c : out) floored |= c.inst < 1e-170L;
        for (size_t i = 0; i < r.labels.size(); ++i)
            PBT_CLOSE("class-likelihood", std::log(m->models[r.labels[i]].results.instant_likelihood), static_cast<double>(logl(out[i].inst)), 0, tol * (1 + 400), "class ", r.labels[i]);
        checkResults(m->results, r.labels, out, false, false, false, tol * 400, 0);
        if (++since > w && w > 1) slid = true;
    }
    if (slid && s.labels.size() > 1) g.nontrivial();
    g.label(str(s.labels.size(), " classes"));
    if (floored) g.label("density floor reached");
}

// the single-class recogniser answers as the class of the group does, and joint likelihoods use both modalities
PBT_FACET(single_class, 8000, 150000, "2 or more components") {
    SetOpts o;
    o.maxClasses = 2;
    o.maxPhrases = 2;
    o.maxLen = 16;
    SetSpec s = genSet(g, o);
    noteSet(g, s);
    bool custom;
    auto m = genGmm(g, s, custom, 4);
    m->shared_parameters->likelihood_window.set(static_cast<unsigned>(g.integer(1, 4)));
    m->reset();
    const std::string &l = g.pick(s.labels);
    xmm::SingleClassGMM one(m->models[l]);
    RefGmmClass r = RefGmmClass::from(one, s.bi, s.D, s.DI);
    if (r.worstCond() > 1e7L) throw pbt::Discard{"ill conditioned"};
    double tol = 1e-6 + 1e-8 * static_cast<double>(r.worstCond());
    one.reset();
    for (size_t n = 0; g.more(n, 10, 4); ++n) {
        auto x = genObs(g, s);
        g.note("filter ", vstr(x), "\n");
        m->filter(x);
        double v = one.filter(x);
        PBT_CLOSE("single-likelihood", std::log(v), static_cast<double>(logl(r.input(x))), 0, tol);
        PBT_CHECK("single-as-group", one.results.instant_likelihood == m->models[l].results.instant_likelihood &&
                                         one.results.log_likelihood == m->models[l].results.log_likelihood,
                  one.results.log_likelihood, " vs ", m->models[l].results.log_likelihood);
        auto b = r.resp(x);
        double sum = 0;
        PBT_CHECK("responsibility", one.beta.size() == b.size(), one.beta.size(), " responsibilities");
        for (size_t k = 0; k < b.size(); ++k) {
            PBT_CLOSE("responsibility", one.beta[k], static_cast<double>(b[k]), tol * 4, tol, "component ", k);
            sum += one.beta[k];
        }
        PBT_CLOSE("responsibility", sum, 1., 0, 1e-5, "sum");
    }
    if (r.comp.size() > 1) g.nontrivial();
}
