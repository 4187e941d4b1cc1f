// C14: GMM regression.
#include "model.hpp"

PBT_FACET(regression, 18000, 300000, "2 or more classes or 2 or more components, inputs where no density underflows") {
    SetOpts o;
    o.maxClasses = 3;
    o.maxPhrases = 2;
    o.maxLen = 16;
    o.maxD = 6;
    o.bimodal = 1;
    SetSpec s = genSet(g, o);
    noteSet(g, s);
    bool custom;
    auto m = genGmm(g, s, custom, 3);
    bool mixture = g.coin();
    m->configuration.multiClass_regression_estimator = mixture ? MultiEst::Mixture : MultiEst::Likeliest;
    RefGmm r = RefGmm::from(*m, s);
    LD wc = r.worstCond();
    if (wc > 1e6L) throw pbt::Discard{"ill conditioned"};
    unsigned w = static_cast<unsigned>(upto(g, 1, 4, 60));
    m->shared_parameters->likelihood_window.set(w);
    m->reset();
    r.reset(w);
    g.note(mixture ? "mixture" : "likeliest", " estimator, window ", w, "\n");
    bool full = m->configuration.covariance_mode.get() == Cov::Full;
    double tol = 1e-6 + 1e-9 * static_cast<double>(wc);
    bool near = true;
    size_t comps = 0;
    for (auto &c : r.cls) comps = std::max(comps, c.comp.size());
    for (size_t n = 0; g.more(n, 12, 5); ++n) {
        auto x = genObs(g, s);
        g.note("filter ", vstr(x), "\n");
        m->filter(x);
        auto out = r.filter(x);
        double mag = s.scale * 6, ymag = 0;
        for (auto &c : out) {
            if (c.inst < 1e-100L) near = false;
            ymag = std::max(ymag, static_cast<double>(c.ymag));
            for (auto v : c.y) mag = std::max(mag, std::fabs(static_cast<double>(v)));
        }
        double ctol = mag * (1e-5 + 1e-9 * static_cast<double>(wc)) * std::max(1., s.scale);
        double ytol = std::max(mag, ymag) * (1e-5 + 1e-9 * static_cast<double>(wc));
        // per class
        for (size_t i = 0; i < r.labels.size(); ++i) {
            auto &k = m->models[r.labels[i]];
            PBT_CHECK("class-output", k.results.output_values.size() == s.outDim(), k.results.output_values.size(), " outputs");
            for (size_t d = 0; d < out[i].y.size(); ++d)
                PBT_CLOSE("class-output", k.results.output_values[d], static_cast<double>(out[i].y[d]), 1e-4, ytol, "class ", r.labels[i], " output ", d);
            checkCov("class-output-covariance", k.results.output_covariance, out[i].cov, !out[i].diag, 1e-3, ctol, "class " + r.labels[i]);
        }
        checkResults(m->results, r.labels, out, true, mixture, full, tol * 10, std::max(ytol, ctol) * 4);
    }
    if (near && (s.labels.size() > 1 || comps > 1)) g.nontrivial();
    g.label(mixture ? "mixture" : "likeliest");
    if (custom) g.label("class-specific parameters");
}

// regression of a unimodal model leaves no output
PBT_FACET(unimodal, 400, 5000, "always") {
    SetOpts o;
    o.bimodal = 0;
    o.maxLen = 12;
    SetSpec s = genSet(g, o);
    bool custom;
    auto m = genGmm(g, s, custom, 2);
    m->filter(genObs(g, s));
    PBT_CHECK("no-output", m->results.output_values.empty() && m->results.output_covariance.empty(), "a unimodal model reports outputs");
    g.nontrivial();
}
