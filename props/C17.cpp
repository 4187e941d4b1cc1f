// C17: HMM regression.
#include "hmmref.hpp"

static void body(Gen &g, int hier) {
    SetOpts o;
    o.maxClasses = 3;
    o.maxPhrases = 2;
    o.maxLen = 16;
    o.sep = 1.5;
    o.maxD = 5;
    o.bimodal = 1;
    SetSpec s = genSet(g, o);
    noteSet(g, s);
    HmmOpts ho;
    ho.hier = hier;
    HmmGen h = genHmm(g, s, ho);
    auto &m = *h.m;
    bool mixture = g.coin();
    m.configuration.multiClass_regression_estimator = mixture ? MultiEst::Mixture : MultiEst::Likeliest;
    RefHmm r = RefHmm::from(m, s, h.exits);
    LD wc = r.worstCond();
    if (wc > 1e6L) throw pbt::Discard{"ill conditioned"};
    double tol = 1e-6 + 1e-9 * static_cast<double>(wc);
    unsigned w = static_cast<unsigned>(upto(g, 1, 4, 60));
    m.shared_parameters->likelihood_window.set(w);
    m.reset();
    r.reset(w);
    bool full = m.configuration.covariance_mode.get() == Cov::Full;
    g.note(mixture ? "mixture" : "likeliest", " estimator, window ", w, "\n");
    ObsStream obs(s);
    size_t compared = 0, maxN = 1;
    for (auto &k : r.cls) maxN = std::max<size_t>(maxN, k.N);
    for (size_t n = 0; g.more(n, 16, 8); ++n) {
        auto x = obs.next(g);
        g.note("filter ", vstr(x), "\n");
        m.filter(x);
        auto out = r.filter(x);
        if (r.underflow) break;
        double mag = s.scale * 6, ymag = 0;
        bool amb = false;
        for (size_t c = 0; c < r.labels.size(); ++c) {
            if (r.cls[c].ambiguous && r.cls[c].est != 0) amb = true;
            ymag = std::max(ymag, static_cast<double>(out[c].ymag));
            for (auto v : out[c].y) mag = std::max(mag, std::fabs(static_cast<double>(v)));
        }
        double ctol = mag * (1e-5 + 1e-9 * static_cast<double>(wc)) * std::max(1., s.scale);
        double ytol = std::max(mag, ymag) * (1e-5 + 1e-9 * static_cast<double>(wc));
        for (size_t c = 0; c < r.labels.size(); ++c) {
            auto &k = m.models[r.labels[c]];
            PBT_CHECK("class-output", k.results.output_values.size() == s.outDim(), k.results.output_values.size(), " outputs");
            if (r.cls[c].ambiguous && r.cls[c].est != 0) continue;
            for (size_t d = 0; d < out[c].y.size(); ++d)
                PBT_CLOSE("class-output", k.results.output_values[d], static_cast<double>(out[c].y[d]), 1e-4, ytol, "class ", r.labels[c], " output ", d);
            checkCov("class-output-covariance", k.results.output_covariance, out[c].cov, !out[c].diag, 1e-3, ctol, "class " + r.labels[c]);
        }
        if (!amb) checkResults(m.results, r.labels, out, true, mixture, full, tol * 10, std::max(ytol, ctol) * 4);
        ++compared;
    }
    if (compared >= 4 && maxN > 1) g.nontrivial();
    if (r.underflow) g.label("stopped: a state's mass became negligible");
    if (h.custom) g.label("class-specific parameters");
    for (auto &k : r.cls) g.label(k.est == 0 ? "full" : k.est == 1 ? "windowed" : "likeliest state");
}
PBT_FACET(flat, 9000, 150000, "2 or more states, 4 or more frames compared") { body(g, 0); }
PBT_FACET(hierarchical, 9000, 150000, "2 or more states, 4 or more frames compared") { body(g, 1); }
