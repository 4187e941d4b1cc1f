// C16: hierarchical HMM recognition is the two-level forward recursion over all classes.
#include "hmmref.hpp"

PBT_FACET(filtering, 16000, 300000, "2 or more classes, 6 or more frames compared") {
    SetOpts o;
    o.maxClasses = 4;
    o.maxPhrases = 2;
    o.maxLen = 16;
    o.sep = 1.5;
    SetSpec s = genSet(g, o);
    noteSet(g, s);
    HmmOpts ho;
    ho.hier = 1;
    HmmGen h = genHmm(g, s, ho);
    auto &m = *h.m;
    RefHmm r = RefHmm::from(m, s, h.exits);
    if (r.worstCond() > 1e6L) throw pbt::Discard{"ill conditioned"};
    double tol = 1e-6 + 1e-8 * static_cast<double>(r.worstCond());
    ObsStream obs(s);
    size_t compared = 0;
    LD seenExit = 0;
    bool large = g.chance(1, 25);  // a long window and a longer stream
    auto start = [&] {
        unsigned w = static_cast<unsigned>(large ? g.integer(8, 90) : g.oneof({1, 1, 2, 4, 7}));
        m.shared_parameters->likelihood_window.set(w);
        m.reset();
        r.reset(w);
        obs.fresh = true;
        g.note("window ", w, "\n");
    };
    start();
    for (size_t n = 0; g.more(n, large ? 200 : 30, large ? 110 : 14); ++n) {
        if (g.chance(1, large ? 90 : 15)) start();
        auto x = obs.next(g);
        g.note("filter ", vstr(x), "\n");
        m.filter(x);
        auto out = r.filter(x);
        if (r.underflow) break;
        checkResults(m.results, r.labels, out, false, false, false, tol, 0);
        double total = 0;
        for (size_t c = 0; c < r.labels.size(); ++c) {
            auto &k = m.models[r.labels[c]];
            auto &q = r.cls[c];
            for (int e = 0; e < 3; ++e) {
                PBT_CHECK("state-probabilities", k.alpha_h[e].size() == q.N, k.alpha_h[e].size(), " state probabilities");
                for (unsigned i = 0; i < q.N; ++i) {
                    PBT_CLOSE("state-probabilities", k.alpha_h[e][i], static_cast<double>(q.ah[e][i]), tol * 4, 1e-13, "class ", r.labels[c], " state ", i, " exit ", e);
                    total += k.alpha_h[e][i];
                }
            }
            PBT_CLOSE("class-likelihood", std::log(k.results.instant_likelihood), static_cast<double>(logl(q.inst)), 0, tol, "class ", r.labels[c]);
            PBT_CLOSE("class-log-likelihood", k.results.log_likelihood, static_cast<double>(out[c].loglik), 0, tol, "class ", r.labels[c]);
            PBT_CLOSE("exit-likelihood", k.results.exit_likelihood, static_cast<double>(q.exitLik), tol * 4, 1e-300, "class ", r.labels[c]);
            PBT_CLOSE("exit-ratio", k.results.exit_ratio, static_cast<double>(q.exitLik / q.inst), tol * 4, 1e-12, "class ", r.labels[c]);
            seenExit = std::max(seenExit, q.exitLik / q.inst);
            PBT_CHECK("progress-range", k.results.progress >= 0 && k.results.progress <= 1 + 1e-9, "progress ", k.results.progress);
            PBT_CHECK("likeliest-state", k.results.likeliest_state < q.N, k.results.likeliest_state);
            PBT_CHECK("likeliest-state", q.ambiguous || k.results.likeliest_state == q.likeliest, "state ", k.results.likeliest_state, " expected ", q.likeliest);
            if (!q.ambiguous) PBT_CLOSE("progress", k.results.progress, static_cast<double>(q.progress), tol, tol, "class ", r.labels[c]);
        }
        PBT_CLOSE("state-probabilities", total, 1., 0, 1e-6, "sum over all classes");
        ++compared;
    }
    if (compared >= 6 && s.labels.size() > 1) g.nontrivial();
    if (r.underflow) g.label("stopped: a state's mass became negligible");
    if (seenExit > 0.05L) g.label("a class is likely to end");
    g.label(h.randomised ? "random parameters" : "trained parameters");
}
