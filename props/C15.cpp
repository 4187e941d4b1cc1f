// C15: non-hierarchical HMM recognition is scaled forward filtering of every class.
#include "hmmref.hpp"

PBT_FACET(filtering, 16000, 300000, "2 or more classes or states, 6 or more frames compared") {
    SetOpts o;
    o.maxClasses = 3;
    o.maxPhrases = 2;
    o.maxLen = 16;
    o.sep = 2;
    SetSpec s = genSet(g, o);
    noteSet(g, s);
    HmmOpts ho;
    ho.hier = 0;
    HmmGen h = genHmm(g, s, ho);
    auto &m = *h.m;
    RefHmm r = RefHmm::from(m, s, h.exits);
    if (r.worstCond() > 1e6L) throw pbt::Discard{"ill conditioned"};
    double tol = 1e-6 + 1e-8 * static_cast<double>(r.worstCond());
    ObsStream obs(s);
    size_t compared = 0, maxN = 1;
    for (auto &k : r.cls) maxN = std::max<size_t>(maxN, k.N);
    bool large = g.chance(1, 25);  // a long window and a longer stream
    auto start = [&] {
        unsigned w = static_cast<unsigned>(large ? g.integer(8, 90) : g.oneof({1, 1, 2, 4, 7}));
        m.shared_parameters->likelihood_window.set(w);
        m.reset();
        r.reset(w);
        obs.fresh = true;
        g.note("window ", w, "\n");
    };
    start();
    for (size_t n = 0; g.more(n, large ? 200 : 24, large ? 110 : 12); ++n) {
        if (g.chance(1, large ? 90 : 15)) start();
        auto x = obs.next(g);
        g.note("filter ", vstr(x), "\n");
        m.filter(x);
        auto out = r.filter(x);
        if (r.underflow) break;
        checkResults(m.results, r.labels, out, false, false, false, tol, 0);
        for (size_t c = 0; c < r.labels.size(); ++c) {
            auto &k = m.models[r.labels[c]];
            auto &q = r.cls[c];
            double sum = 0;
            PBT_CHECK("state-probabilities", k.alpha.size() == q.N, k.alpha.size(), " state probabilities");
            for (unsigned i = 0; i < q.N; ++i) {
                PBT_CLOSE("state-probabilities", k.alpha[i], static_cast<double>(q.alpha[i]), tol * 4, 1e-12, "class ", r.labels[c], " state ", i);
                sum += k.alpha[i];
            }
            PBT_CLOSE("state-probabilities", sum, 1., 0, 1e-9);
            PBT_CLOSE("class-likelihood", std::log(k.results.instant_likelihood), static_cast<double>(logl(q.inst)), 0, tol, "class ", r.labels[c]);
            PBT_CLOSE("class-log-likelihood", k.results.log_likelihood, static_cast<double>(out[c].loglik), 0, tol, "class ", r.labels[c]);
            PBT_CHECK("progress-range", k.results.progress >= 0 && k.results.progress <= 1 + 1e-9, "progress ", k.results.progress);
            PBT_CHECK("likeliest-state", k.results.likeliest_state < q.N, k.results.likeliest_state);
            PBT_CHECK("likeliest-state", q.ambiguous || k.results.likeliest_state == q.likeliest, "state ", k.results.likeliest_state, " expected ", q.likeliest);
            if (!q.ambiguous) PBT_CLOSE("progress", k.results.progress, static_cast<double>(q.progress), tol, tol, "class ", r.labels[c]);
        }
        ++compared;
    }
    if (compared >= 6 && (s.labels.size() > 1 || maxN > 1)) g.nontrivial();
    if (r.underflow) g.label("stopped: a state's mass became negligible");
    g.label(h.randomised ? "random parameters" : "trained parameters");
}
