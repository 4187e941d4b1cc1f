// C32: whatever observations arrive (outliers, broken sensors, values that are no numbers), recognition stays well-formed
// and recovers.
#include "anymodel.hpp"

namespace {
const float NANF = std::numeric_limits<float>::quiet_NaN(), INFF = std::numeric_limits<float>::infinity(), MAXF = std::numeric_limits<float>::max();
// what a faulty or wild source does to an ordinary frame; true when a value is no finite number
bool spoil(Gen &g, std::vector<float> &x, double scale, double &reach) {
    bool bad = false;
    int kind = g.integer(0, 6);
    float v = 0;
    switch (kind) {
        case 0: v = static_cast<float>(scale * g.logreal(10, 1e6)); break;
        case 1: v = static_cast<float>(g.logreal(1e6, 1e38)); break;
        case 2: v = MAXF; break;
        case 3: v = g.oneof({1e-45f, std::numeric_limits<float>::min(), 0.f}); break;
        case 4: v = NANF; break;
        case 5: v = INFF; break;
        default: v = static_cast<float>(scale * g.logreal(3, 40));
    }
    if (g.coin()) v = -v;
    bool all = g.coin();
    size_t one = g.raw(x.size() - 1);
    for (size_t i = 0; i < x.size(); ++i)
        if (all || i == one) x[i] = v;
    for (float f : x) {
        bad |= !std::isfinite(f);
        if (std::isfinite(f)) reach = std::max(reach, std::fabs(static_cast<double>(f)));
    }
    g.label(kind == 0 ? "outlier" : kind == 1 ? "huge" : kind == 2 ? "FLT_MAX" : kind == 3 ? "tiny" : kind == 4 ? "NaN" : kind == 5 ? "infinite" : "far");
    return bad;
}
template <typename R>
void common(const R &r, const std::vector<std::string> &labels, bool window1) {
    size_t n = labels.size();
    auto sized = [&](const std::vector<double> &v, const char *what) { PBT_CHECK("size", v.size() == n, what, ": ", v.size(), " values for ", n, " classes"); };
    sized(r.instant_likelihoods, "instant_likelihoods");
    sized(r.instant_normalized_likelihoods, "instant_normalized_likelihoods");
    sized(r.smoothed_likelihoods, "smoothed_likelihoods");
    sized(r.smoothed_normalized_likelihoods, "smoothed_normalized_likelihoods");
    sized(r.smoothed_log_likelihoods, "smoothed_log_likelihoods");
    double si = 0, ss = 0, best = -std::numeric_limits<double>::infinity();
    for (size_t i = 0; i < n; ++i) {
        PBT_CHECK("likelihood", std::isfinite(r.instant_likelihoods[i]) && r.instant_likelihoods[i] >= 0, "instantaneous likelihood of '", labels[i], "' is ", r.instant_likelihoods[i]);
        PBT_CHECK("likelihood", std::isfinite(r.smoothed_likelihoods[i]) && r.smoothed_likelihoods[i] >= 0, "smoothed likelihood of '", labels[i], "' is ", r.smoothed_likelihoods[i]);
        PBT_CHECK("log-likelihood", std::isfinite(r.smoothed_log_likelihoods[i]), "smoothed log-likelihood of '", labels[i], "' is ", r.smoothed_log_likelihoods[i]);
        PBT_CHECK("normalized", r.instant_normalized_likelihoods[i] >= 0 && r.instant_normalized_likelihoods[i] <= 1 + 1e-9, "normalised likelihood of '", labels[i], "' is ", r.instant_normalized_likelihoods[i]);
        PBT_CHECK("normalized", r.smoothed_normalized_likelihoods[i] >= 0 && r.smoothed_normalized_likelihoods[i] <= 1 + 1e-9, "smoothed normalised likelihood of '", labels[i], "' is ", r.smoothed_normalized_likelihoods[i]);
        si += r.instant_normalized_likelihoods[i];
        ss += r.smoothed_normalized_likelihoods[i];
        best = std::max(best, r.smoothed_log_likelihoods[i]);
    }
    PBT_CLOSE("normalized-sum", si, 1., 0, 1e-9, "instantaneous");
    PBT_CLOSE("normalized-sum", ss, 1., 0, 1e-9, "smoothed");
    auto it = std::find(labels.begin(), labels.end(), r.likeliest);
    PBT_CHECK("likeliest", it != labels.end(), "'", r.likeliest, "' is not a class");
    PBT_CHECK("likeliest", r.smoothed_log_likelihoods[static_cast<size_t>(it - labels.begin())] >= best, "'", r.likeliest, "' is not the likeliest class");
}
void wellFormed(AnyModel &m, const SetSpec &s, const Setup &u) {
    if (m.hm) common(m.hm->results, s.labels, u.window == 1);
    else common(m.gm->results, s.labels, u.window == 1);
    if (!m.hm) {
        for (auto &k : m.gm->models) {
            double sum = 0;
            for (double b : k.second.beta) {
                PBT_CHECK("responsibility", b >= 0 && b <= 1 + 1e-6, "'", k.first, "' responsibility ", b);
                sum += b;
            }
            PBT_CLOSE("responsibility", sum, 1., 0, 1e-4, "'", k.first, "'");
        }
        return;
    }
    double total = 0;
    for (auto &k : m.hm->models) {
        auto &c = k.second;
        PBT_CHECK("progress", c.results.progress >= 0 && c.results.progress <= 1 + 1e-6, "'", k.first, "' progress ", c.results.progress);
        PBT_CHECK("state", c.results.likeliest_state < c.states.size(), "'", k.first, "' likeliest state ", c.results.likeliest_state);
        double sum = 0;
        if (m.hm->configuration.hierarchical.get()) {
            for (auto &a : c.alpha_h)
                for (double v : a) {
                    PBT_CHECK("state-probability", v >= 0 && v <= 1 + 1e-6, "'", k.first, "' probability ", v);
                    sum += v;
                }
            PBT_CHECK("exit", std::isfinite(c.results.exit_likelihood) && std::isfinite(c.results.exit_ratio), "'", k.first, "' exit ", c.results.exit_likelihood, " ", c.results.exit_ratio);
            total += sum;
        } else {
            for (double v : c.alpha) {
                PBT_CHECK("state-probability", v >= 0 && v <= 1 + 1e-6, "'", k.first, "' probability ", v);
                sum += v;
            }
            PBT_CLOSE("state-probability", sum, 1., 0, 1e-5, "'", k.first, "'");
        }
    }
    if (m.hm->configuration.hierarchical.get()) PBT_CLOSE("state-probability", total, 1., 0, 1e-5, "all classes");
}
void finiteOutputs(AnyModel &m, const SetSpec &s, double bound) {
    auto ok = [&](const auto &r) {
        PBT_CHECK("output", r.output_values.size() == s.outDim(), r.output_values.size(), " outputs");
        for (float v : r.output_values) PBT_CHECK("output", std::isfinite(v) && std::fabs(v) <= bound, "output ", v, ", at most ", bound, " expected");
        for (float v : r.output_covariance) PBT_CHECK("output", std::isfinite(v), "output covariance ", v, "\n", m.results(), m.text());
    };
    if (m.hm) ok(m.hm->results);
    else ok(m.gm->results);
}
}  // namespace

PBT_FACET(streams, 8000, 120000, "2 or more classes and 2 or more spoilt frames, at least one followed by ordinary ones") {
    SetOpts o;
    o.minLen = 8;
    o.maxLen = 20;
    SetSpec s = genSet(g, o);
    Setup u = genSetup(g, s);
    noteSet(g, s);
    g.note(setupStr(u));
    AnyModel m(u);
    m.train(makeTS(s).get());
    PBT_CHECK("trained", m.size() == s.labels.size(), m.size(), " classes");
    ObsStream obs(s);
    int spoilt = 0, after = 0;
    bool recent = false;
    for (size_t n = 0; g.more(n, 30, 12); ++n) {
        auto x = obs.next(g);
        double reach = 0;
        bool bad = false, sp = g.chance(1, 3);
        if (sp) bad = spoil(g, x, s.scale, reach);
        g.note(sp ? "spoilt" : "frame");
        for (float v : x) g.note(" ", v);
        g.note("\n");
        m.filter(x);
        wellFormed(m, s, u);
        if (s.bi && !bad && reach < 1e30) finiteOutputs(m, s, 1e38);
        spoilt += sp;
        if (!sp && recent) after = 1;
        recent = sp;
    }
    // recovery: from a reset on, the past does not matter
    AnyModel fresh = m.copy();
    m.reset();
    fresh.reset();
    bool window = !u.hmm && g.coin();
    AnyModel w = m.copy();
    if (window) {  // a mixture forgets without a reset, as soon as the smoothing window has passed
        auto x = obs.next(g);
        double reach = 0;
        spoil(g, x, s.scale, reach);
        w.filter(x);
    }
    size_t total = u.window + 3;
    for (size_t n = 0; n < total; ++n) {
        auto x = obs.next(g);
        m.filter(x);
        fresh.filter(x);
        PBT_CHECK("recovery", m.results() == fresh.results(), "after a reset, results\n", m.results(), "\n", fresh.results());
        if (window) {
            w.filter(x);
            auto &a = m.gm->results, &b = w.gm->results;
            PBT_CHECK("recovery", a.instant_likelihoods == b.instant_likelihoods, "after a spoilt frame");
            for (size_t i = 0; n + 1 >= u.window && i < s.labels.size(); ++i)  // summed in another order
                PBT_CLOSE("recovery", b.smoothed_log_likelihoods[i], a.smoothed_log_likelihoods[i], 1e-12, 1e-9, "past the smoothing window, '", s.labels[i], "'");
        }
    }
    if (spoilt >= 2 && after && s.labels.size() > 1) g.nontrivial();
}
