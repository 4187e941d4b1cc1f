// Generators of training sets, configurations and trained models, and independent reference recognisers.
#pragma once
#include "linalg.hpp"
#include <deque>
#include <thread>

typedef xmm::GaussianDistribution::CovarianceMode Cov;
typedef xmm::HMM::TransitionMode Trans;
typedef xmm::HMM::RegressionEstimator RegEst;
typedef xmm::MultiClassRegressionEstimator MultiEst;
typedef xmm::MultithreadingMode Threads;

// --- data ----------------------------------------------------------------------------------------------
struct PhraseSpec {
    int index;
    std::string label;
    std::vector<std::vector<float>> fr;
};
struct SetSpec {
    bool bi = false;
    bool big = false;  // a few cases are larger than the rest: more classes, phrases, frames, dimensions, states and components
    unsigned D = 1, DI = 0;
    double scale = 1;
    std::vector<PhraseSpec> ph;
    std::vector<std::string> labels;  // distinct, sorted
    unsigned inDim() const { return bi ? DI : D; }
    unsigned outDim() const { return bi ? D - DI : 0; }
    std::vector<const PhraseSpec *> of(const std::string &l) const {
        std::vector<const PhraseSpec *> r;
        for (auto &p : ph)
            if (p.label == l) r.push_back(&p);
        return r;
    }
};
struct SetOpts {
    int minClasses = 1, maxClasses = 3, minPhrases = 1, maxPhrases = 3, minLen = 8, maxLen = 30, maxD = 4;
    int bimodal = -1;      // -1: either
    double sep = 4;        // spread of class offsets
    bool oddLabels = false;
    bool flatDims = true;  // allow dimensions that hardly vary
    int big = 30;          // one case in so many is larger (0: none)
};
inline std::vector<float> specFrame(Gen &, unsigned stream, unsigned t, unsigned D) { return drow(stream, t, D); }
inline SetSpec genSet(Gen &g, const SetOpts &opts = SetOpts()) {
    SetSpec s;
    SetOpts o = opts;
    if (o.big && g.chance(1, o.big)) {
        s.big = true;
        o.maxD += 4;
        if (o.maxClasses > 1) o.maxClasses += 3;
        if (o.maxPhrases > 1) o.maxPhrases += 3;
        o.minLen = std::max(o.minLen, 14);
        o.maxLen = std::max(o.maxLen, 40);
        g.label("large");
    } else if (o.big && g.chance(1, 2 * o.big)) {
        o.maxLen = std::max(o.maxLen, 320);
        g.label("long phrases");
    }
    if (o.big && g.chance(1, 10)) o.oddLabels = true;
    s.bi = o.bimodal < 0 ? g.coin() : o.bimodal != 0;
    s.D = static_cast<unsigned>(g.integer(s.bi ? 2 : 1, std::max(o.maxD, s.bi ? 2 : 1)));
    s.DI = s.bi ? static_cast<unsigned>(g.integer(1, static_cast<int>(s.D) - 1)) : 0;
    s.scale = g.oneof({1., 1., 0.1, 20.});
    int C = g.integer(o.minClasses, o.maxClasses);
    std::vector<std::string> names;
    for (int c = 0; c < C; ++c) {
        static const std::vector<std::string> plain = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"};
        std::string n = o.oddLabels ? genLabel(g) : plain[static_cast<size_t>(c)];
        while (std::find(names.begin(), names.end(), n) != names.end()) n += "'";
        names.push_back(n);
    }
    int index = 0;
    std::vector<PhraseSpec> all;
    for (int c = 0; c < C; ++c) {
        unsigned stream = static_cast<unsigned>(g.raw(1u << 20));
        std::vector<double> off(s.D), amp(s.D), freq(s.D), noise(s.D);
        for (unsigned d = 0; d < s.D; ++d) {
            off[d] = g.smooth(-o.sep, o.sep);
            amp[d] = o.flatDims && g.chance(1, 8) ? 0 : g.smooth(-3, 3);
            freq[d] = g.smooth(0.3, 1.5);
            noise[d] = g.smooth(0.1, 0.6);
        }
        int P = g.integer(o.minPhrases, o.maxPhrases);
        for (int p = 0; p < P; ++p) {
            PhraseSpec q;
            q.label = names[static_cast<size_t>(c)];
            int L = g.integer(o.minLen, o.maxLen);
            for (int t = 0; t < L; ++t) {
                std::vector<float> f(s.D);
                auto n = drow(stream + static_cast<unsigned>(p) * 977u, static_cast<unsigned>(t), s.D);
                for (unsigned d = 0; d < s.D; ++d) {
                    double u = 6.28318 * freq[d] * (static_cast<double>(t) + 0.3 * p) / L;
                    f[d] = static_cast<float>(s.scale * (off[d] + amp[d] * std::sin(u) + noise[d] * static_cast<double>(n[d]) / 64.));
                }
                q.fr.push_back(f);
            }
            all.push_back(q);
        }
    }
    // phrases of the classes are interleaved in index order
    while (!all.empty()) {
        size_t k = g.raw(all.size() - 1);
        index += g.chance(1, 4) ? g.integer(1, 5) : 1;
        all[k].index = index;
        s.ph.push_back(all[k]);
        all.erase(all.begin() + static_cast<long>(k));
    }
    s.labels = names;
    std::sort(s.labels.begin(), s.labels.end());
    return s;
}
inline void noteSet(Gen &g, const SetSpec &s) {
    g.note(s.bi ? "bimodal" : "unimodal", " D=", s.D, " DI=", s.DI, " phrases");
    for (auto &p : s.ph) g.note(" ", p.index, ":'", p.label, "'x", p.fr.size());
    g.note("\n");
}
inline void fillPhrase(xmm::Phrase &p, const PhraseSpec &q) {
    for (auto &f : q.fr) p.record(f);
}
inline std::unique_ptr<xmm::TrainingSet> makeTS(const SetSpec &s) {
    std::unique_ptr<xmm::TrainingSet> ts(
        new xmm::TrainingSet(xmm::MemoryMode::OwnMemory, s.bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal));
    ts->dimension.set(s.D);
    if (s.bi) ts->dimension_input.set(s.DI);
    for (auto &p : s.ph) {
        ts->addPhrase(p.index, p.label);
        fillPhrase(*ts->getPhrase(p.index), p);
    }
    return ts;
}
inline std::vector<float> cut(const std::vector<float> &f, unsigned n) { return std::vector<float>(f.begin(), f.begin() + n); }

// --- configurations -------------------------------------------------------------------------------------
struct ClassCfg {
    unsigned gaussians = 1, states = 3;
    double rel = 0.05, abs = 0.1;
    bool diag = false, ergodic = false, hier = true;
    int est = 0;  // HMM regression estimator
};
template <typename P>
inline void setCommon(P &p, const ClassCfg &c) {
    p.gaussians.set(c.gaussians);
    p.relative_regularization.set(c.rel);
    p.absolute_regularization.set(c.abs);
    p.covariance_mode.set(c.diag ? Cov::Diagonal : Cov::Full);
}
inline void setCfg(xmm::ClassParameters<xmm::GMM> &p, const ClassCfg &c) { setCommon(p, c); }
inline void setCfg(xmm::ClassParameters<xmm::HMM> &p, const ClassCfg &c) {
    setCommon(p, c);
    p.states.set(c.states);
    p.transition_mode.set(c.ergodic ? Trans::Ergodic : Trans::LeftRight);
    p.regression_estimator.set(c.est == 0 ? RegEst::Full : c.est == 1 ? RegEst::Windowed : RegEst::Likeliest);
    p.hierarchical.set(c.hier);
}
inline ClassCfg genCfg(Gen &g, const SetSpec &s, int maxGauss, int maxStates = 5);
inline ClassCfg genCfg(Gen &g, double scale, int maxGauss, int maxStates = 5) {
    ClassCfg c;
    c.gaussians = static_cast<unsigned>(g.integer(1, maxGauss));
    c.states = static_cast<unsigned>(g.integer(1, maxStates));
    c.rel = g.logreal(0.01, 0.2);
    c.abs = scale * scale * g.logreal(0.02, 0.3);
    c.diag = g.chance(1, 3);
    c.ergodic = g.chance(1, 3);
    c.est = g.integer(0, 2);
    return c;
}
inline ClassCfg genCfg(Gen &g, const SetSpec &s, int maxGauss, int maxStates) {
    return genCfg(g, s.scale, s.big ? maxGauss + 3 : maxGauss, s.big ? 12 : maxStates);
}
inline std::string cfgStr(const ClassCfg &c) {
    return str("gaussians ", c.gaussians, " states ", c.states, " rel ", c.rel, " abs ", c.abs, c.diag ? " diag" : " full", c.ergodic ? " ergodic" : " left-right",
               c.hier ? " hierarchical" : " flat", " estimator ", c.est);
}
template <typename M>
inline void exactIterations(M &m, unsigned n) {
    m.shared_parameters->em_algorithm_min_iterations.set(n);
    m.shared_parameters->em_algorithm_max_iterations.set(n);
}

// --- reference Gaussian mixtures -------------------------------------------------------------------------
struct RefGmmClass {
    std::vector<RefGauss> comp;
    std::vector<LD> coeff;
    bool diag = false, bi = false;
    unsigned D = 1, DI = 0;
    static RefGmmClass from(const xmm::SingleClassGMM &c, bool bi, unsigned D, unsigned DI) {
        RefGmmClass r;
        r.bi = bi;
        r.D = D;
        r.DI = DI;
        r.diag = c.parameters.covariance_mode.get() == Cov::Diagonal;
        for (auto &k : c.components) r.comp.push_back(fromGauss(k, bi));
        r.coeff.assign(c.mixture_coeffs.begin(), c.mixture_coeffs.end());
        return r;
    }
    static LD fl(LD logp) {
        LD p = expl(logp);
        return p < 1e-180L ? 1e-180L : p;
    }
    LD joint(size_t c, const std::vector<float> &x) const { return coeff[c] * fl(comp[c].logp(x.begin())); }
    LD input(size_t c, const std::vector<float> &x) const { return coeff[c] * fl(bi ? comp[c].logpIn(x.begin()) : comp[c].logp(x.begin())); }
    LD joint(const std::vector<float> &x) const {
        LD p = 0;
        for (size_t c = 0; c < comp.size(); ++c) p += joint(c, x);
        return p;
    }
    LD input(const std::vector<float> &x) const {
        LD p = 0;
        for (size_t c = 0; c < comp.size(); ++c) p += input(c, x);
        return p;
    }
    std::vector<LD> resp(const std::vector<float> &x) const {
        std::vector<LD> b;
        LD p = input(x);
        for (size_t c = 0; c < comp.size(); ++c) b.push_back(input(c, x) / p);
        return b;
    }
    // regression: value and covariance (always DOxDO here)
    void regress(const std::vector<float> &x, std::vector<LD> &y, Mat &cov, LD &ymag) const {
        unsigned DO = D - DI;
        ymag = 0;
        y.assign(DO, 0);
        cov = zeros(DO, DO);
        auto b = resp(x);
        for (size_t c = 0; c < comp.size(); ++c) {
            auto m = comp[c].condMean(x.begin());
            Mat cc = comp[c].condCov();
            ymag += b[c] * comp[c].condMag(x.begin());
            for (unsigned i = 0; i < DO; ++i) {
                y[i] += b[c] * m[i];
                for (unsigned j = 0; j < DO; ++j) cov[i][j] += b[c] * b[c] * cc[i][j];
            }
        }
    }
    LD worstCond() const {
        LD m = 1;
        for (auto &c : comp) m = std::max(m, c.condNumber());
        return m;
    }
};
struct RefWindow {
    size_t n = 1;
    std::deque<LD> v;
    void push(LD x) {
        v.push_back(x);
        if (v.size() > n) v.pop_front();
    }
    LD mean() const {
        LD s = 0;
        for (auto x : v) s += x;
        return s / static_cast<LD>(v.size());
    }
};
// what a multi-class model reports, computed from per-class log-likelihoods
struct RefClassOut {
    LD inst = 0, loglik = 0, ymag = 0;
    std::vector<LD> y;
    Mat cov;
    bool diag = false;
};
inline Mat diagonalOf(const Mat &c) {
    Mat o = c;
    for (size_t i = 0; i < o.size(); ++i)
        for (size_t j = 0; j < o.size(); ++j)
            if (i != j) o[i][j] = 0;
    return o;
}
inline void checkCov(const char *tag, const std::vector<float> &got, const Mat &want, bool full, double rel, double abs, const std::string &where) {
    size_t n = want.size();
    PBT_CHECK(tag, got.size() == (full ? n * n : n), where, " covariance of ", got.size(), " values");
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            if (full || i == j) PBT_CLOSE(tag, got[full ? i * n + j : i], static_cast<double>(want[i][j]), rel, abs, where, " entry ", i, ",", j);
}
// Checks the model-level results against per-class values (one entry per class, in label order).
template <typename Results>
void checkResults(const Results &r, const std::vector<std::string> &labels, const std::vector<RefClassOut> &cl, bool bi, bool mixture, bool fullCov, double tol,
                  double ytol) {
    size_t n = labels.size();
    PBT_CHECK("results-sizes", r.instant_likelihoods.size() == n && r.instant_normalized_likelihoods.size() == n && r.smoothed_likelihoods.size() == n &&
                                   r.smoothed_normalized_likelihoods.size() == n && r.smoothed_log_likelihoods.size() == n, n, " classes");
    LD si = 0, ss = 0, best = 0;
    for (size_t i = 0; i < n; ++i) {
        si += cl[i].inst;
        ss += expl(cl[i].loglik);
        if (i == 0 || cl[i].loglik > best) best = cl[i].loglik;
    }
    size_t like = n;
    double sumi = 0, sums = 0;
    for (size_t i = 0; i < n; ++i) {
        PBT_CLOSE("instant-likelihood", std::log(r.instant_likelihoods[i]), static_cast<double>(logl(cl[i].inst)), 0, tol, "class ", labels[i]);
        PBT_CLOSE("smoothed-log-likelihood", r.smoothed_log_likelihoods[i], static_cast<double>(cl[i].loglik), 0, tol, "class ", labels[i]);
        PBT_CLOSE("smoothed-likelihood", std::log(r.smoothed_likelihoods[i]), static_cast<double>(cl[i].loglik), 0, tol * 2, "class ", labels[i]);
        PBT_CLOSE("instant-normalized", r.instant_normalized_likelihoods[i], static_cast<double>(cl[i].inst / si), tol * 4, tol, "class ", labels[i]);
        PBT_CLOSE("smoothed-normalized", r.smoothed_normalized_likelihoods[i], static_cast<double>(expl(cl[i].loglik) / ss), tol * 4, tol, "class ", labels[i]);
        sumi += r.instant_normalized_likelihoods[i];
        sums += r.smoothed_normalized_likelihoods[i];
        if (labels[i] == r.likeliest) like = i;
    }
    PBT_CLOSE("normalized-sum", sumi, 1., 0, 1e-9);
    PBT_CLOSE("normalized-sum", sums, 1., 0, 1e-9);
    PBT_CHECK("likeliest", like < n, "likeliest is '", r.likeliest, "', which is not a class");
    PBT_CHECK("likeliest", cl[like].loglik >= best - tol, "likeliest is '", r.likeliest, "' with smoothed log-likelihood ", static_cast<double>(cl[like].loglik), " but the best is ",
              static_cast<double>(best));
    if (!bi) return;
    size_t DO = cl[0].y.size();
    PBT_CHECK("output-size", r.output_values.size() == DO, r.output_values.size(), " outputs, expected ", DO);
    if (!mixture) {
        for (size_t d = 0; d < DO; ++d) PBT_CLOSE("output-likeliest", r.output_values[d], static_cast<double>(cl[like].y[d]), 1e-5, ytol, "output ", d);
        checkCov("output-covariance-likeliest", r.output_covariance, cl[like].cov, !cl[like].diag, 1e-4, ytol, "model");
    } else {
        Mat cov = zeros(DO, DO);
        for (size_t d = 0; d < DO; ++d) {
            LD y = 0;
            for (size_t i = 0; i < n; ++i) y += expl(cl[i].loglik) / ss * cl[i].y[d];
            PBT_CLOSE("output-mixture", r.output_values[d], static_cast<double>(y), 1e-5, ytol, "output ", d);
        }
        for (size_t i = 0; i < n; ++i) {
            Mat c = cl[i].diag ? diagonalOf(cl[i].cov) : cl[i].cov;
            for (size_t a = 0; a < DO; ++a)
                for (size_t b = 0; b < DO; ++b) cov[a][b] += expl(cl[i].loglik) / ss * c[a][b];
        }
        checkCov("output-covariance-mixture", r.output_covariance, cov, fullCov, 1e-4, ytol, "model");
    }
}
// --- hand-made parameters: random well-conditioned Gaussians placed in the data's range ---------------------
inline RefGauss genGaussLike(Gen &g, const SetSpec &s, bool diag, double spread = 5) {
    RefGauss r;
    r.bimodal = s.bi;
    r.D = s.D;
    r.DI = s.DI;
    r.diag = diag;
    r.mean.resize(r.D);
    for (auto &m : r.mean) m = s.scale * g.smooth(-spread, spread);
    r.cov = genSPD(g, r.D, 0.3, 2.);
    for (auto &row : r.cov)
        for (auto &v : row) v = static_cast<double>(v * s.scale * s.scale);
    r.finish();
    return r;
}
inline void randomise(Gen &g, xmm::SingleClassGMM &c, const SetSpec &s, double spread = 5) {
    bool diag = c.parameters.covariance_mode.get() == Cov::Diagonal;
    double sum = 0;
    std::vector<double> w;
    for (size_t k = 0; k < c.components.size(); ++k) {
        c.components[k] = makeGauss(genGaussLike(g, s, diag, spread));
        w.push_back(g.logreal(0.02, 1));
        sum += w.back();
    }
    for (size_t k = 0; k < w.size(); ++k) c.mixture_coeffs[k] = static_cast<float>(w[k] / sum);
}
// An observation: near some training frame, between them, or far away.
inline std::vector<float> genObs(Gen &g, const SetSpec &s, const SetSpec *in = nullptr) {
    (void)in;
    std::vector<float> x(s.inDim());
    const PhraseSpec &p = s.ph[g.raw(s.ph.size() - 1)];
    const std::vector<float> &f = p.fr[g.raw(p.fr.size() - 1)];
    int kind = g.integer(0, 7);
    double w = kind <= 4 ? 0.3 : kind <= 6 ? 3. : 40.;
    for (size_t d = 0; d < x.size(); ++d) x[d] = static_cast<float>(f[d] + s.scale * g.smooth(-w, w));
    return x;
}
// --- multi-class GMM: reference filter over the parameters a trained model holds ---------------------------------
struct RefGmm {
    std::vector<std::string> labels;
    std::vector<RefGmmClass> cls;
    std::vector<RefWindow> win;
    bool bi = false;
    static RefGmm from(const xmm::GMM &m, const SetSpec &s) {
        RefGmm r;
        r.bi = s.bi;
        for (auto &k : m.models) {
            r.labels.push_back(k.first);
            r.cls.push_back(RefGmmClass::from(k.second, s.bi, s.D, s.DI));
        }
        r.reset(m.shared_parameters->likelihood_window.get());
        return r;
    }
    void reset(size_t window) {
        win.assign(cls.size(), RefWindow());
        for (auto &w : win) w.n = window;
    }
    std::vector<RefClassOut> filter(const std::vector<float> &x) {
        std::vector<RefClassOut> o(cls.size());
        for (size_t i = 0; i < cls.size(); ++i) {
            o[i].inst = cls[i].input(x);
            win[i].push(logl(o[i].inst));
            o[i].loglik = win[i].mean();
            o[i].diag = cls[i].diag;
            if (bi) {
                cls[i].regress(x, o[i].y, o[i].cov, o[i].ymag);
                if (cls[i].diag) o[i].cov = diagonalOf(o[i].cov);
            }
        }
        return o;
    }
    LD worstCond() const {
        LD m = 1;
        for (auto &c : cls) m = std::max(m, c.worstCond());
        return m;
    }
};
// A trained GMM, optionally with its parameters replaced by random ones and with class-specific parameters.
struct GmmOpts {
    bool classCfg = true, mixture = false;
    double spread = 5;
};
inline std::unique_ptr<xmm::GMM> genGmm(Gen &g, const SetSpec &s, bool &custom, int maxGauss = 3) {
    std::unique_ptr<xmm::GMM> m(new xmm::GMM(s.bi));
    ClassCfg c = genCfg(g, s, maxGauss);
    g.note(cfgStr(c), "\n");
    setCfg(m->configuration, c);
    m->configuration.multithreading = Threads::Sequential;
    custom = false;
    for (auto &l : s.labels)
        if (g.chance(1, 4)) {
            ClassCfg k = genCfg(g, s, maxGauss);
            g.note("class '", l, "': ", cfgStr(k), "\n");
            setCfg(m->configuration[l], k);
            if (k.diag != c.diag || k.gaussians != c.gaussians) custom = true;
        }
    exactIterations(*m, static_cast<unsigned>(g.integer(1, 3)));
    auto ts = makeTS(s);
    m->train(ts.get());
    PBT_CHECK("trained", m->size() == s.labels.size(), m->size(), " classes trained out of ", s.labels.size());
    if (g.chance(2, 3)) {
        for (auto &k : m->models) randomise(g, k.second, s);
        g.note("parameters replaced by random ones\n");
    }
    return m;
}
