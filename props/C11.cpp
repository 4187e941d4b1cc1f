// C11: training a GMM is expectation-maximisation from the documented initialisation.
#include "model.hpp"

namespace {
struct Log {
    std::map<std::string, std::vector<xmm::TrainingEvent>> ev;
    void on(xmm::TrainingEvent const &e) { ev[e.label].push_back(e); }
};
std::vector<const std::vector<float> *> frames(const SetSpec &s, const std::string &l) {
    std::vector<const std::vector<float> *> r;
    for (auto p : s.of(l))
        for (auto &f : p->fr) r.push_back(&f);
    return r;
}
std::vector<LD> regularisation(const SetSpec &s, const std::string &l, const ClassCfg &c) {
    auto fr = frames(s, l);
    std::vector<LD> r(s.D);
    for (unsigned d = 0; d < s.D; ++d) {
        LD m = 0, v = 0;
        for (auto f : fr) m += (*f)[d];
        m /= static_cast<LD>(fr.size());
        for (auto f : fr) v += ((*f)[d] - m) * ((*f)[d] - m);
        r[d] = std::max(static_cast<LD>(c.abs), static_cast<LD>(c.rel) * sqrtl(v / static_cast<LD>(fr.size())));
    }
    return r;
}
// one EM iteration; returns the log-likelihood under the incoming parameters
LD emStep(const RefGmmClass &a, const std::vector<const std::vector<float> *> &fr, const std::vector<LD> &reg, RefGmmClass &b, LD &minE) {
    size_t G = a.comp.size(), N = fr.size(), D = a.D;
    std::vector<std::vector<LD>> p(G, std::vector<LD>(N));
    std::vector<LD> E(G, 0);
    LD ll = 0;
    for (size_t t = 0; t < N; ++t) {
        LD n = 0;
        for (size_t c = 0; c < G; ++c) n += p[c][t] = a.joint(c, *fr[t]);
        for (size_t c = 0; c < G; ++c) {
            p[c][t] /= n;
            E[c] += p[c][t];
        }
        ll += logl(n);
    }
    b = a;
    minE = E[0];
    for (size_t c = 0; c < G; ++c) {
        minE = std::min(minE, E[c]);
        b.coeff[c] = E[c] / static_cast<LD>(N);
        for (size_t d = 0; d < D; ++d) {
            LD m = 0;
            for (size_t t = 0; t < N; ++t) m += p[c][t] * (*fr[t])[d];
            b.comp[c].mean[d] = m / E[c];
        }
        for (size_t d = 0; d < D; ++d)
            for (size_t e = 0; e < D; ++e) {
                LD v = 0;
                for (size_t t = 0; t < N; ++t) v += p[c][t] * ((*fr[t])[d] - b.comp[c].mean[d]) * ((*fr[t])[e] - b.comp[c].mean[e]);
                b.comp[c].cov[d][e] = v / E[c] + (d == e ? reg[d] : 0);
            }
        b.comp[c].finish();
    }
    return ll;
}
void compare(const xmm::SingleClassGMM &c, const RefGmmClass &r, double tol, const char *tag) {
    PBT_CHECK(tag, c.components.size() == r.comp.size() && c.mixture_coeffs.size() == r.comp.size(), c.components.size(), " components");
    for (size_t k = 0; k < r.comp.size(); ++k) {
        PBT_CLOSE(tag, c.mixture_coeffs[k], static_cast<double>(r.coeff[k]), 1e-5, tol, "mixture coefficient ", k);
        LD sd = 0;
        for (size_t d = 0; d < r.D; ++d) sd = std::max(sd, sqrtl(r.comp[k].cov[d][d]));
        for (size_t d = 0; d < r.D; ++d) {
            PBT_CLOSE(tag, c.components[k].mean[d], static_cast<double>(r.comp[k].mean[d]), tol, tol * static_cast<double>(sd), "mean ", k, "[", d, "]");
            for (size_t e = 0; e < r.D; ++e) {
                if (r.diag && d != e) continue;
                PBT_CLOSE(tag, c.components[k].covariance[r.diag ? d : d * r.D + e], static_cast<double>(r.comp[k].cov[d][e]), tol,
                          tol * static_cast<double>(sd * sd), "covariance ", k, "[", d, ",", e, "]");
            }
        }
    }
}
void configure(xmm::GMM &m, const ClassCfg &c, unsigned n) {
    setCfg(m.configuration, c);
    m.configuration.multithreading = Threads::Sequential;
    exactIterations(m, n);
}
}  // namespace

PBT_FACET(em_step, 12000, 250000, "2 or more components and 2 or more phrases, all components keep some weight") {
    SetOpts o;
    o.maxClasses = 2;
    SetSpec s = genSet(g, o);
    ClassCfg c = genCfg(g, s, 4);
    unsigned n = static_cast<unsigned>(g.integer(1, 4));
    noteSet(g, s);
    g.note(cfgStr(c), ", iterations ", n, " -> ", n + 1, "\n");
    auto ts = makeTS(s);
    xmm::GMM a(s.bi), b(s.bi);
    configure(a, c, n);
    configure(b, c, n + 1);
    Log log;
    b.training_events.addListener(&log, &Log::on);
    a.train(ts.get());
    b.train(ts.get());
    bool good = true;
    for (auto &l : s.labels) {
        PBT_CHECK("trained", a.models.count(l) && b.models.count(l), "class '", l, "' was not trained");
        RefGmmClass r = RefGmmClass::from(a.models[l], s.bi, s.D, s.DI), q;
        if (r.worstCond() > 1e6L) throw pbt::Discard{"ill conditioned"};
        LD minE;
        LD ll = emStep(r, frames(s, l), regularisation(s, l, c), q, minE);
        if (minE < 1e-25L) throw pbt::Discard{"a component vanished"};
        if (minE < 1e-3L) good = false;
        // responsibilities of vanishing components lose relative precision
        compare(b.models[l], q, 2e-5, "em-step");
        PBT_CHECK("iterations", log.ev[l].size() >= n + 1, "only ", log.ev[l].size(), " events");
        PBT_CLOSE("log-likelihood", log.ev[l][n].log_likelihood, static_cast<double>(ll), 1e-6, 1e-4, "class ", l);
    }
    if (good && c.gaussians >= 2 && s.ph.size() >= 2) g.nontrivial();
    g.label(str(c.gaussians, " components"));
}

PBT_FACET(initialisation, 8000, 120000, "2 or more components and 2 or more phrases of the class") {
    SetOpts o;
    o.maxClasses = 2;
    SetSpec s = genSet(g, o);
    ClassCfg c = genCfg(g, s, 4);
    noteSet(g, s);
    g.note(cfgStr(c), "\n");
    auto ts = makeTS(s);
    xmm::GMM a(s.bi);
    configure(a, c, 1);
    a.train(ts.get());
    for (auto &l : s.labels) {
        PBT_CHECK("trained", a.models.count(l), "class '", l, "' was not trained");
        auto ph = s.of(l);
        auto reg = regularisation(s, l, c);
        xmm::KMeans km(c.gaussians);
        km.initialization_mode = xmm::KMeans::InitializationMode::Biased;
        km.train(ts->getPhrasesOfClass(l));
        RefGmmClass r, q;
        r.bi = s.bi;
        r.D = s.D;
        r.DI = s.DI;
        r.diag = c.diag;
        for (unsigned k = 0; k < c.gaussians; ++k) {
            RefGauss x;
            x.D = s.D;
            x.DI = s.DI;
            x.bimodal = s.bi;
            x.diag = c.diag;
            x.cov = zeros(s.D, s.D);
            for (unsigned d = 0; d < s.D; ++d) x.mean.push_back(km.centers[k * s.D + d]);
            std::vector<LD> m(s.D, 0);
            LD cnt = 0;
            for (auto p : ph) {
                size_t step = p->fr.size() / c.gaussians;
                for (size_t t = k * step; t < (k + 1) * step; ++t, cnt += 1)
                    for (unsigned d = 0; d < s.D; ++d) m[d] += p->fr[t][d];
            }
            for (auto &v : m) v /= cnt;
            for (auto p : ph) {
                size_t step = p->fr.size() / c.gaussians;
                for (size_t t = k * step; t < (k + 1) * step; ++t)
                    for (unsigned d = 0; d < s.D; ++d)
                        for (unsigned e = 0; e < s.D; ++e) x.cov[d][e] += (p->fr[t][d] - m[d]) * (p->fr[t][e] - m[e]) / cnt;
            }
            for (unsigned d = 0; d < s.D; ++d) x.cov[d][d] += reg[d];
            x.finish();
            r.comp.push_back(x);
            r.coeff.push_back(1.L / c.gaussians);
        }
        if (r.worstCond() > 1e5L) throw pbt::Discard{"ill conditioned"};
        LD minE;
        emStep(r, frames(s, l), reg, q, minE);
        if (minE < 1e-25L) throw pbt::Discard{"a component vanished"};
        compare(a.models[l], q, 2e-3, "initialisation");
        if (c.gaussians >= 2 && ph.size() >= 2) g.nontrivial();
    }
    g.label(str(c.gaussians, " components"));
}

PBT_FACET(wellformed, 3000, 60000, "2 or more classes or default configuration") {
    SetOpts o;
    o.maxClasses = 3;
    o.minLen = 10;
    o.oddLabels = true;
    SetSpec s = genSet(g, o);
    bool defaults = g.coin();
    ClassCfg c = genCfg(g, s, 6);
    if (defaults) {
        c = ClassCfg();
        c.gaussians = 10;
        c.rel = 1e-2;
        c.abs = 1e-3;
    }
    xmm::GMM m(s.bi);
    if (!defaults) setCfg(m.configuration, c);
    if (g.coin()) {
        m.shared_parameters->em_algorithm_min_iterations.set(static_cast<unsigned>(g.integer(1, 12)));
        m.shared_parameters->em_algorithm_max_iterations.set(static_cast<unsigned>(g.integer(0, 20)));
        m.shared_parameters->em_algorithm_percent_chg.set(g.logreal(0.01, 1));
    }
    noteSet(g, s);
    g.note(cfgStr(c), "\n");
    auto ts = makeTS(s);
    m.train(ts.get());
    PBT_CHECK("trained", m.trained() && !m.training() && m.size() == s.labels.size(), m.size(), " classes trained out of ", s.labels.size());
    PBT_CHECK("dimensions", m.shared_parameters->dimension.get() == s.D && (!s.bi || m.shared_parameters->dimension_input.get() == s.DI));
    for (auto &l : s.labels) {
        PBT_CHECK("trained", m.models.count(l), "class '", l, "' missing");
        auto &k = m.models[l];
        auto reg = regularisation(s, l, c);
        auto fr = frames(s, l);
        double sum = 0;
        PBT_CHECK("components", k.components.size() == c.gaussians && k.mixture_coeffs.size() == c.gaussians, k.components.size());
        for (unsigned i = 0; i < c.gaussians; ++i) {
            PBT_CHECK("coefficient", k.mixture_coeffs[i] >= 0 && k.mixture_coeffs[i] <= 1.0001, "coefficient ", k.mixture_coeffs[i]);
            sum += k.mixture_coeffs[i];
            auto &G = k.components[i];
            PBT_CHECK("component-shape", G.mean.size() == s.D && G.covariance.size() == (c.diag ? s.D : s.D * s.D), "component ", i);
            for (unsigned d = 0; d < s.D; ++d) {
                double lo = (*fr[0])[d], hi = lo;
                for (auto f : fr) {
                    lo = std::min<double>(lo, (*f)[d]);
                    hi = std::max<double>(hi, (*f)[d]);
                }
                double eps = 1e-5 * (std::fabs(lo) + std::fabs(hi)) + 1e-9;
                PBT_CHECK("mean-in-range", G.mean[d] >= lo - eps && G.mean[d] <= hi + eps, "mean ", G.mean[d], " outside [", lo, ",", hi, "]");
                double v = c.diag ? G.covariance[d] : G.covariance[d * s.D + d];
                double r = static_cast<double>(reg[d]);
                PBT_CHECK("variance-regularised", v >= r * (1 - 1e-4) - 1e-12 && v <= r + (hi - lo) * (hi - lo) + eps, "variance ", v, " regularisation ", r);
                for (unsigned e = 0; e < s.D && !c.diag; ++e) {
                    double w = G.covariance[d * s.D + e], ve = G.covariance[e * s.D + e];
                    PBT_CLOSE("covariance-symmetric", w, G.covariance[e * s.D + d], 1e-9, 1e-12);
                    PBT_CHECK("covariance-bound", w * w <= v * ve * (1 + 1e-6), "covariance ", w, " variances ", v, " ", ve);
                }
            }
        }
        PBT_CLOSE("coefficients-sum", sum, 1., 0, 1e-5);
        PBT_CHECK("label", k.label == l, k.label);
    }
    if (defaults || s.labels.size() > 1) g.nontrivial();
    g.label(defaults ? "default configuration" : "random configuration");
}
