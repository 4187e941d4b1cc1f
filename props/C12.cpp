// C12: training an HMM is Baum-Welch estimation from the documented segmental initialisation.
#include "hmmref.hpp"

namespace {
struct Log {
    std::map<std::string, std::vector<xmm::TrainingEvent>> ev;
    void on(xmm::TrainingEvent const &e) { ev[e.label].push_back(e); }
};
typedef std::vector<const PhraseSpec *> Phrases;

std::vector<LD> regularisation(const SetSpec &s, const Phrases &ph, const ClassCfg &c) {
    std::vector<LD> r(s.D);
    for (unsigned d = 0; d < s.D; ++d) {
        LD m = 0, v = 0, n = 0;
        for (auto p : ph)
            for (auto &f : p->fr) m += f[d], n += 1;
        m /= n;
        for (auto p : ph)
            for (auto &f : p->fr) v += (f[d] - m) * (f[d] - m);
        r[d] = std::max(static_cast<LD>(c.abs), static_cast<LD>(c.rel) * sqrtl(v / n));
    }
    return r;
}
// every state starts from a GMM of its share of each phrase
RefHmmClass initial(const SetSpec &s, const Phrases &ph, const ClassCfg &c, unsigned iter) {
    RefHmmClass r;
    unsigned N = r.N = c.states;
    r.bi = s.bi;
    r.diag = c.diag;
    r.ergodic = c.ergodic;
    for (unsigned n = 0; n < N; ++n) {
        SetSpec seg = s;
        seg.ph.clear();
        seg.labels = {"x"};
        for (auto p : ph) {
            size_t step = p->fr.size() / N;
            if (!step) continue;  // phrases shorter than the number of states start no state
            PhraseSpec q;
            q.index = p->index;
            q.label = "x";
            q.fr.assign(p->fr.begin() + static_cast<long>(n * step), p->fr.begin() + static_cast<long>((n + 1) * step));
            seg.ph.push_back(q);
        }
        xmm::GMM m(s.bi);
        setCfg(m.configuration, c);
        m.configuration.multithreading = Threads::Sequential;
        exactIterations(m, iter);
        auto ts = makeTS(seg);
        m.train(ts.get());
        PBT_CHECK("trained", m.models.count("x"), "a segment could not be trained");
        RefGmmClass k = RefGmmClass::from(m.models["x"], s.bi, s.D, s.DI);
        for (auto &v : k.coeff) v = 1.L / c.gaussians;
        r.st.push_back(k);
    }
    if (c.ergodic) {
        r.prior.assign(N, 1.L / N);
        r.trans.assign(N * N, 1.L / N);
    } else {
        r.trans.assign(2 * N, 0.5L);
        r.trans[2 * N - 2] = 1;
        r.trans[2 * N - 1] = 0;
    }
    return r;
}
// transition probability i -> j in either topology
LD tr(const RefHmmClass &r, unsigned i, unsigned j) {
    if (r.ergodic) return r.trans[i * r.N + j];
    return j == i ? r.trans[2 * i] : j == i + 1 ? r.trans[2 * i + 1] : 0;
}
// one Baum-Welch iteration; returns the log-likelihood of the phrases under the incoming parameters
LD baumWelch(const RefHmmClass &a, const Phrases &ph, const std::vector<LD> &reg, RefHmmClass &b, LD &minG) {
    unsigned N = a.N, D = a.st[0].D;
    size_t G = a.st[0].comp.size();
    LD ll = 0;
    b = a;
    std::vector<LD> gsum(N, 0), prior(N, 0);
    std::vector<std::vector<LD>> xi(N, std::vector<LD>(N, 0)), W(N, std::vector<LD>(G, 0));
    std::vector<std::vector<std::vector<LD>>> gm;  // phrase x (t*N+i) x c
    for (auto p : ph) {
        size_t T = p->fr.size();
        if (!T) {
            gm.emplace_back();
            continue;
        }
        std::vector<std::vector<LD>> o(T, std::vector<LD>(N)), al = o, be = o;
        std::vector<LD> sc(T);
        for (size_t t = 0; t < T; ++t)
            for (unsigned i = 0; i < N; ++i) o[t][i] = a.st[i].joint(p->fr[t]);
        for (size_t t = 0; t < T; ++t) {
            LD n = 0;
            for (unsigned j = 0; j < N; ++j) {
                LD v = 0;
                if (t == 0) v = a.ergodic ? a.prior[j] : (j == 0 ? 1 : 0);
                else
                    for (unsigned i = 0; i < N; ++i) v += al[t - 1][i] * tr(a, i, j);
                al[t][j] = v * o[t][j];
                n += al[t][j];
            }
            for (auto &v : al[t]) v /= n;
            sc[t] = n;
            ll += logl(n);
        }
        for (unsigned i = 0; i < N; ++i) be[T - 1][i] = 1;
        for (size_t t = T - 1; t-- > 0;)
            for (unsigned i = 0; i < N; ++i) {
                LD v = 0;
                for (unsigned j = 0; j < N; ++j) v += tr(a, i, j) * o[t + 1][j] * be[t + 1][j];
                be[t][i] = v / sc[t + 1];
            }
        std::vector<std::vector<LD>> gp(T * N, std::vector<LD>(G));
        for (size_t t = 0; t < T; ++t)
            for (unsigned i = 0; i < N; ++i) {
                LD ga = al[t][i] * be[t][i];
                gsum[i] += ga;
                if (t == 0) prior[i] += ga;
                for (size_t c = 0; c < G; ++c) {
                    gp[t * N + i][c] = ga * a.st[i].joint(c, p->fr[t]) / o[t][i];
                    W[i][c] += gp[t * N + i][c];
                }
                if (t + 1 < T)
                    for (unsigned j = 0; j < N; ++j) xi[i][j] += al[t][i] * tr(a, i, j) * o[t + 1][j] * be[t + 1][j] / sc[t + 1];
            }
        gm.push_back(gp);
    }
    minG = 1e30L;
    for (unsigned i = 0; i < N; ++i) {
        LD tot = 0;
        for (size_t c = 0; c < G; ++c) tot += W[i][c], minG = std::min(minG, W[i][c]);
        for (size_t c = 0; c < G; ++c) {
            b.st[i].coeff[c] = W[i][c] / tot;
            auto &k = b.st[i].comp[c];
            for (unsigned d = 0; d < D; ++d) {
                LD m = 0;
                for (size_t q = 0; q < ph.size(); ++q)
                    for (size_t t = 0; t < ph[q]->fr.size(); ++t) m += gm[q][t * N + i][c] * ph[q]->fr[t][d];
                k.mean[d] = m / W[i][c];
            }
            for (unsigned d = 0; d < D; ++d)
                for (unsigned e = 0; e < D; ++e) {
                    LD v = 0;
                    for (size_t q = 0; q < ph.size(); ++q)
                        for (size_t t = 0; t < ph[q]->fr.size(); ++t)
                            v += gm[q][t * N + i][c] * (ph[q]->fr[t][d] - k.mean[d]) * (ph[q]->fr[t][e] - k.mean[e]);
                    k.cov[d][e] = v / W[i][c] + (d == e ? reg[d] : 0);
                }
            k.finish();
        }
    }
    LD eps = 1e-5L, P = 0;
    for (auto p : ph) P += !p->fr.empty();
    if (a.ergodic) {
        LD s = 0;
        for (auto v : prior) s += v;
        for (unsigned i = 0; i < N; ++i) {
            b.prior[i] = prior[i] / s;
            for (unsigned j = 0; j < N; ++j) b.trans[i * N + j] = xi[i][j] / (gsum[i] + 2 * eps);
        }
    } else
        for (unsigned i = 0; i < N; ++i) {
            bool last = i + 1 == N;
            b.trans[2 * i] = (xi[i][i] + P * eps * (last ? 2 : 1)) / (gsum[i] + 2 * eps);
            b.trans[2 * i + 1] = last ? 0 : (xi[i][i + 1] + P * eps) / (gsum[i] + 2 * eps);
        }
    return ll;
}
void normalise(RefHmmClass &r) {
    size_t w = r.ergodic ? r.N : 2;
    for (unsigned i = 0; i < r.N; ++i) {
        LD s = 0;
        for (size_t j = 0; j < w; ++j) s += r.trans[i * w + j];
        for (size_t j = 0; j < w; ++j) r.trans[i * w + j] = s > 0 ? r.trans[i * w + j] / s : 1.L / r.N;
    }
}
}  // namespace

PBT_FACET(baum_welch, 9000, 150000, "2 or more states and 2 or more phrases of a class, every state keeps some frames") {
    SetOpts o;
    o.maxClasses = 2;
    o.minLen = 10;
    o.maxLen = 24;
    o.maxD = 3;
    SetSpec s = genSet(g, o);
    ClassCfg c = genCfg(g, s, 2, 4);
    bool shorter = false;
    if (g.chance(1, 3)) {  // phrases of a few frames, or none, after the first one of their class
        std::set<std::string> seen;
        for (auto &q : s.ph)
            if (!seen.insert(q.label).second && g.chance(2, 3)) {
                q.fr.resize(static_cast<size_t>(g.integer(0, 5)));
                shorter = true;
            }
    }
    c.hier = true;  // the cyclic transition of flat models is added after training
    unsigned n = static_cast<unsigned>(g.integer(1, 3));
    noteSet(g, s);
    g.note(cfgStr(c), ", iterations ", n, "\n");
    auto ts = makeTS(s);
    xmm::HierarchicalHMM m(s.bi);
    setCfg(m.configuration, c);
    m.configuration.multithreading = Threads::Sequential;
    exactIterations(m, n);
    Log log;
    m.training_events.addListener(&log, &Log::on);
    m.train(ts.get());
    bool good = c.states > 1;
    for (auto &l : s.labels) {
        PBT_CHECK("trained", m.models.count(l), "class '", l, "' was not trained");
        auto ph = s.of(l);
        auto reg = regularisation(s, ph, c);
        RefHmmClass r = initial(s, ph, c, n), q;
        std::vector<LD> lls;
        LD minG = 1e30L, mg, wc = r.worstCond();
        for (unsigned i = 0; i < n; ++i) {
            lls.push_back(baumWelch(r, ph, reg, q, mg));
            r = q;
            minG = std::min(minG, mg);
            if (minG < 1e-25L) throw pbt::Discard{"a component vanished"};
            wc = std::max(wc, r.worstCond());
        }
        if (wc > 1e5L) throw pbt::Discard{"ill conditioned"};
        normalise(r);
        if (minG < 1e-3L || ph.size() < 2) good = false;
        // single-precision parameters: the error grows with the number of iterations and with vanishing states
        double tol = (minG < 1e-3L ? 5e-3 : 1e-3) * (1 + static_cast<double>(wc) * 1e-3);
        auto &k = m.models[l];
        PBT_CHECK("events", log.ev[l].size() >= n, "only ", log.ev[l].size(), " events");
        for (unsigned i = 0; i < n; ++i)
            PBT_CLOSE("log-likelihood", log.ev[l][i].log_likelihood, static_cast<double>(lls[i]), tol * 0.1, tol, "class ", l, " iteration ", i);
        PBT_CHECK("shape", k.states.size() == c.states && k.transition.size() == r.trans.size() && k.prior.size() == r.prior.size(), "sizes");
        for (size_t i = 0; i < r.trans.size(); ++i) PBT_CLOSE("transition", k.transition[i], static_cast<double>(r.trans[i]), tol, tol * 0.2, "class ", l, " [", i, "]");
        for (size_t i = 0; i < r.prior.size(); ++i) PBT_CLOSE("prior", k.prior[i], static_cast<double>(r.prior[i]), tol, tol * 0.2, "class ", l, " [", i, "]");
        for (unsigned i = 0; i < c.states; ++i)
            for (unsigned x = 0; x < c.gaussians; ++x) {
                auto &G = k.states[i].components[x];
                auto &R = r.st[i].comp[x];
                PBT_CLOSE("mixture-coefficient", k.states[i].mixture_coeffs[x], static_cast<double>(r.st[i].coeff[x]), tol, tol * 0.2, "state ", i);
                LD sd = 0;
                for (unsigned d = 0; d < s.D; ++d) sd = std::max(sd, sqrtl(R.cov[d][d]));
                for (unsigned d = 0; d < s.D; ++d) {
                    PBT_CLOSE("mean", G.mean[d], static_cast<double>(R.mean[d]), 1e-4, tol * static_cast<double>(sd), "class ", l, " state ", i, " component ", x);
                    for (unsigned e = 0; e < s.D; ++e)
                        if (!c.diag || d == e)
                            PBT_CLOSE("covariance", G.covariance[c.diag ? d : d * s.D + e], static_cast<double>(R.cov[d][e]), tol, tol * static_cast<double>(sd * sd), "class ", l,
                                      " state ", i, " component ", x, " [", d, ",", e, "]");
                }
            }
    }
    if (good) g.nontrivial();
    g.label(c.ergodic ? "ergodic" : "left-right");
    g.label(str(c.states, " states"));
    if (shorter) g.label("short phrases");
}

PBT_FACET(wellformed, 2500, 40000, "2 or more states") {
    SetOpts o;
    o.minLen = 12;
    o.maxLen = 40;
    o.oddLabels = true;
    SetSpec s = genSet(g, o);
    bool defaults = g.coin();
    ClassCfg c = genCfg(g, s, 2, 6);
    if (defaults) {
        c = ClassCfg();
        c.states = 10;
        c.rel = 1e-2;
        c.abs = 1e-3;
    } else
        c.hier = g.coin();
    xmm::HierarchicalHMM m(s.bi);
    if (!defaults) setCfg(m.configuration, c);
    if (g.coin()) {
        m.shared_parameters->em_algorithm_min_iterations.set(static_cast<unsigned>(g.integer(1, 12)));
        m.shared_parameters->em_algorithm_max_iterations.set(static_cast<unsigned>(g.integer(0, 20)));
        m.shared_parameters->em_algorithm_percent_chg.set(g.logreal(0.01, 1));
    }
    noteSet(g, s);
    g.note(cfgStr(c), "\n");
    auto ts = makeTS(s);
    m.train(ts.get());
    PBT_CHECK("trained", m.trained() && !m.training() && m.size() == s.labels.size(), m.size(), " classes trained out of ", s.labels.size());
    size_t C = m.size();
    PBT_CHECK("class-transitions", m.prior.size() == C && m.transition.size() == C && m.exit_transition.size() == C, "sizes");
    double ps = 0;
    for (size_t i = 0; i < C; ++i) {
        ps += m.prior[i];
        double ts2 = 0;
        PBT_CHECK("class-transitions", m.transition[i].size() == C, "sizes");
        for (auto v : m.transition[i]) ts2 += v;
        PBT_CLOSE("class-transitions", ts2, 1., 0, 1e-9);
        PBT_CHECK("class-transitions", m.exit_transition[i] > 0 && m.exit_transition[i] < 1, "exit ", m.exit_transition[i]);
        PBT_CLOSE("class-prior", m.prior[i], 1. / static_cast<double>(C), 1e-9, 0, "all classes are equally likely at first");
    }
    PBT_CLOSE("class-prior", ps, 1., 0, 1e-9);
    for (auto &l : s.labels) {
        PBT_CHECK("trained", m.models.count(l), "class '", l, "' missing");
        auto &k = m.models[l];
        auto reg = regularisation(s, s.of(l), c);
        unsigned N = c.states;
        PBT_CHECK("shape", k.label == l && k.states.size() == N && k.transition.size() == (c.ergodic ? N * N : 2 * N) && k.prior.size() == (c.ergodic ? N : 0), "sizes");
        size_t w = c.ergodic ? N : 2;
        for (unsigned i = 0; i < N; ++i) {
            double sum = 0;
            for (size_t j = 0; j < w; ++j) {
                double v = k.transition[i * w + j];
                PBT_CHECK("transition", v >= 0 && v <= 1.00001, "transition ", v);
                sum += v;
            }
            // flat models set a small cyclic transition from the last state to the first
            if (c.hier || i + 1 < N || N == 1) PBT_CLOSE("transition", sum, 1., 0, 1e-5, "class ", l, " state ", i);
            else {
                PBT_CLOSE("cyclic-transition", k.transition[c.ergodic ? i * N : 2 * i + 1], 0.05, 0, 1e-6, "class ", l);
                PBT_CHECK("transition", sum < 1.051, "class ", l, " last state sums to ", sum);
            }
            if (!c.ergodic && i + 1 < N) PBT_CHECK("left-right", k.transition[2 * i + 1] > 0, "state ", i, " can never be left");
            PBT_CHECK("shape", k.states[i].components.size() == c.gaussians, "components");
            double cs = 0;
            for (unsigned x = 0; x < c.gaussians; ++x) {
                cs += k.states[i].mixture_coeffs[x];
                auto &G = k.states[i].components[x];
                PBT_CHECK("shape", G.mean.size() == s.D && G.covariance.size() == (c.diag ? s.D : s.D * s.D), "component");
                for (unsigned d = 0; d < s.D; ++d) {
                    PBT_CHECK("finite", std::isfinite(G.mean[d]), "mean ", G.mean[d]);
                    double v = c.diag ? G.covariance[d] : G.covariance[d * s.D + d];
                    PBT_CHECK("variance-regularised", v >= static_cast<double>(reg[d]) * (1 - 1e-3) - 1e-12, "variance ", v, " regularisation ", static_cast<double>(reg[d]));
                    for (unsigned e = 0; e < s.D && !c.diag; ++e) {
                        double u = G.covariance[d * s.D + e], ve = G.covariance[e * s.D + e];
                        PBT_CLOSE("covariance-symmetric", u, G.covariance[e * s.D + d], 1e-9, 1e-12);
                        PBT_CHECK("covariance-bound", u * u <= v * ve * (1 + 1e-6), "covariance ", u);
                    }
                }
            }
            PBT_CLOSE("mixture-coefficient", cs, 1., 0, 1e-5, "state ", i);
        }
        if (c.ergodic) {
            double sum = 0;
            for (auto v : k.prior) sum += v;
            PBT_CLOSE("prior", sum, 1., 0, 1e-5);
        }
    }
    if (c.states > 1) g.nontrivial();
    g.label(defaults ? "default configuration" : "random configuration");
}
