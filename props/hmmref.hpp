// Independent references for hidden Markov models: flat and hierarchical forward filtering, regression.
#pragma once
#include "model.hpp"

struct RefHmmClass {
    unsigned N = 1;
    bool ergodic = false, bi = false, diag = false;
    int est = 0;
    std::vector<RefGmmClass> st;
    std::vector<LD> trans, prior, exit;
    // filtering state
    std::vector<LD> alpha;    // flat
    std::vector<LD> ah[3];    // hierarchical: stay, exit to a sibling, exit to the root
    bool started = false;
    RefWindow win;
    // results of the last frame
    LD inst = 0, exitLik = 0, progress = 0, norm = 0;
    unsigned likeliest = 0;
    int wmin = 0, wmax = 0;
    bool ambiguous = false;  // the likeliest state is a near tie
    std::vector<LD> y;
    LD ymag = 0;
    Mat cov;

    static RefHmmClass from(const xmm::SingleClassHMM &c, const std::vector<float> &exits, bool bi, unsigned D, unsigned DI) {
        RefHmmClass r;
        r.N = c.parameters.states.get();
        r.bi = bi;
        r.ergodic = c.parameters.transition_mode.get() == Trans::Ergodic;
        r.diag = c.parameters.covariance_mode.get() == Cov::Diagonal;
        auto e = c.parameters.regression_estimator.get();
        r.est = e == RegEst::Full ? 0 : e == RegEst::Windowed ? 1 : 2;
        for (auto &s : c.states) r.st.push_back(RefGmmClass::from(s, bi, D, DI));
        r.trans.assign(c.transition.begin(), c.transition.end());
        r.prior.assign(c.prior.begin(), c.prior.end());
        r.exit.assign(exits.begin(), exits.end());
        return r;
    }
    LD stay(size_t j) const { return trans[j * 2]; }
    LD next(size_t j) const { return trans[j * 2 + 1]; }
    void reset(size_t window) {
        started = false;
        win = RefWindow();
        win.n = window;
    }
    LD p(size_t k, const std::vector<float> &x) const { return st[k].input(x); }
    // --- flat ---
    void filterFlat(const std::vector<float> &x) {
        std::vector<LD> a(N, 0);
        if (!started) {
            for (unsigned k = 0; k < N; ++k)
                if (ergodic || k == 0) a[k] = (ergodic ? prior[k] : 1) * p(k, x);
        } else {
            for (unsigned k = 0; k < N; ++k) {
                if (ergodic) {
                    for (unsigned j = 0; j < N; ++j) a[k] += alpha[j] * trans[j * N + k];
                } else {
                    a[k] = alpha[k] * stay(k);
                    if (k > 0) a[k] += alpha[k - 1] * next(k - 1);
                    else a[k] += alpha[N - 1] * next(N - 1);  // cyclic transition
                }
                a[k] *= p(k, x);
            }
        }
        LD n = 0;
        for (auto v : a) n += v;
        for (auto &v : a) v /= n;
        alpha = a;
        started = true;
        inst = n;
        win.push(logl(inst));
        summarise(alpha);
    }
    void summarise(const std::vector<LD> &w) {
        likeliest = 0;
        for (unsigned k = 1; k < N; ++k)
            if (w[k] > w[likeliest]) likeliest = k;
        ambiguous = false;
        for (unsigned k = 0; k < N; ++k)
            if (k != likeliest && w[k] > 0 && w[k] >= w[likeliest] * (1 - 1e-6L)) ambiguous = true;
        int half = static_cast<int>(N) / 2, l = static_cast<int>(likeliest);
        wmin = std::max(0, l - half);
        wmax = std::max(l + 1, std::min(static_cast<int>(N), l + half));
        norm = 0;
        LD s = 0;
        for (int k = wmin; k < wmax; ++k) {
            norm += w[static_cast<size_t>(k)];
            s += w[static_cast<size_t>(k)] * k;
        }
        progress = norm > 0 ? s / norm / (N > 1 ? N - 1 : 1) : 0;
    }
    // what is left in a state is divided by the probability not to exit from it; a state that always exits keeps nothing
    LD notExit(unsigned k) const { return exit[k] < 1 ? 1 - exit[k] : 1; }
    void regress(const std::vector<LD> &w, const std::vector<float> &x) {
        size_t DO = st[0].D - st[0].DI;
        y.assign(DO, 0);
        cov = zeros(static_cast<unsigned>(DO), static_cast<unsigned>(DO));
        unsigned a = 0, b = N;
        if (est == 1) a = static_cast<unsigned>(wmin), b = static_cast<unsigned>(wmax);
        if (est == 2) a = likeliest, b = likeliest + 1;
        LD n = 0;
        ymag = 0;
        for (unsigned k = a; k < b; ++k) n += w[k];
        for (unsigned k = a; k < b; ++k) {
            std::vector<LD> yk;
            Mat ck;
            LD mk;
            st[k].regress(x, yk, ck, mk);
            if (st[k].diag) ck = diagonalOf(ck);
            LD u = est == 2 ? 1 : w[k] / n;
            ymag += u * mk;
            for (size_t i = 0; i < DO; ++i) {
                y[i] += u * yk[i];
                for (size_t j = 0; j < DO; ++j) cov[i][j] += u * u * ck[i][j];
            }
        }
    }
    std::vector<LD> weights(bool hier) const {
        if (!hier) return alpha;
        std::vector<LD> w(N);
        for (unsigned k = 0; k < N; ++k) w[k] = ah[0][k] + ah[1][k];
        return w;
    }
    LD worstCond() const {
        LD m = 1;
        for (auto &s : st) m = std::max(m, s.worstCond());
        return m;
    }
};

struct RefHmm {
    bool hier = true, bi = false;
    std::vector<std::string> labels;
    std::vector<RefHmmClass> cls;
    std::vector<LD> prior, exitTrans;
    std::vector<std::vector<LD>> trans;
    bool underflow = false;  // a state's mass got too small for the comparison in double precision

    static RefHmm from(const xmm::HierarchicalHMM &m, const SetSpec &s, const std::map<std::string, std::vector<float>> &exits) {
        RefHmm r;
        r.hier = m.configuration.hierarchical.get();
        r.bi = s.bi;
        for (auto &k : m.models) {
            r.labels.push_back(k.first);
            r.cls.push_back(RefHmmClass::from(k.second, exits.at(k.first), s.bi, s.D, s.DI));
        }
        r.prior.assign(m.prior.begin(), m.prior.end());
        r.exitTrans.assign(m.exit_transition.begin(), m.exit_transition.end());
        for (auto &t : m.transition) r.trans.push_back(std::vector<LD>(t.begin(), t.end()));
        r.reset(m.shared_parameters->likelihood_window.get());
        return r;
    }
    void reset(size_t window) {
        underflow = false;
        for (auto &c : cls) c.reset(window);
    }
    void forward(const std::vector<float> &x) {
        size_t C = cls.size();
        std::vector<std::vector<LD>> fr(C);
        if (!cls[0].started) {
            for (size_t c = 0; c < C; ++c) {
                auto &k = cls[c];
                for (auto &a : k.ah) a.assign(k.N, 0);
                k.inst = k.exitLik = 0;
                for (unsigned i = 0; i < k.N; ++i) {
                    LD start = k.ergodic ? k.prior[i] : (i == 0 ? 1 : 0);
                    if (start > 0) k.ah[0][i] = prior[c] * start * k.p(i, x);
                    k.inst += k.ah[0][i];
                }
                k.started = true;
            }
        } else {
            std::vector<LD> v1(C, 0), v2(C, 0);
            for (size_t c = 0; c < C; ++c)
                for (unsigned i = 0; i < cls[c].N; ++i) {
                    v1[c] += cls[c].ah[1][i];
                    v2[c] += cls[c].ah[2][i];
                }
            for (size_t c = 0; c < C; ++c) {
                auto &k = cls[c];
                std::vector<LD> f(k.N, 0);
                LD enter = 0;  // mass that enters this class from the end of any class
                for (size_t s = 0; s < C; ++s) enter += v1[s] * trans[s][c] + v2[s] * prior[c];
                for (unsigned i = 0; i < k.N; ++i) {
                    if (k.ergodic) {
                        for (unsigned j = 0; j < k.N; ++j) f[i] += k.trans[j * k.N + i] / k.notExit(j) * k.ah[0][j];
                        f[i] += k.prior[i] * enter;
                    } else if (i == 0)
                        f[i] = k.stay(0) * k.ah[0][0] + enter;
                    else
                        f[i] = k.stay(i) / k.notExit(i) * k.ah[0][i] + k.next(i - 1) / k.notExit(i - 1) * k.ah[0][i - 1];
                }
                fr[c] = f;
            }
            for (size_t c = 0; c < C; ++c) {
                auto &k = cls[c];
                k.inst = k.exitLik = 0;
                for (unsigned i = 0; i < k.N; ++i) {
                    LD t = k.p(i, x) * fr[c][i];
                    k.ah[0][i] = (1 - k.exit[i]) * t;
                    k.ah[1][i] = (1 - exitTrans[c]) * k.exit[i] * t;
                    k.ah[2][i] = exitTrans[c] * k.exit[i] * t;
                    k.inst += t;
                    k.exitLik += k.exit[i] * t;
                }
            }
        }
        LD n = 0;
        for (auto &k : cls) n += k.inst;
        for (auto &k : cls) {
            if (k.inst < 1e-280L) underflow = true;
            for (auto &a : k.ah)
                for (auto &v : a) {
                    v /= n;
                    if (v > 0 && v < 1e-120L) underflow = true;
                }
            k.win.push(logl(k.inst));
            k.summarise(k.weights(true));
        }
    }
    std::vector<RefClassOut> filter(const std::vector<float> &x) {
        if (hier) forward(x);
        else
            for (auto &k : cls) {
                k.filterFlat(x);
                for (auto v : k.alpha)
                    if (v > 0 && v < 1e-120L) underflow = true;
            }
        std::vector<RefClassOut> o(cls.size());
        for (size_t c = 0; c < cls.size(); ++c) {
            auto &k = cls[c];
            if (bi) k.regress(k.weights(hier), x);
            o[c].inst = k.inst;
            o[c].loglik = k.win.mean();
            o[c].y = k.y;
            o[c].ymag = k.ymag;
            o[c].cov = k.cov;
            o[c].diag = k.diag;
        }
        return o;
    }
    LD worstCond() const {
        LD m = 1;
        for (auto &c : cls) m = std::max(m, c.worstCond());
        return m;
    }
};

// --- generation --------------------------------------------------------------------------------------------
struct HmmGen {
    std::unique_ptr<xmm::HierarchicalHMM> m;
    std::map<std::string, std::vector<float>> exits;
    bool custom = false, randomised = false;
};
struct HmmOpts {
    int hier = -1, maxStates = 5, maxGauss = 2;
    double spread = 2;
    bool exitPoints = true;
};
inline void randomTransitions(Gen &g, xmm::SingleClassHMM &c) {
    size_t N = c.parameters.states.get();
    auto row = [&](size_t n, bool last) {
        std::vector<double> w;
        double s = 0;
        for (size_t i = 0; i < n; ++i) {
            w.push_back(last && i == 1 ? 0 : g.chance(1, 8) && i > 0 ? 0 : g.logreal(0.05, 1));
            s += w.back();
        }
        for (auto &v : w) v /= s;
        return w;
    };
    if (c.parameters.transition_mode.get() == Trans::Ergodic) {
        auto p = row(N, false);
        for (size_t i = 0; i < N; ++i) {
            c.prior[i] = static_cast<float>(p[i]);
            auto t = row(N, false);
            for (size_t j = 0; j < N; ++j) c.transition[i * N + j] = static_cast<float>(t[j]);
        }
    } else
        for (size_t i = 0; i < N; ++i) {
            auto t = row(2, i + 1 == N);
            c.transition[i * 2] = static_cast<float>(t[0]);
            c.transition[i * 2 + 1] = static_cast<float>(t[1]);
        }
}
inline float genExit(Gen &g) {
    int k = g.integer(0, 5);
    return k == 0 ? 1.f : k == 1 ? 0.f : k == 2 ? 1 - static_cast<float>(g.logreal(1e-6, 0.2)) : static_cast<float>(g.logreal(0.01, 0.8));
}
inline HmmGen genHmm(Gen &g, const SetSpec &s, const HmmOpts &o = HmmOpts()) {
    HmmGen h;
    h.m.reset(new xmm::HierarchicalHMM(s.bi));
    auto &m = *h.m;
    ClassCfg c = genCfg(g, s, o.maxGauss, o.maxStates);
    c.hier = o.hier < 0 ? g.coin() : o.hier != 0;
    g.note(cfgStr(c), "\n");
    setCfg(m.configuration, c);
    m.configuration.multithreading = Threads::Sequential;
    for (auto &l : s.labels)
        if (g.chance(1, 4)) {
            ClassCfg k = genCfg(g, s, o.maxGauss, o.maxStates);
            k.hier = c.hier;
            g.note("class '", l, "': ", cfgStr(k), "\n");
            setCfg(m.configuration[l], k);
            h.custom = true;
        }
    exactIterations(m, static_cast<unsigned>(g.integer(1, 2)));
    auto ts = makeTS(s);
    m.train(ts.get());
    PBT_CHECK("trained", m.size() == s.labels.size(), m.size(), " classes trained out of ", s.labels.size());
    for (auto &k : m.models) {
        size_t N = k.second.parameters.states.get();
        std::vector<float> e(N, 0.f);
        e[N - 1] = 0.1f;
        h.exits[k.first] = e;
    }
    if (g.chance(2, 3)) {
        h.randomised = true;
        for (auto &k : m.models) {
            for (auto &st : k.second.states) randomise(g, st, s, o.spread);
            randomTransitions(g, k.second);
        }
        if (c.hier && g.coin()) {
            size_t C = m.size();
            auto row = [&] {
                std::vector<double> w(C);
                double t = 0;
                for (auto &v : w) t += v = g.logreal(0.05, 1);
                for (auto &v : w) v /= t;
                return w;
            };
            m.prior = row();
            for (auto &t : m.transition) t = row();
            for (auto &e : m.exit_transition) e = g.smooth(0, 1);
        }
        g.note("parameters replaced by random ones\n");
    }
    if (c.hier && o.exitPoints && g.chance(1, 3)) {
        size_t minStates = 1000;
        for (auto &k : m.models) minStates = std::min<size_t>(minStates, k.second.parameters.states.get());
        if (g.coin()) {
            int st = g.integer(0, static_cast<int>(minStates) - 1);
            float p = genExit(g);
            g.note("exit point ", st, " ", p, "\n");
            m.addExitPoint(st, p);
            for (auto &e : h.exits) e.second[static_cast<size_t>(st)] = p;
        } else {
            const std::string &l = g.pick(s.labels);
            int st = g.integer(0, static_cast<int>(h.exits[l].size()) - 1);
            float p = genExit(g);
            g.note("exit point of '", l, "': ", st, " ", p, "\n");
            m.models[l].addExitPoint(st, p);
            h.exits[l][static_cast<size_t>(st)] = p;
        }
    }
    m.reset();
    return h;
}
// A stream of observations: pieces of training phrases played at several speeds, noise, jumps.
struct ObsStream {
    const SetSpec &s;
    size_t ph = 0;
    double t = 0, speed = 1;
    bool fresh = true;
    explicit ObsStream(const SetSpec &x) : s(x) {}
    std::vector<float> next(Gen &g) {
        if (fresh || g.chance(1, 10) || t >= static_cast<double>(s.ph[ph].fr.size())) {
            ph = g.raw(s.ph.size() - 1);
            t = g.chance(2, 3) ? 0 : g.integer(0, static_cast<int>(s.ph[ph].fr.size()) - 1);
            speed = g.oneof({0.5, 1., 2., 4.});
            fresh = false;
        }
        auto x = cut(s.ph[ph].fr[static_cast<size_t>(t)], s.inDim());
        t += speed;
        double w = s.scale * (g.chance(1, 10) ? 2. : 0.2);
        for (auto &v : x) v += static_cast<float>(g.smooth(-w, w));
        return x;
    }
};
