// C04: copies are equal at first and independent afterwards.
#include "anymodel.hpp"

namespace {
// deterministic choices for an edit, from one generated number
struct Rnd {
    uint64_t s;
    explicit Rnd(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        s ^= s >> 12;
        s ^= s << 25;
        s ^= s >> 27;
        return s * 0x2545F4914F6CDD1Dull;
    }
    int in(int lo, int hi) { return lo + static_cast<int>((next() >> 33) % static_cast<uint64_t>(hi - lo + 1)); }
    double real(double lo, double hi) { return lo + (hi - lo) * static_cast<double>(next() >> 40) / 16777216.; }
    bool coin() { return in(0, 1) == 1; }
};
template <typename T>
struct Kind {
    std::function<std::unique_ptr<T>()> build;               // always the same object
    std::function<std::unique_ptr<T>(uint64_t)> other;       // an unrelated object, as the target of an assignment
    std::function<std::string(T &)> answer;                  // everything it answers
    std::function<void(T &, uint64_t)> edit;                 // one edit, decided by the number
    std::function<void(T &)> afresh = [](T &) {};            // recognition of a copy starts afresh
};
std::string diff(const std::string &a, const std::string &b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t f = i > 60 ? i - 60 : 0;
    return "\n  ..." + a.substr(f, 160) + "\n  ..." + b.substr(f, 160);
}
const uint64_t FRESH = ~0ull;
// an edit may be refused; the twin must refuse it as well
template <typename T>
bool tryEdit(const Kind<T> &k, T &t, uint64_t e) {
    try {
        k.edit(t, e);
        return true;
    } catch (const std::exception &) {
        return false;
    }
}

template <typename T>
void run(Gen &g, const Kind<T> &k) {
    typedef std::vector<uint64_t> Hist;
    auto replay = [&](const Hist &h) {
        auto t = k.build();
        for (auto e : h)
            if (e == FRESH) k.afresh(*t);
            else tryEdit(k, *t, e);
        return t;
    };
    Hist ha, hc;
    auto a = k.build(), ta = k.build();
    PBT_CHECK("deterministic", k.answer(*a) == k.answer(*ta), "two objects built alike answer differently");
    if (g.coin()) {
        for (size_t n = 0; g.more(n, 3, 1); ++n) {
            ha.push_back(g.raw(1u << 30));
            g.note("edit source ", ha.back(), "\n");
            bool r1 = tryEdit(k, *a, ha.back()), r2 = tryEdit(k, *ta, ha.back());
            PBT_CHECK("deterministic", r1 == r2, "the edit was refused by one object only");
        }
    }
    std::unique_ptr<T> c;
    int how = g.integer(0, 3);
    if (how == 0) c.reset(new T(*a));
    else {
        c = how == 1 ? std::unique_ptr<T>(new T(*a)) : k.other(g.raw(1u << 20));
        *c = *a;
        if (how == 3) *c = *a;  // twice
    }
    static const char *hows[] = {"copy constructed", "copy constructed and assigned", "assigned to another object", "assigned twice"};
    g.note(hows[how], "\n");
    hc = ha;
    hc.push_back(FRESH);
    auto tc = replay(hc);
    PBT_CHECK("source-unchanged", k.answer(*a) == k.answer(*ta), "copying changed the source", diff(k.answer(*a), k.answer(*ta)));
    k.afresh(*c);
    PBT_CHECK("copy-equal", k.answer(*c) == k.answer(*tc), "the copy differs from its source", diff(k.answer(*c), k.answer(*tc)));
    size_t edits = 0;
    for (size_t n = 0; g.more(n, 10, 5); ++n) {
        int what = g.integer(0, 11);
        if (what == 0 && a && c) {  // assign back
            bool toSource = g.coin();
            auto &dst = toSource ? a : c;
            auto &src = toSource ? c : a;
            auto &hd = toSource ? ha : hc;
            auto &hs = toSource ? hc : ha;
            g.note(toSource ? "source = copy\n" : "copy = source\n");
            *dst = *src;
            hd = hs;
            hd.push_back(FRESH);
            k.afresh(*dst);
            (toSource ? ta : tc) = replay(hd);
        } else if (what == 1 && a && c) {
            bool s = g.coin();
            g.note(s ? "source destroyed\n" : "copy destroyed\n");
            if (s) {
                a.reset();
                ta.reset();
            } else {
                c.reset();
                tc.reset();
            }
        } else if (what == 2) {
            T *x = a ? a.get() : c.get();
            auto &h = a ? ha : hc;
            auto &t = a ? ta : tc;
            g.note("self assignment\n");
            T &alias = *x;
            *x = alias;
            h.push_back(FRESH);
            k.afresh(*x);
            k.afresh(*t);
        } else {
            bool s = a && (!c || g.coin());
            uint64_t e = g.raw(1u << 30);
            g.note(s ? "edit source " : "edit copy ", e, "\n");
            (s ? ha : hc).push_back(e);
            bool r1 = tryEdit(k, s ? *a : *c, e), r2 = tryEdit(k, s ? *ta : *tc, e);
            PBT_CHECK("independent", r1 == r2, "the edit was ", r1 ? "accepted" : "refused", " by the object, ", r2 ? "accepted" : "refused", " by one that was never copied");
            if (r1) ++edits;
        }
        if (a) PBT_CHECK("independent", k.answer(*a) == k.answer(*ta), "the source does not answer as an object that was never copied", diff(k.answer(*a), k.answer(*ta)));
        if (c) PBT_CHECK("independent", k.answer(*c) == k.answer(*tc), "the copy does not answer as an object of its own", diff(k.answer(*c), k.answer(*tc)));
    }
    if (edits >= 2) g.nontrivial();
}
SetOpts smallSet() {
    SetOpts o;
    o.maxClasses = 3;
    o.maxPhrases = 2;
    o.minLen = 8;
    o.maxLen = 12;
    o.sep = 2;
    o.maxD = 3;
    return o;
}
std::vector<float> frame(Rnd &r, unsigned D, double scale) {
    std::vector<float> x(D);
    for (auto &v : x) v = static_cast<float>(scale * r.real(-4, 4));
    return x;
}
}  // namespace

PBT_FACET(training_sets, 4000, 80000, "2 or more edits after the copy") {
    SetSpec s = genSet(g, smallSet());
    noteSet(g, s);
    typedef xmm::TrainingSet T;
    Kind<T> k;
    k.build = [&] { return makeTS(s); };
    k.other = [&](uint64_t e) {
        Rnd r(e);
        std::unique_ptr<T> t(new T(xmm::MemoryMode::OwnMemory, r.coin() ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal));
        t->dimension.set(static_cast<unsigned>(r.in(2, 5)));
        for (int i = 0; i < 2; ++i) {
            t->addPhrase(i, "old");
            t->getPhrase(i)->record(frame(r, t->dimension.get(), 1));
        }
        return t;
    };
    k.answer = [](T &t) {
        std::string o = jsonText(t.toJson());
        for (auto &l : t.labels()) o += "'" + l + "' " + jsonText(t.getPhrasesOfClass(l)->toJson());
        putv(o, "mean", t.mean());
        putv(o, "std", t.standardDeviation());
        return o;
    };
    k.edit = [](T &t, uint64_t e) {
        Rnd r(e);
        int op = r.in(0, 9);
        static const std::vector<std::string> L = {"a", "b", "c", "z"};
        std::shared_ptr<xmm::Phrase> p;
        if (t.size()) {
            auto it = t.begin();
            std::advance(it, r.in(0, static_cast<int>(t.size()) - 1));
            p = it->second;
        }
        if (op <= 2 && p) p->record(frame(r, t.dimension.get(), 1));
        else if (op == 3 && p) p->label.set(L[static_cast<size_t>(r.in(0, 3))]);
        else if (op == 4 && p) p->clear();
        else if (op == 5) {
            t.addPhrase(r.in(0, 6), L[static_cast<size_t>(r.in(0, 3))]);
        } else if (op == 6) {
            t.removePhrase(r.in(0, 6));
        } else if (op == 7) {
            t.rescale(std::vector<float>(t.dimension.get(), static_cast<float>(r.real(-1, 1))), std::vector<float>(t.dimension.get(), static_cast<float>(r.real(0.5, 2))));
        } else if (op == 8) {
            auto n = t.column_names.get();
            n[static_cast<size_t>(r.in(0, static_cast<int>(n.size()) - 1))] = str("col", r.in(0, 99));
            t.column_names.set(n);
        } else if (r.in(0, 3) == 0) {
            t.dimension.set(static_cast<unsigned>(r.in(2, 5)));
        } else if (p) {
            auto *sub = t.getPhrasesOfClass(p->label.get());
            if (sub && sub->size()) sub->begin()->second->record(frame(r, t.dimension.get(), 1));
        }
    };
    run(g, k);
}

PBT_FACET(phrases, 6000, 80000, "2 or more edits after the copy") {
    typedef xmm::Phrase T;
    bool bi = g.coin();
    unsigned D = static_cast<unsigned>(g.integer(bi ? 2 : 1, 4)), DI = bi ? static_cast<unsigned>(g.integer(1, static_cast<int>(D) - 1)) : 0;
    int len = g.integer(0, 6);
    unsigned strm = static_cast<unsigned>(g.raw(1000));
    g.note(bi ? "bimodal " : "unimodal ", D, "/", DI, " ", len, " frames\n");
    Kind<T> k;
    k.build = [=] {
        std::unique_ptr<T> p(new T(xmm::MemoryMode::OwnMemory, bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal));
        p->dimension.set(D);
        if (bi) p->dimension_input.set(DI);
        p->label.set("x");
        for (int i = 0; i < len; ++i) p->record(drow(strm, static_cast<unsigned>(i), D));
        return p;
    };
    k.other = [](uint64_t e) {
        Rnd r(e);
        std::unique_ptr<T> p(new T(r.in(0, 2) ? xmm::MemoryMode::OwnMemory : xmm::MemoryMode::SharedMemory, r.coin() ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal));
        p->dimension.set(static_cast<unsigned>(r.in(2, 5)));
        if (p->ownMemory()) p->record(frame(r, p->dimension.get(), 1));
        return p;
    };
    k.answer = [](T &p) {
        std::string o = jsonText(p.toJson()) + str(p.size(), " ", p.inputSize(), " ", p.outputSize(), " ", p.empty());
        for (unsigned t = 0; t < p.size(); ++t)
            for (unsigned d = 0; d < p.dimension.get(); ++d) put(o, p.getValue(t, d));
        return o;
    };
    k.edit = [](T &p, uint64_t e) {
        Rnd r(e);
        int op = r.in(0, 9);
        unsigned di = p.dimension_input.get(), d = p.dimension.get();
        if (op <= 2) p.record(frame(r, d, 1));
        else if (op == 3 && p.bimodal()) p.record_input(frame(r, di, 1));
        else if (op == 4 && p.bimodal()) p.record_output(frame(r, d - di, 1));
        else if (op == 5) p.clear();
        else if (op == 6) p.label.set(str("l", r.in(0, 9)));
        else if (op == 7 && !p.empty() && p.size()) p.rescale(std::vector<float>(d, 1.f), std::vector<float>(d, static_cast<float>(r.real(0.5, 2))));
        else if (op == 8 && p.bimodal()) p.clearInput();
        else if (op == 9) {
            p.clear();
            p.dimension.set(static_cast<unsigned>(r.in(2, 5)));
        }
    };
    run(g, k);
}

PBT_FACET(gaussians, 6000, 80000, "2 or more edits after the copy") {
    typedef xmm::GaussianDistribution T;
    RefGauss ref = genGauss(g, -1, 4);
    Kind<T> k;
    k.build = [&] { return std::unique_ptr<T>(new T(makeGauss(ref))); };
    k.other = [](uint64_t e) {
        Rnd r(e);
        bool bi = r.coin();
        std::unique_ptr<T> p(new T(bi, static_cast<unsigned>(r.in(2, 5)), bi ? 1 : 0));
        return p;
    };
    k.answer = [](T &d) {
        std::string o = jsonText(d.toJson());
        putv(o, "mean", d.mean);
        putv(o, "cov", d.covariance);
        std::vector<float> x(d.dimension.get(), 0.5f), in(d.dimension_input.get(), 0.5f), y;
        put(o, d.dimension_input.get() ? d.likelihood_input(in.data()) : d.likelihood(x.data()));
        if (d.dimension_input.get()) {
            d.regression(in, y);
            putv(o, "y", y);
            putv(o, "ycov", d.output_covariance);
        }
        return o;
    };
    k.edit = [](T &d, uint64_t e) {
        Rnd r(e);
        int op = r.in(0, 4);
        if (op == 0) d.covariance_mode.set(r.coin() ? Cov::Full : Cov::Diagonal);
        else if (op == 1) {
            std::vector<double> v(d.dimension.get(), r.real(0.01, 1));
            d.regularize(v);
            d.updateInverseCovariance();
        } else if (op == 2) {
            for (auto &m : d.mean) m += r.real(-1, 1);
        } else if (op == 3) {
            for (auto &v : d.covariance) v *= 1.5;
            d.updateInverseCovariance();
        } else if (d.dimension.get() >= 2) {
            auto el = d.toEllipse(0, 1);
            el.x += 1;
            el.width *= 1.2;
            d.fromEllipse(el, 0, 1);
        }
    };
    run(g, k);
}

namespace {
template <typename M>
void models(Gen &g, bool hmm) {
    SetSpec s = genSet(g, smallSet()), s2;
    SetOpts o = smallSet();
    o.bimodal = s.bi;
    s2 = genSet(g, o);
    Setup u = genSetup(g, s, hmm), u2 = genSetup(g, s2, hmm);
    noteSet(g, s);
    g.note(setupStr(u));
    auto ts = makeTS(s), ts2 = makeTS(s2);
    int frames = g.integer(0, 4);
    bool train = !g.chance(1, 10);
    auto obs = [](M &m, Rnd &r) { return frame(r, m.shared_parameters->bimodal.get() ? m.shared_parameters->dimension_input.get() : m.shared_parameters->dimension.get(), 1); };
    Kind<M> k;
    k.build = [&] {
        std::unique_ptr<M> m(new M(s.bi));
        applySetup(*m, u);
        if (train) {
            m->train(ts.get());
            m->reset();
            Rnd r(7);
            for (int i = 0; i < frames; ++i) m->filter(obs(*m, r));
        }
        return m;
    };
    k.other = [&](uint64_t e) {
        std::unique_ptr<M> m(new M(e % 3 == 0 ? !s2.bi : s2.bi));
        if (e % 3 == 1) {
            applySetup(*m, u2);
            m->train(ts2.get());
        }
        return m;
    };
    k.answer = [](M &m) { return jsonText(m.toJson()) + resultsStr(m); };
    k.afresh = [&](M &m) {
        if (!m.size()) return;
        m.reset();
        Rnd r(3);
        m.filter(obs(m, r));
    };
    k.edit = [&](M &m, uint64_t e) {
        Rnd r(e);
        int op = r.in(0, 11);
        if (op <= 2) {
            if (m.size())
                for (int i = r.in(1, 3); i; --i) m.filter(obs(m, r));
        } else if (op == 3) {
            if (m.size()) k.afresh(m);
        } else if (op == 4) {
            applySetup(m, u2);
            m.train(ts2.get());
            k.afresh(m);
        } else if (op == 5) {
            if (m.size() == 0 || (m.shared_parameters->dimension.get() == s.D && m.shared_parameters->dimension_input.get() == s.DI)) m.train(ts.get(), s.labels[0]);
            k.afresh(m);
        } else if (op == 6) {
            if (m.size() > 1) {
                m.removeClass(m.models.begin()->first);
                k.afresh(m);
            }
        } else if (op == 7) {
            m.shared_parameters->likelihood_window.set(static_cast<unsigned>(r.in(1, 5)));
            m.shared_parameters->em_algorithm_min_iterations.set(static_cast<unsigned>(r.in(1, 3)));
            m.configuration.relative_regularization.set(r.real(0.05, 0.1));
            m.configuration["a"].absolute_regularization.set(r.real(0.05, 0.1));
            m.configuration.multithreading = Threads::Sequential;
            k.afresh(m);
        } else if (op == 8) {
            if (r.in(0, 3) == 0) m.clear();
        } else if (op == 9) {
            if (m.size()) {
                m.configuration.multiClass_regression_estimator = r.coin() ? MultiEst::Mixture : MultiEst::Likeliest;
                k.afresh(m);
            }
        } else if (op == 10) {
            M q(m.shared_parameters->bimodal.get());
            Json::Value j = m.toJson();
            q.fromJson(j);
            k.afresh(m);
        } else {
            if (m.size()) m.models.begin()->second.parameters.relative_regularization.set(r.real(0.05, 0.1));
        }
    };
    run(g, k);
    g.label(hmm ? (u.def.hier ? "hierarchical HMM" : "HMM") : "GMM");
}
}  // namespace
PBT_FACET(gmm, 2500, 40000, "2 or more edits after the copy") { models<xmm::GMM>(g, false); }
PBT_FACET(hmm, 1800, 40000, "2 or more edits after the copy") { models<xmm::HierarchicalHMM>(g, true); }

PBT_FACET(kmeans, 4000, 50000, "2 or more edits after the copy") {
    typedef xmm::KMeans T;
    SetSpec s = genSet(g, smallSet()), s2 = genSet(g, smallSet());
    auto ts = makeTS(s), ts2 = makeTS(s2);
    unsigned n = static_cast<unsigned>(g.integer(1, 4));
    bool train = !g.chance(1, 8);
    Kind<T> k;
    auto obs = [](T &m, Rnd &r) { return frame(r, m.shared_parameters->dimension.get(), 1); };
    k.build = [&] {
        std::unique_ptr<T> m(new T(n));
        m->initialization_mode = T::InitializationMode::Biased;
        if (train) {
            m->train(ts.get());
            Rnd r(5);
            m->filter(obs(*m, r));
        }
        return m;
    };
    k.other = [&](uint64_t e) {
        std::unique_ptr<T> m(new T(static_cast<unsigned>(1 + e % 3)));
        m->initialization_mode = T::InitializationMode::Biased;
        if (e % 2) m->train(ts2.get());
        return m;
    };
    k.answer = [](T &m) {
        std::string o = jsonText(m.toJson()) + str(m.centers.empty() ? 0u : m.results.likeliest, " ");
        putv(o, "c", m.centers);
        putv(o, "d", m.results.distances);
        return o;
    };
    k.edit = [&](T &m, uint64_t e) {
        Rnd r(e);
        int op = r.in(0, 4);
        bool usable = m.centers.size() == m.configuration.clusters.get() * m.shared_parameters->dimension.get();
        if (op <= 1 && usable) m.filter(obs(m, r));
        else if (op == 2) {
            m.configuration.clusters.set(static_cast<unsigned>(r.in(1, 3)));
            m.train(r.coin() ? ts.get() : ts2.get());
            m.filter(obs(m, r));
        } else if (op == 3) {
            m.configuration.max_iterations.set(static_cast<unsigned>(r.in(1, 30)));
        } else if (!m.centers.empty()) {
            m.centers[0] += 1;
        }
    };
    run(g, k);
}

// a class taken out of a group keeps its own state
PBT_FACET(classes, 3000, 40000, "2 or more edits after the copy") {
    SetSpec s = genSet(g, smallSet());
    Setup u = genSetup(g, s);
    u.def.hier = false;
    noteSet(g, s);
    g.note(setupStr(u));
    auto ts = makeTS(s);
    AnyModel m(u);
    m.train(ts.get());
    m.reset();
    std::string l = s.labels[0];
    unsigned D = s.inDim();
    double sc = s.scale;
    if (u.hmm) {
        typedef xmm::SingleClassHMM T;
        Kind<T> k;
        const T &src = m.hm->models.at(l);
        k.build = [&] {
            AnyModel q(u);
            q.train(ts.get());
            q.reset();
            std::unique_ptr<T> t(new T(q.hm->models.at(l)));
            t->reset();
            return t;
        };
        (void)src;
        k.other = [&](uint64_t) { return std::unique_ptr<T>(new T(m.hm->shared_parameters)); };
        k.afresh = [](T &t) { t.reset(); };
        k.answer = [](T &t) {
            std::string o = jsonText(t.toJson());
            return o;
        };
        k.edit = [=](T &t, uint64_t e) {
            Rnd r(e);
            int op = r.in(0, 3);
            if (op == 0) t.filter(frame(r, D, sc));
            else if (op == 1) t.reset();
            else if (op == 2) t.states[0].mixture_coeffs[0] = static_cast<float>(r.real(0.1, 1));
            else t.transition[0] = static_cast<float>(r.real(0.1, 0.9));
        };
        run(g, k);
    } else {
        typedef xmm::SingleClassGMM T;
        Kind<T> k;
        k.build = [&] {
            AnyModel q(u);
            q.train(ts.get());
            std::unique_ptr<T> t(new T(q.gm->models.at(l)));
            t->reset();
            return t;
        };
        k.other = [&](uint64_t) { return std::unique_ptr<T>(new T(m.gm->shared_parameters)); };
        k.answer = [](T &t) {
            std::string o = jsonText(t.toJson());
            return o;
        };
        k.afresh = [](T &t) { t.reset(); };
        k.edit = [=](T &t, uint64_t e) {
            Rnd r(e);
            int op = r.in(0, 3);
            if (op == 0) t.filter(frame(r, D, sc));
            else if (op == 1) t.reset();
            else if (op == 2) t.mixture_coeffs[0] = static_cast<float>(r.real(0.1, 1));
            else t.components[0].mean[0] += 1;
        };
        run(g, k);
    }
}

// a class assigned to one of another group answers as the one it comes from,
// whatever memory the other group gave its classes
namespace {
template <typename T>
std::string firstAnswers(T &t, uint64_t seed, unsigned D, double sc, int frames) {
    Rnd r(seed);
    std::string o;
    for (int i = 0; i < frames; ++i) {
        double v = t.filter(frame(r, D, sc));
        char b[120];
        snprintf(b, sizeof b, "%.9g %.9g %.9g;", v, t.results.instant_likelihood, t.results.log_likelihood);
        o += b;
        for (float x : t.results.output_values) {
            snprintf(b, sizeof b, " %.9g", static_cast<double>(x));
            o += b;
        }
    }
    return o;
}
template <typename T>
void assigned(pbt::Gen &g, const T &src, std::shared_ptr<xmm::SharedParameters> other, bool used, unsigned D, double sc) {
    T a(src);
    a.reset();
    T b(other);
    if (used) {
        b = src;
        b.reset();
        firstAnswers(b, 11, D, sc, 4);
    }
    T from(a);
    from.reset();
    b = from;
    int frames = static_cast<int>(g.size(8, 2));
    std::string fa = firstAnswers(a, 5, D, sc, frames), fb = firstAnswers(b, 5, D, sc, frames);
    PBT_CHECK("assigned-answers", fa == fb, "the class it comes from answers %s, the class it was assigned to %s", fa.c_str(), fb.c_str());
    b.reset();
    fb = firstAnswers(b, 5, D, sc, frames);
    PBT_CHECK("assigned-answers-afresh", fa == fb, "the class it comes from answers %s, the class it was assigned to, after reset, %s", fa.c_str(), fb.c_str());
    if (frames > 2) g.nontrivial();
}
}  // namespace

PBT_FACET(assigned_classes, 1500, 20000, "3 or more frames filtered after the assignment") {
    SetSpec s = genSet(g, smallSet());
    Setup u = genSetup(g, s);
    u.def.hier = false;
    noteSet(g, s);
    g.note(setupStr(u));
    auto ts = makeTS(s);
    AnyModel m(u);
    m.train(ts.get());
    std::string l = s.labels[0];
    auto other = std::make_shared<xmm::SharedParameters>();
    other->bimodal.set(s.bi);
    other->dimension.set(s.D);
    if (s.bi) other->dimension_input.set(s.DI);
    unsigned w = static_cast<unsigned>(g.integer(1, 8));
    other->likelihood_window.set(w);
    g.note("the group of the class assigned to has a likelihood window of " + std::to_string(w));
    bool used = g.coin();
    if (u.hmm) assigned(g, m.hm->models.at(l), other, used, s.inDim(), s.scale);
    else assigned(g, m.gm->models.at(l), other, used, s.inDim(), s.scale);
    g.label(u.hmm ? "HMM" : "GMM");
}

PBT_FACET(shared_parameters, 10000, 100000, "2 or more edits after the copy") {
    typedef xmm::SharedParameters T;
    bool bi = g.coin();
    uint64_t seed = g.raw(1u << 20);
    Kind<T> k;
    auto names = [](Rnd &r, unsigned n) {
        std::vector<std::string> v;
        for (unsigned i = 0; i < n; ++i) v.push_back(std::string(1, static_cast<char>('a' + r.in(0, 25))));
        return v;
    };
    k.edit = [=](T &p, uint64_t e) {
        Rnd r(e);
        bool large = r.in(0, 9) == 0;
        switch (r.in(0, 8)) {
            case 0: p.bimodal.set(r.coin()); break;
            case 1: p.dimension.set(static_cast<unsigned>(r.in(0, large ? 60 : 6))); break;
            case 2: p.dimension_input.set(static_cast<unsigned>(r.in(0, 6))); break;
            case 3: p.column_names.set(names(r, r.coin() ? p.dimension.get() : static_cast<unsigned>(r.in(0, 6)))); break;
            case 4: p.em_algorithm_min_iterations.set(static_cast<unsigned>(r.in(0, large ? 100000 : 9))); break;
            case 5: p.em_algorithm_max_iterations.set(static_cast<unsigned>(r.in(0, large ? 100000 : 9))); break;
            case 6: p.em_algorithm_percent_chg.set(r.real(-0.2, large ? 90 : 1)); break;
            case 7: p.likelihood_window.set(static_cast<unsigned>(r.in(0, large ? 100000 : 9))); break;
            default: {
                Json::Value j = p.toJson();
                if (r.coin()) j["likelihood_window"] = r.in(0, 3);
                p.fromJson(j);
            }
        }
    };
    k.build = [=] {
        std::unique_ptr<T> p(new T());
        p->bimodal.set(bi);
        for (uint64_t i = 0; i < 5; ++i) tryEdit(k, *p, seed + i);
        return p;
    };
    k.other = [=](uint64_t e) {
        std::unique_ptr<T> p(new T());
        Rnd r(e);
        p->bimodal.set(r.coin());
        for (uint64_t i = 0; i < 3; ++i) tryEdit(k, *p, e + i);
        return p;
    };
    k.answer = [](T &p) {
        std::string o = str(p.bimodal.get(), " ", p.dimension.get(), "/", p.dimension_input.get(), " ", p.em_algorithm_min_iterations.get(), " ", p.em_algorithm_max_iterations.get(), " ", p.likelihood_window.get(), " ");
        put(o, p.em_algorithm_percent_chg.get());
        for (auto &n : p.column_names.get()) o += "'" + n + "'";
        return o + p.toJson().toStyledString();
    };
    run(g, k);
}
