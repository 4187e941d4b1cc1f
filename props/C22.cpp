// C22: settings outside their documented range and calls that cannot be served are refused, and change nothing.
#include "settings.hpp"

namespace {
template <typename P>
void parameters(Gen &g) {
    std::unique_ptr<P> p(new P());
    auto ss = settings(*p);
    std::vector<double> model;
    for (auto &s : ss) {
        model.push_back(s.get());
        PBT_CHECK("default", s.valid(s.get()), "the default ", s.name, " ", s.get(), " is invalid");
    }
    int refused = 0, accepted = 0;
    for (size_t n = 0; g.more(n, 20, 10); ++n) {
        int op = g.integer(0, 7);
        if (op == 6) {
            g.note("copied\n");
            p.reset(new P(*p));
            ss = settings(*p);
        } else if (op == 7) {
            g.note("assigned\n");
            std::unique_ptr<P> q(new P());
            if (g.coin()) trySet(settings(*q)[0], 7);
            *q = *p;
            p = std::move(q);
            ss = settings(*p);
        } else {
            size_t k = g.raw(ss.size() - 1);
            double v = g.pick(ss[k].candidates);
            g.note(ss[k].name, " = ", v, "\n");
            bool ok = ss[k].valid(v);
            PBT_CHECK("limits", trySet(ss[k], v) == ok, ss[k].name, " = ", v, ok ? " is refused" : " is accepted");
            if (ok) {
                ss[k].set(v);
                model[k] = ss[k].get();
                PBT_CLOSE("value", model[k], v, 1e-6, 0, ss[k].name);
                ++accepted;
            } else ++refused;
        }
        for (size_t i = 0; i < ss.size(); ++i) PBT_CHECK("unchanged", ss[i].get() == model[i], ss[i].name, " became ", ss[i].get(), " instead of ", model[i]);
    }
    if (refused && accepted) g.nontrivial();
}
// objects with a dimension and an input dimension
struct Dims {
    bool bi;
    unsigned d, di;
};
template <typename T>
struct MakeDims {
    static std::unique_ptr<T> make(bool bi) { return std::unique_ptr<T>(new T(xmm::MemoryMode::OwnMemory, bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal)); }
    static bool canToggle() { return false; }
    static void toggle(T &, bool) {}
};
template <>
struct MakeDims<xmm::GaussianDistribution> {
    static std::unique_ptr<xmm::GaussianDistribution> make(bool bi) { return std::unique_ptr<xmm::GaussianDistribution>(new xmm::GaussianDistribution(bi, bi ? 2 : 1, bi ? 1 : 0)); }
    static bool canToggle() { return false; }
    static void toggle(xmm::GaussianDistribution &, bool) {}
};
template <>
struct MakeDims<xmm::SharedParameters> {
    static std::unique_ptr<xmm::SharedParameters> make(bool bi) {
        std::unique_ptr<xmm::SharedParameters> p(new xmm::SharedParameters());
        p->bimodal.set(bi);
        return p;
    }
    static bool canToggle() { return true; }
    static void toggle(xmm::SharedParameters &p, bool bi) { p.bimodal.set(bi); }
};
template <typename T>
void dimensions(Gen &g) {
    bool bi = g.coin();
    auto p = MakeDims<T>::make(bi);
    Dims m{bi, bi ? 2u : 1u, bi ? 1u : 0u};
    g.note(bi ? "bimodal\n" : "unimodal\n");
    int refused = 0, lowered = 0;
    for (size_t n = 0; g.more(n, 20, 10); ++n) {
        int op = g.integer(0, 6);
        if (op == 6) {
            if (MakeDims<T>::canToggle() && g.coin()) {
                m.bi = g.coin();
                g.note(m.bi ? "bimodal\n" : "unimodal\n");
                MakeDims<T>::toggle(*p, m.bi);
                if (m.bi) {
                    m.d = std::max(m.d, 2u);
                    m.di = std::max(m.di, 1u);
                } else m.di = 0;
            } else {
                g.note("copied\n");
                p.reset(new T(*p));
            }
        } else {
            bool gauss = std::is_same<T, xmm::GaussianDistribution>::value;
            bool input = op >= 3 && (m.bi || !gauss);
            unsigned v = static_cast<unsigned>(g.integer(0, 6));
            g.note(input ? "dimension_input = " : "dimension = ", v, "\n");
            // (a Gaussian is its own dimensions' only user: it accepts any below its dimension)
            if (gauss && (input ? v < 1 : m.bi && v < 2)) continue;
            bool ok = input ? (m.bi ? v >= 1 && v < m.d : v == 0) : v >= (m.bi ? 2u : 1u), threw = false;
            try {
                if (input) p->dimension_input.set(v);
                else p->dimension.set(v);
            } catch (const std::domain_error &) {
                threw = true;
            }
            PBT_CHECK("limits", threw != ok, input ? "dimension_input " : "dimension ", v, ok ? " is refused" : " is accepted", " with ", m.d, "/", m.di);
            if (!ok) ++refused;
            else if (input) m.di = v;
            else {
                m.d = v;
                if (m.bi && m.di >= m.d) {
                    m.di = m.d - 1;
                    ++lowered;
                }
            }
        }
        PBT_CHECK("dimensions", p->dimension.get() == m.d && p->dimension_input.get() == m.di, "dimensions ", p->dimension.get(), "/", p->dimension_input.get(), " instead of ", m.d, "/", m.di);
    }
    if (refused) g.nontrivial();
    if (lowered) g.label("input dimension lowered");
}
}  // namespace

PBT_FACET(class_parameters, 60000, 600000, "settings both refused and accepted") {
    switch (g.integer(0, 2)) {
        case 0: parameters<xmm::ClassParameters<xmm::GMM>>(g); break;
        case 1: parameters<xmm::ClassParameters<xmm::HMM>>(g); break;
        default: parameters<xmm::ClassParameters<xmm::KMeans>>(g);
    }
}
PBT_FACET(dimension_settings, 40000, 400000, "a setting was refused") {
    switch (g.integer(0, 3)) {
        case 0: dimensions<xmm::Phrase>(g); break;
        case 1: dimensions<xmm::TrainingSet>(g); break;
        case 2: dimensions<xmm::SharedParameters>(g); break;
        default: dimensions<xmm::GaussianDistribution>(g);
    }
}

namespace {
SetOpts smallSet() {
    SetOpts o;
    o.maxClasses = 2;
    o.maxPhrases = 2;
    o.minLen = 8;
    o.maxLen = 12;
    o.sep = 2;
    o.maxD = 3;
    return o;
}
std::string play(AnyModel &m, const std::vector<std::vector<float>> &xs) {
    std::string o;
    for (auto &x : xs) {
        m.filter(x);
        o += m.results();
    }
    return o;
}
}  // namespace

// refused settings and calls on a model leave it as one that never saw them
PBT_FACET(models, 5000, 60000, "2 or more refused calls between frames") {
    SetSpec s = genSet(g, smallSet());
    Setup u = genSetup(g, s);
    noteSet(g, s);
    g.note(setupStr(u));
    auto ts = makeTS(s);
    AnyModel m(u), twin(u);
    ObsStream obs(s);
    bool isTrained = !g.chance(1, 6);
    if (isTrained) {
        m.train(ts.get());
        twin.train(ts.get());
        m.reset();
        twin.reset();
    }
    int refused = 0;
    auto refuse = [&](const std::string &what, std::function<void()> f) {
        g.note(what, "\n");
        bool threw = false;
        try {
            f();
        } catch (const std::exception &) {
            threw = true;
        }
        PBT_CHECK("accepted", threw, what, " is accepted");
        ++refused;
    };
    for (size_t n = 0; g.more(n, 15, 8); ++n) {
        int op = g.integer(0, 7);
        if (op == 0 && isTrained) {
            auto x = obs.next(g);
            m.filter(x);
            twin.filter(x);
            PBT_CHECK("results", m.results() == twin.results(), "results differ after refused calls\n", m.results(), "\n", twin.results());
        } else if (op <= 2) {
            // a bad value for one of the settings
            bool cls = isTrained && g.coin(), over = g.chance(1, 3);
            auto bad = [&](std::vector<Setting> ss) {
                auto &q = ss[g.raw(ss.size() - 1)];
                std::vector<double> c;
                for (double v : q.candidates)
                    if (!q.valid(v)) c.push_back(v);
                if (c.empty()) return 0;
                double v = g.pick(c);
                refuse((cls ? "class parameter " : "configuration ") + q.name + " = " + str(v), [&] { q.set(v); });
                return 0;
            };
            std::string l = s.labels[0];
            if (over) {
                m.with([&](auto &x) { x.configuration[l]; return 0; });
                twin.with([&](auto &x) { x.configuration[l]; return 0; });
            }
            m.with([&](auto &x) { return cls ? bad(settings(x.models.at(l).parameters)) : over ? bad(settings(x.configuration[l])) : bad(settings(x.configuration)); });
        } else if (op == 3) {
            auto &p = m.shared();
            switch (g.integer(0, 6)) {
                case 0: refuse("dimension 0", [&] { p.dimension.set(0); }); break;
                case 1: refuse("input dimension above", [&] { p.dimension_input.set(p.dimension.get()); }); break;
                case 2: refuse("minimum iterations 0", [&] { p.em_algorithm_min_iterations.set(0); }); break;
                case 3: refuse("percent change -1", [&] { p.em_algorithm_percent_chg.set(-1); }); break;
                case 4: refuse("window 0", [&] { p.likelihood_window.set(0); }); break;
                case 5:
                    if (p.column_names.get().size() == p.dimension.get())  // (free until the dimension is set)
                        refuse("too many column names", [&] { p.column_names.set(std::vector<std::string>(p.dimension.get() + 1)); }); break;
                default:
                    if (s.bi) refuse("dimension 1", [&] { p.dimension.set(1); });
            }
        } else if (op == 4) {
            refuse("absent class removed", [&] { m.removeClass("absent"); });
        } else if (op == 5) {
            refuse("absent class trained", [&] { m.train(ts.get(), "absent"); });
        } else if (op == 6 && isTrained) {
            SetSpec t = s;
            t.D = s.D + 1;
            auto other = std::unique_ptr<xmm::TrainingSet>(new xmm::TrainingSet(xmm::MemoryMode::OwnMemory, s.bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal));
            other->dimension.set(t.D);
            if (s.bi) other->dimension_input.set(s.DI);
            other->addPhrase(0, s.labels[0]);
            for (auto &f : s.ph[0].fr) {
                auto q = f;
                q.push_back(1);
                other->getPhrase(0)->record(q);
            }
            refuse("class trained with other dimensions", [&] { m.train(other.get(), s.labels[0]); });
        } else if (op == 7 && m.hm) {
            auto &h = *m.hm;
            if (!isTrained) {
                xmm::SingleClassHMM c(h.shared_parameters);
                refuse("exit point of an untrained class", [&] { c.addExitPoint(0, 0.5f); });
            } else if (u.def.hier) {
                int far = 4 + g.integer(0, 1000);
                refuse("exit point of a state beyond the last", [&] { h.addExitPoint(g.coin() ? far : -1 - g.integer(0, 3), 0.5f); });
            } else {
                refuse("exit point of a non-hierarchical model", [&] { h.models.begin()->second.addExitPoint(0, 0.5f); });
            }
        }
        PBT_CHECK("unchanged", m.text() == twin.text(), "a refused call changed the model\n", m.text(), "\n", twin.text());
    }
    std::vector<std::vector<float>> xs;
    if (isTrained) {
        for (size_t i = 0; g.more(i, 4, 2); ++i) xs.push_back(obs.next(g));
        PBT_CHECK("results", play(m, xs) == play(twin, xs), "results differ after refused calls");
    }
    // and it trains as if nothing had happened
    m.train(ts.get());
    twin.train(ts.get());
    PBT_CHECK("training", m.text() == twin.text(), "training differs after refused calls");
    if (refused >= 2) g.nontrivial();
}

PBT_FACET(kmeans, 6000, 60000, "always") {
    SetSpec s = genSet(g, smallSet());
    auto ts = makeTS(s);
    noteSet(g, s);
    xmm::KMeans m(static_cast<unsigned>(g.integer(1, 3)));
    m.initialization_mode = xmm::KMeans::InitializationMode::Biased;
    std::vector<float> ok(s.D, 0.5f);
    bool threw = pbt::throws<std::runtime_error>([&] { m.filter(std::vector<float>(m.shared_parameters->dimension.get(), 0.5f)); });
    PBT_CHECK("untrained", threw, "an untrained k-means filters");
    m.train(ts.get());
    m.filter(ok);
    auto t = jsonText(m.toJson());
    auto d = m.results.distances;
    auto best = m.results.likeliest;
    unsigned n = static_cast<unsigned>(g.integer(0, 8));
    if (n != s.D) {
        std::vector<float> wrong(n, 1.f);
        PBT_CHECK("dimension", pbt::throws<std::runtime_error>([&] { m.filter(wrong); }), "an observation of ", n, " values is accepted for ", s.D, " dimensions");
    }
    PBT_CHECK("clusters", pbt::throws<std::domain_error>([&] { m.configuration.clusters.set(0); }));
    PBT_CHECK("unchanged", jsonText(m.toJson()) == t && m.results.distances == d && m.results.likeliest == best, "a refused call changed the model");
    g.nontrivial();
}

// a Gaussian refuses what it cannot answer
PBT_FACET(gaussians, 15000, 150000, "2 or more calls refused") {
    RefGauss r = genGauss(g, -1, 4);
    auto d = makeGauss(r);
    bool bi = d.dimension_input.get() > 0;
    auto before = jsonText(d.toJson());
    unsigned D = d.dimension.get();
    std::vector<float> x(D, 0.1f), y;
    int refused = 0;
    for (size_t n = 0; g.more(n, 8, 4); ++n) {
        int op = g.integer(0, 5);
        if (op == 0) {
            unsigned a = static_cast<unsigned>(g.integer(0, 6)), b = static_cast<unsigned>(g.integer(0, 6));
            bool bad = a >= D || b >= D;
            g.note("ellipse of ", a, ", ", b, " of ", D, "\n");
            bool threw = pbt::throws<std::out_of_range>([&] { d.toEllipse(a, b); });
            PBT_CHECK("ellipse", threw == bad, "toEllipse(", a, ", ", b, ") of ", D, " dimensions");
            refused += threw;
        } else if (op == 1) {
            unsigned a = D + static_cast<unsigned>(g.integer(0, 3)), b = static_cast<unsigned>(g.integer(0, static_cast<int>(D) - 1));
            xmm::Ellipse e;
            e.x = e.y = 0;
            e.width = e.height = 1;
            e.angle = 0;
            bool swap = g.coin();
            PBT_CHECK("ellipse", pbt::throws<std::out_of_range>([&] { d.fromEllipse(e, swap ? b : a, swap ? a : b); }), "fromEllipse beyond the last dimension");
            ++refused;
        } else if (!bi) {
            if (op == 2) PBT_CHECK("unimodal", pbt::throws<std::runtime_error>([&] { d.regression(x, y); }));
            else if (op == 3) PBT_CHECK("unimodal", pbt::throws<std::runtime_error>([&] { d.likelihood_input(x.data()); }));
            else if (op == 4) PBT_CHECK("unimodal", pbt::throws<std::runtime_error>([&] { d.likelihood_bimodal(x.data(), x.data()); }));
            else PBT_CHECK("unimodal", pbt::throws<std::runtime_error>([&] { y.assign(3, 0.f); d.regression(x, y); }));
            ++refused;
        }
        PBT_CHECK("unchanged", jsonText(d.toJson()) == before, "a refused call changed the distribution");
    }
    if (refused >= 2) g.nontrivial();
}

// a phrase refuses what its memory mode, its modality or its length cannot serve, whatever was recorded or connected
namespace {
struct PhraseView {
    unsigned D, DI, n, ni, no;
    bool own, bi, empty;
    std::string label;
    std::vector<std::string> names;
    std::vector<float> values;
    bool operator==(const PhraseView &o) const {
        return D == o.D && DI == o.DI && n == o.n && ni == o.ni && no == o.no && own == o.own && bi == o.bi && empty == o.empty && label == o.label && names == o.names && values == o.values;
    }
};
PhraseView look(const xmm::Phrase &p) {
    PhraseView v{p.dimension.get(), p.dimension_input.get(), p.size(), p.inputSize(), p.outputSize(), p.ownMemory(), p.bimodal(), p.empty(), p.label.get(), p.column_names, {}};
    for (unsigned t = 0; t < v.n; ++t)
        for (unsigned d = 0; d < v.D; ++d) v.values.push_back(p.getValue(t, d));
    return v;
}
}  // namespace
PBT_FACET(phrase_calls, 30000, 300000, "2 or more calls refused on a phrase of 2 or more frames") {
    bool own = g.coin(), bi = g.coin();
    unsigned D = static_cast<unsigned>(g.integer(bi ? 2 : 1, 4)), DI = bi ? static_cast<unsigned>(g.integer(1, static_cast<int>(D) - 1)) : 0;
    auto a = std::vector<float>(64), b = std::vector<float>(64);
    for (size_t i = 0; i < 64; ++i) a[i] = static_cast<float>(i), b[i] = -static_cast<float>(i);
    const auto a0 = a, b0 = b;
    xmm::Phrase p(own ? xmm::MemoryMode::OwnMemory : xmm::MemoryMode::SharedMemory, bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
    p.dimension.set(D);
    if (bi) p.dimension_input.set(DI);
    g.note(own ? "own" : "shared", bi ? " bimodal" : " unimodal", " phrase, D=", D, " DI=", DI, "\n");
    int refused = 0;
    unsigned ia = bi ? DI : D, ib = D - DI;
    if (g.chance(3, 4)) {
        unsigned L = static_cast<unsigned>(g.integer(1, 5));
        g.note("starts with ", L, " frames\n");
        if (own) for (unsigned t = 0; t < L; ++t) p.record(std::vector<float>(a.begin() + t, a.begin() + t + D));
        else if (bi) p.connect(a.data(), b.data(), L);
        else p.connect(a.data(), L);
    }
    for (size_t n = 0; g.more(n, 14, 7); ++n) {
        auto before = look(p);
        int op = g.integer(0, 13);
        unsigned L = static_cast<unsigned>(g.integer(0, 6));
        auto vec = [&](unsigned want) { return std::vector<float>(g.chance(1, 3) ? static_cast<size_t>(g.integer(0, 6)) : want, 0.25f * static_cast<float>(n)); };
        bool bad = false, threw = false;
        const char *what = "";
        auto attempt = [&](const char *w, bool mustRefuse, const std::function<void()> &f) {
            what = w;
            bad = mustRefuse;
            g.note(w, mustRefuse ? " (cannot be served)" : "", "\n");
            try {
                f();
            } catch (const std::exception &) {
                threw = true;
            }
        };
        unsigned t = static_cast<unsigned>(g.integer(0, 8)), d = static_cast<unsigned>(g.integer(0, 5));
        float got = 0;
        switch (op) {
            case 0: attempt("connect", own || bi, [&] { p.connect(a.data(), L); }); break;
            case 1: attempt("connect both", own || !bi, [&] { p.connect(a.data(), b.data(), L); }); break;
            case 2: attempt("connect_input", own || !bi, [&] { p.connect_input(a.data(), L); }); break;
            case 3: attempt("connect_output", own || !bi, [&] { p.connect_output(b.data(), L); }); break;
            case 4: if (!own || g.chance(1, 3)) attempt("disconnect", own, [&] { p.disconnect(); }); break;
            case 5: {
                auto v = vec(D);
                attempt("record", !own || v.size() != D || (bi && before.ni != before.no), [&] { p.record(v); });
                break;
            }
            case 6: {
                auto v = vec(ia);
                attempt("record_input", !own || !bi || v.size() != ia, [&] { p.record_input(v); });
                break;
            }
            case 7: {
                auto v = vec(ib);
                attempt("record_output", !own || !bi || v.size() != ib, [&] { p.record_output(v); });
                break;
            }
            case 8: if (!own || g.chance(1, 4)) attempt("clear", !own, [&] { p.clear(); }); break;
            case 9: if (!own || g.chance(1, 4)) attempt("clearInput", !own, [&] { p.clearInput(); }); break;
            case 10: if (!own || g.chance(1, 4)) attempt("clearOutput", !own, [&] { p.clearOutput(); }); break;
            case 11: attempt("getValue", d >= D || t >= (!bi ? before.n : d < DI ? before.ni : before.no), [&] { got = p.getValue(t, d); }); break;
            case 12:
                if (t >= before.n && t < std::max(before.ni, before.no)) break;  // recorded in one modality only: either answer is safe
                if (g.coin()) attempt("getPointer", bi || t >= before.n, [&] { got = *p.getPointer(t); });
                else if (g.coin()) attempt("getPointer_input", !bi || t >= before.n, [&] { got = *p.getPointer_input(t); });
                else attempt("getPointer_output", !bi || t >= before.n, [&] { got = *p.getPointer_output(t); });
                break;
            case 13: {
                unsigned bound = static_cast<unsigned>(g.integer(0, 6));
                if (g.coin()) attempt("dimension", bound < (bi ? 2u : 1u), [&] { p.dimension.set(bound); });
                else attempt("dimension_input", bi ? bound < 1 || bound > D - 1 : bound != 0, [&] { p.dimension_input.set(bound); });
                break;
            }
        }
        if (!*what) continue;
        PBT_CHECK("refused", threw == bad, what, threw ? " is refused" : " is accepted", " on a ", own ? "own" : "shared", bi ? " bimodal" : " unimodal", " phrase of ", before.n, " frames (", before.ni, " in, ",
                  before.no, " out), t=", t, " d=", d, " L=", L);
        if (bad) {
            PBT_CHECK("unchanged", look(p) == before, what, " is refused but changes the phrase");
            if (before.n >= 2) ++refused;
        } else {
            D = p.dimension.get();
            DI = p.dimension_input.get();
            ia = bi ? DI : D;
            ib = D - DI;
            PBT_CHECK("dimensions", bi ? DI >= 1 && DI < D : DI == 0, "dimension ", D, " input dimension ", DI);
        }
    }
    PBT_CHECK("host-array", a == a0 && b == b0, "the phrase wrote into the host's array");
    if (refused >= 2) g.nontrivial();
}
