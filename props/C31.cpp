// C31: objects give back all the memory they took, and what is repeated on a living object does not make it grow.
#include "anymodel.hpp"
#include "xmmMatrix.hpp"
#include <sanitizer/allocator_interface.h>
#include <thread>

namespace {
size_t bytes() { return __sanitizer_get_current_allocated_bytes(); }
// Plays f (which must end as it begins) again and again: memory in use may differ from time to time (the C library keeps
// buffers of its own), but it must not be more after each of a run of repetitions than before it.
template <typename F>
void steady(const char *tag, int repeats, F f) {
    f();
    size_t last = bytes(), start = last;
    for (int i = 0; i < repeats; ++i) {
        f();
        size_t now = bytes();
        if (now <= last) return;
        last = now;
    }
    PBT_CHECK(tag, false, "memory in use grows with every one of ", repeats, " repetitions: ", last - start, " bytes in all, ", (last - start) / static_cast<size_t>(repeats), " each");
}
template <typename F>
void tolerate(F f) {
    try {
        f();
    } catch (const std::exception &) {
    }
}
struct Count {
    int n = 0;
    void on(xmm::TrainingEvent &) { ++n; }
};
struct Op {
    unsigned kind, a, b;
};
std::vector<Op> genPlan(Gen &g, int kinds, size_t max) {
    std::vector<Op> r;
    for (size_t n = 0; n == 0 || g.more(n, max, 5); ++n) {
        Op o;
        o.kind = static_cast<unsigned>(g.integer(0, kinds - 1));
        o.a = static_cast<unsigned>(g.integer(0, 9));
        o.b = static_cast<unsigned>(g.integer(0, 9));
        r.push_back(o);
    }
    return r;
}
std::string planStr(const char *const *names, const std::vector<Op> &p) {
    std::string o;
    for (auto &k : p) o += str(names[k.kind], " ", k.a, " ", k.b, "; ");
    return o;
}
void wait(AnyModel &m) {
    while (m.training()) std::this_thread::yield();
}
const char *modelOps[] = {"train", "train class", "filter", "copy", "assign", "json", "reset", "remove and train again", "failing set", "cancel", "train two sets", "configuration", "text"};
struct Case {
    SetSpec s;
    Setup u;
    std::vector<std::vector<float>> frames;
    std::vector<Op> plan;
};
Case genCase(Gen &g, bool modes) {
    Case c;
    SetOpts o;
    o.maxD = 3;
    o.maxPhrases = 2;
    o.minLen = 8;
    o.maxLen = 14;
    c.s = genSet(g, o);
    c.u = genSetup(g, c.s);
    if (modes) c.u.threads = g.oneof({Threads::Sequential, Threads::Parallel, Threads::Background});
    ObsStream obs(c.s);
    for (int i = 0; i < 4; ++i) c.frames.push_back(obs.next(g));
    c.plan = genPlan(g, 13, 10);
    noteSet(g, c.s);
    g.note(setupStr(c.u), planStr(modelOps, c.plan), "\n");
    for (auto &k : c.plan) g.label(modelOps[k.kind]);
    return c;
}
// one step in the life of a model (the set is left as it was)
void step(AnyModel &m, xmm::TrainingSet &ts, const Case &c, const Op &k) {
    const std::string &l = c.s.labels[k.a % c.s.labels.size()];
    auto filter = [&](AnyModel &x) {
        if (x.size() && x.trained())
            for (auto &f : c.frames) x.filter(f);
    };
    switch (k.kind) {
        case 0: m.train(&ts); break;
        case 1: m.train(&ts, l); break;
        case 2: filter(m); break;
        case 3: {
            AnyModel d = m.copy();
            filter(d);
            break;
        }
        case 4: {
            AnyModel d(c.u.hmm, c.u.bi);
            d.assign(m);
            filter(d);
            m.assign(d);
            break;
        }
        case 5: {
            auto j = m.json();
            AnyModel d(c.u.hmm, c.u.bi);
            d.fromJson(j);
            m.fromJson(j);
            j["models"][0u].removeMember("label");
            j["shared_parameters"]["dimension"] = "no";
            tolerate([&] { d.fromJson(j); });
            break;
        }
        case 6: m.reset(); break;
        case 7:
            tolerate([&] { m.removeClass(l); });
            m.train(&ts, l);
            break;
        case 8: {  // values that are not finite, an empty phrase, another dimension
            xmm::TrainingSet bad(xmm::MemoryMode::OwnMemory, c.s.bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
            bad.dimension.set(c.s.D + (k.a % 3 == 1 ? 1 : 0));
            if (c.s.bi) bad.dimension_input.set(c.s.DI);
            bad.addPhrase(0, l);
            if (k.a % 3 != 0) {
                std::vector<float> f(c.s.D + (k.a % 3 == 1 ? 1 : 0), k.a % 3 == 2 ? 1e30f : 1.f);
                for (unsigned i = 0; i < 8; ++i) bad.getPhrase(0)->record(f);
            }
            AnyModel d(c.u);
            tolerate([&] { d.train(&bad); });
            wait(d);
            break;
        }
        case 9: {
            Count n;  // outlives the model
            AnyModel d(c.u);
            d.with([](auto &x) { x.configuration.multithreading = Threads::Background; return 0; });
            d.with([&](auto &x) { x.training_events.addListener(&n, &Count::on); return 0; });
            d.train(&ts);
            d.with([&](auto &x) { if (k.b % 2) x.cancelTraining(); else x.cancelTraining(l); return 0; });
            wait(d);
            d.clear();
            break;
        }
        case 10: {
            auto other = makeTS(c.s);
            m.train(other.get());
            wait(m);
            break;
        }
        case 11:
            m.with([&](auto &x) {
                x.configuration[l].gaussians.set(1 + k.b % 2);
                auto cfg = x.configuration;
                x.configuration = cfg;
                auto sp = *x.shared_parameters;
                *x.shared_parameters = sp;
                x.configuration.reset(l);
                return 0;
            });
            break;
        default: {
            std::string t = m.text();
            Json::Reader r;
            Json::Value v;
            r.parse(t, v);
        }
    }
    wait(m);
}
}  // namespace

PBT_FACET(lives, 1500, 25000, "3 or more kinds of use") {
    Case c = genCase(g, true);
    std::set<unsigned> kinds;
    for (auto &k : c.plan) kinds.insert(k.kind);
    steady("life", 6, [&] {
        auto ts = makeTS(c.s);
        Count n;
        AnyModel m(c.u);
        m.with([&](auto &x) { x.training_events.addListener(&n, &Count::on); return 0; });
        for (auto &k : c.plan) step(m, *ts, c, k);
        wait(m);
    });
    if (kinds.size() >= 3) g.nontrivial();
}

PBT_FACET(living_model, 1200, 20000, "3 or more kinds of use") {
    Case c = genCase(g, false);
    std::set<unsigned> kinds;
    auto ts = makeTS(c.s);
    Count n;
    AnyModel m(c.u);
    m.with([&](auto &x) { x.training_events.addListener(&n, &Count::on); return 0; });
    m.train(ts.get());
    for (auto &k : c.plan) kinds.insert(k.kind);
    for (auto &k : c.plan) step(m, *ts, c, k);
    steady("repeated", 8, [&] {
        for (auto &k : c.plan) step(m, *ts, c, k);
    });
    if (kinds.size() >= 3) g.nontrivial();
}

PBT_FACET(streams, 1500, 20000, "2 or more classes, 200 or more frames") {
    SetOpts o;
    o.minLen = 8;
    o.maxLen = 14;
    SetSpec s = genSet(g, o);
    Setup u = genSetup(g, s);
    noteSet(g, s);
    g.note(setupStr(u));
    AnyModel m(u);
    m.train(makeTS(s).get());
    ObsStream obs(s);
    std::vector<std::vector<float>> fr;
    for (int i = 0; i < 12; ++i) fr.push_back(obs.next(g));
    size_t n = static_cast<size_t>(g.integer(100, 600));
    unsigned resets = static_cast<unsigned>(g.integer(0, 3));
    auto play = [&](size_t k) {
        for (size_t i = 0; i < k; ++i) {
            m.filter(fr[i % fr.size()]);
            if (resets && i % 97 == 96 && i / 97 < resets) m.reset();
        }
    };
    play(20 + 2 * u.window);
    size_t before = bytes();
    play(n);
    size_t after = bytes();
    if (after > before) {  // a buffer may still have reached its final size
        play(n);
        size_t third = bytes();
        play(n);
        PBT_CHECK("stream", third <= after || bytes() <= third, "memory in use grows with the frames: ", after - before, " and ", third - after, " bytes over ", n, " frames each");
    }
    if (s.labels.size() > 1 && n >= 200) g.nontrivial();
}

namespace {
const char *setOps[] = {"record phrase", "add copy", "add shared", "remove", "remove class", "relabel", "clear phrase", "dimension", "names", "rescale", "json", "copy set", "classes", "statistics", "bad json", "long phrase"};
void setStep(xmm::TrainingSet &t, const Op &k, bool bi) {
    int i = static_cast<int>(k.a);
    std::string l(1, static_cast<char>('a' + k.b % 4));
    auto phrase = [&](xmm::Phrase &p, unsigned n) {
        for (unsigned x = 0; x < n; ++x) {
            auto f = drow(k.a * 10 + k.b, x, p.dimension.get());
            if (bi && k.b % 2) {
                p.record_input(std::vector<float>(f.begin(), f.begin() + p.dimension_input.get()));
                if (k.b % 3) p.record_output(std::vector<float>(f.begin() + p.dimension_input.get(), f.end()));
            } else
                p.record(f);
        }
    };
    auto fresh = [&] {
        auto p = std::make_shared<xmm::Phrase>(xmm::MemoryMode::OwnMemory, bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
        p->dimension.set(t.dimension.get());
        if (bi) p->dimension_input.set(t.dimension_input.get());
        p->label.set(l);
        phrase(*p, 6);
        return p;
    };
    switch (k.kind) {
        case 0:
            t.addPhrase(i, l);
            phrase(*t.getPhrase(i), 4 + k.b);
            break;
        case 1: t.addPhrase(i, *fresh()); break;
        case 2: t.addPhrase(i, fresh()); break;
        case 3: t.removePhrase(i); break;
        case 4: t.removePhrasesOfClass(l); break;
        case 5:
            if (auto p = t.getPhrase(i)) p->label.set(l);
            break;
        case 6:
            if (auto p = t.getPhrase(i)) {
                if (k.b % 3 == 1 && bi) p->clearInput();
                else if (k.b % 3 == 2 && bi) p->clearOutput();
                else p->clear();
                phrase(*p, k.b);
            }
            break;
        case 7: t.dimension.set(2 + k.a % 4); break;
        case 8: {
            std::vector<std::string> n;
            for (unsigned d = 0; d < t.dimension.get(); ++d) n.push_back(str("column ", d, std::string(k.a * 5, 'x')));
            t.column_names.set(n);
            break;
        }
        case 9: t.rescale(std::vector<float>(t.dimension.get(), 0.1f), std::vector<float>(t.dimension.get(), 1.1f)); break;
        case 10: {
            auto j = t.toJson();
            xmm::TrainingSet d(j);
            t.fromJson(j);
            break;
        }
        case 11: {
            xmm::TrainingSet d(t), e;
            e = t;
            t = d;
            break;
        }
        case 12:
            for (auto &c : t.labels()) t.getPhrasesOfClass(c)->size();
            break;
        case 13:
            t.mean(), t.standardDeviation(), t.minmax();
            t.normalize();
            break;
        case 14: {
            auto j = t.toJson();
            xmm::TrainingSet d;
            if (j["phrases"].size()) j["phrases"][j["phrases"].size() - 1]["data"] = k.b % 2 ? Json::Value("no") : Json::Value();
            tolerate([&] { d.fromJson(j); });
            tolerate([&] { t.fromJson(j); });
            tolerate([&] { xmm::TrainingSet x(j); });
            xmm::Phrase p;
            if (j["phrases"].size()) tolerate([&] { p.fromJson(j["phrases"][0u]); });
            break;
        }
        default: {
            auto p = fresh();
            phrase(*p, 300);
            xmm::Phrase q(*p);
            q = *p;
            q = q;
            phrase(q, 40);
            xmm::TrainingSet d(xmm::MemoryMode::OwnMemory, bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
            tolerate([&] { d.addPhrase(1, q); });
        }
    }
}
}  // namespace
PBT_FACET(sets, 4000, 60000, "3 or more kinds of edit") {
    bool bi = g.coin();
    auto plan = genPlan(g, 16, 14);
    g.note(bi ? "bimodal: " : "", planStr(setOps, plan), "\n");
    std::set<unsigned> kinds;
    for (auto &k : plan) kinds.insert(k.kind), g.label(setOps[k.kind]);
    auto make = [&] {
        std::unique_ptr<xmm::TrainingSet> t(new xmm::TrainingSet(xmm::MemoryMode::OwnMemory, bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal));
        t->dimension.set(3);
        return t;
    };
    auto run = [&](xmm::TrainingSet &t) {
        for (auto &k : plan) tolerate([&] { setStep(t, k, bi); });
    };
    steady("life", 4, [&] { run(*make()); });
    auto t = make();
    run(*t);
    steady("repeated", 6, [&] { run(*t); });
    if (kinds.size() >= 3) g.nontrivial();
}

PBT_FACET(small_objects, 4000, 60000, "2 or more dimensions") {
    unsigned D = static_cast<unsigned>(g.integer(1, 5)), K = static_cast<unsigned>(g.integer(1, 5));
    bool bi = D > 1 && g.coin(), singular = g.chance(1, 3);
    unsigned DI = bi ? static_cast<unsigned>(g.integer(1, static_cast<int>(D) - 1)) : 0, W = static_cast<unsigned>(g.integer(1, 40));
    unsigned stream = static_cast<unsigned>(g.raw(1000));
    g.note("D ", D, " DI ", DI, " clusters ", K, " window ", W, singular ? " singular\n" : "\n");
    std::vector<float> x = drow(stream, 0, D);
    std::unique_ptr<xmm::GaussianDistribution> held(new xmm::GaussianDistribution(bi, D, DI));
    std::unique_ptr<xmm::KMeans> km(new xmm::KMeans(K));
    SetSpec s;
    s.bi = bi;
    s.D = D;
    s.DI = DI;
    PhraseSpec q{1, "a", {}};
    for (unsigned i = 0; i < 12; ++i) q.fr.push_back(drow(stream, i, D));
    s.ph.push_back(q);
    s.labels = {"a"};
    xmm::CircularBuffer<double> cb(W);
    auto gauss = [&](xmm::GaussianDistribution &d) {
        d.covariance_mode.set(Cov::Full);
        for (unsigned i = 0; i < D; ++i)
            for (unsigned j = 0; j < D; ++j) d.covariance[i * D + j] = singular ? 1. : i == j ? 2. : 0.1;
        tolerate([&] { d.updateInverseCovariance(); });
        std::vector<float> y;
        tolerate([&] { d.likelihood(x.data()); });
        if (bi) {
            tolerate([&] { d.likelihood_input(x.data()); });
            tolerate([&] { d.regression(x, y); });
        }
        tolerate([&] { d.covariance_mode.set(Cov::Diagonal); });
        auto j = d.toJson();
        xmm::GaussianDistribution e(j), f;
        f = e;
        f = d;
        tolerate([&] { d.dimension.set(D + 1); });
        tolerate([&] { d.dimension.set(D); });
        if (bi) tolerate([&] { d.dimension_input.set(DI); });
        j["mean"] = "no";
        tolerate([&] { f.fromJson(j); });
        tolerate([&] { xmm::GaussianDistribution h(j); });
    };
    auto cluster = [&](xmm::KMeans &m) {
        auto ts = makeTS(s);
        m.initialization_mode = xmm::KMeans::InitializationMode::Biased;
        m.train(ts.get());
        for (auto &f : s.ph[0].fr) m.filter(f);
        auto j = m.toJson();
        xmm::KMeans c(m), e(2);
        c.fromJson(j);
        e = c;
        m.fromJson(j);
        j["centers"] = 1;
        tolerate([&] { e.fromJson(j); });
        xmm::TrainingSet none;
        tolerate([&] { m.train(&none); });
    };
    auto rest = [&](xmm::CircularBuffer<double> &b) {
        for (unsigned i = 0; i < 2 * W + 3; ++i) b.push(i);
        b.mean();
        b.resize(W + 5);
        for (unsigned i = 0; i < W; ++i) b.push(i);
        b.clear();
        b.resize(W);
        std::vector<double> a(D * D);
        for (unsigned i = 0; i < D * D; ++i) a[i] = singular ? 1. : i % (D + 1) ? 0.25 : 2.;
        xmm::Matrix<double> m(D, D, a.begin()), n(D, D, true);
        double det = 0;
        tolerate([&] { delete m.pinv(&det); });
        tolerate([&] { delete m.transpose(); });
        tolerate([&] { delete m.product(&n); });
        xmm::Matrix<double> wide(1, D, true), col(D + 1, 1, true);
        tolerate([&] { delete wide.product(&col); });
        tolerate([&] { delete wide.pinv(&det); });
        m.resize(D + 1, D);
    };
    steady("life", 4, [&] {
        xmm::GaussianDistribution d(bi, D, DI);
        gauss(d);
        xmm::KMeans m(K);
        cluster(m);
        xmm::CircularBuffer<double> b(W);
        rest(b);
    });
    auto again = [&] {
        gauss(*held);
        cluster(*km);
        rest(cb);
    };
    again();
    steady("repeated", 5, again);
    if (D > 1) g.nontrivial();
}
