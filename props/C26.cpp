// C26: a model depends on the labelled frames only: not on how the set stores or came by them, nor on the unit they are in.
#include "anymodel.hpp"

namespace {
typedef xmm::MemoryMode Mem;
typedef xmm::Multimodality Mod;
SetSpec small(Gen &g) {
    SetOpts o;
    o.maxClasses = 3;
    o.maxPhrases = 3;
    o.minLen = 6;
    o.maxLen = 18;
    o.maxD = 4;
    return genSet(g, o);
}
// the arrays behind a set in shared memory
struct Host {
    std::vector<std::unique_ptr<float[]>> mem;
    std::vector<std::vector<float>> was;
    float *keep(const std::vector<float> &v) {
        mem.emplace_back(new float[std::max<size_t>(v.size(), 1)]);
        std::copy(v.begin(), v.end(), mem.back().get());
        was.push_back(v);
        return mem.back().get();
    }
    bool unchanged() const {
        for (size_t i = 0; i < mem.size(); ++i)
            if (!std::equal(was[i].begin(), was[i].end(), mem[i].get())) return false;
        return true;
    }
};
std::vector<float> columns(const PhraseSpec &q, unsigned from, unsigned to) {
    std::vector<float> r;
    for (auto &f : q.fr) r.insert(r.end(), f.begin() + from, f.begin() + to);
    return r;
}
void connect(xmm::Phrase &p, const PhraseSpec &q, const SetSpec &s, Host &h, bool apart) {
    unsigned n = static_cast<unsigned>(q.fr.size());
    if (!s.bi) p.connect(h.keep(columns(q, 0, s.D)), n);
    else if (apart) {
        p.connect_output(h.keep(columns(q, s.DI, s.D)), n);
        p.connect_input(h.keep(columns(q, 0, s.DI)), n);
    } else {
        float *a = h.keep(columns(q, 0, s.DI));
        p.connect(a, h.keep(columns(q, s.DI, s.D)), n);
    }
}
void recordApart(xmm::Phrase &p, const PhraseSpec &q, const SetSpec &s, Gen &g) {
    if (!s.bi) {
        fillPhrase(p, q);
        return;
    }
    size_t i = 0, o = 0;
    while (i < q.fr.size() || o < q.fr.size()) {
        if (i < q.fr.size() && (o >= q.fr.size() || g.coin())) {
            p.record_input(cut(q.fr[i], s.DI));
            ++i;
        } else {
            p.record_output(std::vector<float>(q.fr[o].begin() + s.DI, q.fr[o].end()));
            ++o;
        }
    }
}
std::unique_ptr<xmm::TrainingSet> bare(const SetSpec &s, Mem mem) {
    std::unique_ptr<xmm::TrainingSet> ts(new xmm::TrainingSet(mem, s.bi ? Mod::Bimodal : Mod::Unimodal));
    ts->dimension.set(s.D);
    if (s.bi) ts->dimension_input.set(s.DI);
    return ts;
}
std::unique_ptr<xmm::TrainingSet> edited(Gen &g, const SetSpec &s) {
    auto ts = bare(s, Mem::OwnMemory);
    std::vector<const PhraseSpec *> order;
    for (auto &q : s.ph) order.push_back(&q);
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[g.raw(i - 1)]);
    int spare = s.ph.back().index + 10;
    for (auto *q : order) {
        if (g.chance(1, 3)) {  // a phrase that does not stay
            int at = g.coin() ? spare++ : q->index;
            ts->addPhrase(at, g.coin() ? q->label : "gone");
            for (int k = 0; k < 5; ++k) ts->getPhrase(at)->record(drow(9, static_cast<unsigned>(k), s.D));
            if (at != q->index || g.coin()) ts->removePhrase(at);
        }
        bool relabel = g.chance(1, 3);
        ts->addPhrase(q->index, relabel ? g.oneof({std::string("tmp"), s.labels[0], std::string()}) : q->label);
        auto p = ts->getPhrase(q->index);
        if (g.chance(1, 3)) {
            for (int k = 0; k < 4; ++k) p->record(drow(10, static_cast<unsigned>(k), s.D));
            p->clear();
        }
        recordApart(*p, *q, s, g);
        if (relabel) p->label.set(q->label);
    }
    ts->removePhrasesOfClass("gone");
    return ts;
}
}  // namespace

PBT_FACET(storage, 4000, 60000, "a bimodal set or 2 or more classes, stored in another way than recorded") {
    SetSpec s = small(g);
    Setup u = genSetup(g, s);
    noteSet(g, s);
    g.note(setupStr(u));
    auto plain = makeTS(s);
    AnyModel ref(u);
    ref.train(plain.get());
    std::string want = ref.text();
    Host h;
    std::unique_ptr<xmm::TrainingSet> ts, other;
    int kind = g.integer(0, 6);
    static const char *names[] = {"shared memory", "edited", "copied", "from JSON", "phrases added by value", "phrases added by pointer", "trained on before"};
    g.note("the set is: ", names[kind], "\n");
    switch (kind) {
        case 0: {
            ts = bare(s, Mem::SharedMemory);
            bool apart = g.coin();
            for (auto &q : s.ph) {
                ts->addPhrase(q.index, q.label);
                connect(*ts->getPhrase(q.index), q, s, h, apart);
            }
            break;
        }
        case 1: ts = edited(g, s); break;
        case 2: {
            other = edited(g, s);
            ts.reset(new xmm::TrainingSet(*other));
            if (g.coin()) {
                other->clear();
                other.reset();
            }
            break;
        }
        case 3: {
            Json::Value root;
            Json::Reader rd;
            PBT_CHECK("json", rd.parse(jsonText(edited(g, s)->toJson()), root), "unreadable");
            ts.reset(new xmm::TrainingSet(Mem::OwnMemory, s.bi ? Mod::Bimodal : Mod::Unimodal));
            ts->fromJson(root);
            break;
        }
        case 4:
        case 5:
            ts = bare(s, Mem::OwnMemory);
            for (auto &q : s.ph) {
                auto p = std::make_shared<xmm::Phrase>(Mem::OwnMemory, s.bi ? Mod::Bimodal : Mod::Unimodal);
                p->dimension.set(s.D);
                if (s.bi) p->dimension_input.set(s.DI);
                p->label.set(q.label);
                if (kind == 5 && g.coin()) {
                    ts->addPhrase(q.index, p);
                    recordApart(*p, q, s, g);
                } else {
                    recordApart(*p, q, s, g);
                    if (kind == 4) ts->addPhrase(q.index, *p);
                    else ts->addPhrase(q.index, p);
                }
            }
            break;
        default: {
            ts = makeTS(s);
            AnyModel first(genSetup(g, s));
            first.train(ts.get());
        }
    }
    std::string before = jsonText(ts->toJson());
    AnyModel m(u);
    m.train(ts.get());
    PBT_CHECK("same-model", m.text() == want, "another model than from the recorded set\n", m.text(), "\n", want);
    PBT_CHECK("set-unchanged", jsonText(ts->toJson()) == before, "training changed the set");
    PBT_CHECK("set-unchanged", h.unchanged(), "training changed the host's arrays");
    // the set is not needed any more
    ts.reset();
    other.reset();
    h.mem.clear();
    ObsStream obs(s);
    for (size_t n = 0; g.more(n, 6, 3); ++n) {
        auto x = obs.next(g);
        m.filter(x);
        ref.filter(x);
        PBT_CHECK("same-results", m.results() == ref.results(), "results\n", m.results(), "\n", ref.results());
    }
    // one class at a time
    if (g.chance(1, 3)) {
        AnyModel one(u);
        auto t2 = edited(g, s);
        auto order = s.labels;
        if (g.coin()) std::reverse(order.begin(), order.end());
        for (auto &l : order) one.train(t2.get(), l);
        for (auto &l : s.labels) PBT_CHECK("one-class", one.cls(l) == ref.cls(l), "class '", l, "' trained from the set alone differs");
    }
    if (s.bi || s.labels.size() > 1) g.nontrivial();
}

PBT_FACET(units, 6000, 80000, "2 or more classes or components, scaled by 8 or more") {
    SetOpts so;
    so.maxClasses = 3;
    so.minLen = 6;
    so.maxLen = 18;
    so.maxD = 3;
    so.sep = 2;
    SetSpec s = genSet(g, so);
    if (s.scale < 1) return;  // the matrix inversion has an absolute threshold of 1e-9
    Setup u = genSetup(g, s);
    if (g.chance(1, 3)) {
        u.def.diag = true;
        for (auto &c : u.per) c.second.diag = true;
    }
    // densities on the library's floor (1e-180) do not scale: no covariance gets so small that a frame of the class comes near it
    auto clear = [&](ClassCfg &c, const std::string &l) {
        double sum = 0;
        for (unsigned d = 0; d < s.D; ++d) {
            double lo = 1e300, hi = -1e300;
            for (auto *q : s.of(l))
                for (auto &f : q->fr) lo = std::min(lo, static_cast<double>(f[d])), hi = std::max(hi, static_cast<double>(f[d]));
            if (hi > lo) sum += (hi - lo) * (hi - lo);
        }
        c.abs = std::max(c.abs, sum / 600);
    };
    for (auto &l : s.labels) {
        clear(u.def, l);
        if (u.per.count(l)) clear(u.per.at(l), l);
    }
    bool diag = u.def.diag;
    for (auto &c : u.per) diag = diag && c.second.diag;
    int k = diag ? g.integer(-18, 16) : g.integer(-8, 10);
    u.pct = 1e-9;  // the log-likelihood is shifted by a constant, so that its percent change means something else
    u.maxIt = u.minIt;
    noteSet(g, s);
    g.note(setupStr(u), "scaled by 2^", k, "\n");
    SetSpec t = s;
    for (auto &p : t.ph)
        for (auto &f : p.fr)
            for (auto &v : f) v = std::ldexp(v, k);
    Setup w = u;
    // what is added to a variance is the greater of abs and rel * standard deviation
    auto scale = [&](ClassCfg &c) {
        c.abs = std::ldexp(c.abs, 2 * k);
        c.rel = std::ldexp(c.rel, k);
    };
    scale(w.def);
    for (auto &c : w.per) scale(c.second);
    AnyModel a(u), b(w);
    a.train(makeTS(s).get());
    b.train(makeTS(t).get());
    PBT_CHECK("trained", a.size() == s.labels.size() && b.size() == s.labels.size(), a.size(), " and ", b.size(), " classes");
    double f1 = std::ldexp(1., k), f2 = std::ldexp(1., 2 * k);
    auto gauss = [&](const xmm::GaussianDistribution &x, const xmm::GaussianDistribution &y, const std::string &where) {
        for (size_t d = 0; d < x.mean.size(); ++d) PBT_CLOSE("mean", y.mean[d] / f1, x.mean[d], 1e-4, 1e-4, where, " mean ", d);
        for (size_t d = 0; d < x.covariance.size(); ++d) PBT_CLOSE("covariance", y.covariance[d] / f2, x.covariance[d], 1e-3, 1e-4, where, " covariance ", d);
    };
    double cond = 1;
    for (auto &l : s.labels) {
        if (u.hmm) {
            auto &x = a.hm->models.at(l), &y = b.hm->models.at(l);
            for (size_t i = 0; i < x.states.size(); ++i)
                for (size_t c = 0; c < x.states[i].components.size(); ++c) {
                    gauss(x.states[i].components[c], y.states[i].components[c], str(l, " state ", i, " component ", c));
                    cond = std::max(cond, static_cast<double>(fromGauss(x.states[i].components[c], s.bi).condNumber()));
                }
            for (size_t i = 0; i < x.transition.size(); ++i) PBT_CLOSE("transition", y.transition[i], x.transition[i], 1e-3, 1e-4, l, " transition ", i);
        } else {
            auto &x = a.gm->models.at(l), &y = b.gm->models.at(l);
            for (size_t c = 0; c < x.components.size(); ++c) {
                gauss(x.components[c], y.components[c], str(l, " component ", c));
                PBT_CLOSE("coefficient", y.mixture_coeffs[c], x.mixture_coeffs[c], 1e-3, 1e-4, l, " component ", c);
                cond = std::max(cond, static_cast<double>(fromGauss(x.components[c], s.bi).condNumber()));
            }
        }
    }
    if (cond > 1e5) {
        g.label("ill-conditioned: results not compared");
        return;
    }
    ObsStream obs(s);
    for (size_t n = 0; g.more(n, 6, 3); ++n) {
        auto x = obs.next(g), y = x;
        for (auto &v : y) v = std::ldexp(v, k);
        a.filter(x);
        b.filter(y);
        auto cmp = [&](const auto &r, const auto &q) {
            for (size_t i = 0; i < r.smoothed_normalized_likelihoods.size(); ++i)
                PBT_CLOSE("normalized", q.smoothed_normalized_likelihoods[i], r.smoothed_normalized_likelihoods[i], 5e-3, 5e-3, "class ", i);
            double far = *std::min_element(r.instant_likelihoods.begin(), r.instant_likelihoods.end());
            if (far > 1e-60)
                for (size_t i = 0; i < r.instant_likelihoods.size(); ++i)
                    PBT_CLOSE("density", std::log(q.instant_likelihoods[i]) + k * std::log(2.) * s.inDim(), std::log(r.instant_likelihoods[i]), 1e-3, 1e-2, "class ", i);
            for (size_t d = 0; d < r.output_values.size(); ++d) PBT_CLOSE("output", q.output_values[d] / f1, r.output_values[d], 5e-3, 5e-2, "output ", d);
        };
        bool tiny = false;  // densities on the floor do not scale
        if (u.hmm) {
            for (auto v : a.hm->results.instant_likelihoods) tiny |= v < 1e-80;
            for (auto v : b.hm->results.instant_likelihoods) tiny |= v < 1e-80;
        } else {
            for (auto v : a.gm->results.instant_likelihoods) tiny |= v < 1e-80;
            for (auto v : b.gm->results.instant_likelihoods) tiny |= v < 1e-80;
        }
        if (tiny) {
            g.label("far observation: stopped");
            break;
        }
        if (a.likeliest() != b.likeliest()) {
            g.label("other likeliest class: stopped");
            break;
        }
        if (u.hmm) cmp(a.hm->results, b.hm->results);
        else cmp(a.gm->results, b.gm->results);
    }
    if ((s.labels.size() > 1 || u.def.gaussians > 1) && (k >= 3 || k <= -3)) g.nontrivial();
}
