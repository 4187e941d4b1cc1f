// C21: after any history of class management a model holds exactly the classes trained and not removed, each as if
// it had been trained alone, and recognises accordingly.
#include "anymodel.hpp"

namespace {
SetOpts smallSet() {
    SetOpts o;
    o.maxClasses = 4;
    o.maxPhrases = 2;
    o.minLen = 8;
    o.maxLen = 14;
    o.sep = 2;
    o.maxD = 3;
    return o;
}
std::string diff(const std::string &a, const std::string &b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t f = i > 60 ? i - 60 : 0;
    return "\n  ..." + a.substr(f, 160) + "\n  ..." + b.substr(f, 160);
}
struct ClassRec {
    ClassCfg cfg;
    unsigned minIt, maxIt;
    double pct;
    size_t set;
};
struct World {
    Setup cur;
    std::vector<SetSpec> sets;
    std::vector<std::unique_ptr<xmm::TrainingSet>> ts;
    std::map<std::string, ClassRec> classes;
    unsigned D = 0, DI = 0;
    void trained(size_t k, const std::string &l) {
        auto p = cur.per.find(l);
        classes[l] = ClassRec{p == cur.per.end() ? cur.def : p->second, cur.minIt, cur.maxIt, cur.pct, k};
        D = sets[k].D;
        DI = sets[k].DI;
    }
    // the same classes in a new model
    AnyModel reference() const {
        AnyModel r(cur.hmm, cur.bi);
        for (auto &c : classes) {
            Setup v = cur;
            v.threads = Threads::Sequential;
            v.per.clear();
            v.def = c.second.cfg;
            v.minIt = c.second.minIt;
            v.maxIt = c.second.maxIt;
            v.pct = c.second.pct;
            r.setup(v);
            r.train(ts[c.second.set].get(), c.first);
        }
        r.setup(cur);
        r.reset();
        return r;
    }
};
std::string play(AnyModel &m, const std::vector<std::vector<float>> &xs) {
    std::string o;
    for (auto &x : xs) {
        m.filter(x);
        o += m.results();
    }
    return o;
}
size_t resultSizes(const AnyModel &m) {
    return m.with([](auto &x) {
        size_t a = x.results.instant_likelihoods.size();
        return x.results.smoothed_likelihoods.size() == a && x.results.instant_normalized_likelihoods.size() == a && x.results.smoothed_normalized_likelihoods.size() == a && x.results.smoothed_log_likelihoods.size() == a ? a : 9999;
    });
}
SetSpec smallest(const World &w) {  // states and components must suit the phrases of every set
    SetSpec s = w.sets[0];
    for (auto &x : w.sets) s.big = s.big && x.big;
    return s;
}
void edit(Gen &g, World &w, AnyModel &m, const std::string &scope) {
    ClassCfg c = genCfg(g, smallest(w), w.cur.hmm ? 2 : 3, 4);
    c.hier = w.cur.def.hier;
    if (scope.empty()) {
        w.cur.def = c;
        m.with([&](auto &x) { setCfg(x.configuration, c); return 0; });
    } else {
        w.cur.per[scope] = c;
        m.with([&](auto &x) { setCfg(x.configuration[scope], c); return 0; });
    }
}
}  // namespace

PBT_FACET(histories, 3000, 60000, "2 or more of: class trained alone, class removed, training refused, configuration changed between trainings") {
    World w;
    SetOpts o = smallSet();
    w.sets.push_back(genSet(g, o));
    o.bimodal = w.sets[0].bi;
    for (size_t n = 0; n < 2 && g.coin(); ++n) {
        SetSpec s = genSet(g, o);
        if (g.coin() && s.bi == w.sets[0].bi) {  // mostly of the same dimensions
            for (int tries = 0; tries < 6 && (s.D != w.sets[0].D || s.DI != w.sets[0].DI); ++tries) s = genSet(g, o);
        }
        w.sets.push_back(s);
    }
    for (auto &s : w.sets) {
        noteSet(g, s);
        w.ts.push_back(makeTS(s));
    }
    w.cur = genSetup(g, smallest(w));
    w.cur.threads = g.coin() ? Threads::Sequential : Threads::Parallel;
    g.note(setupStr(w.cur));
    AnyModel m(w.cur);
    std::vector<std::string> pool = {"a", "b", "c", "d", "z"};
    if (g.chance(1, 4)) pool = {"", "b b", "\xc3\xa9", "0", "a\"\\"};
    int kinds = 0;
    std::set<int> seen;
    for (size_t n = 0; n == 0 || g.more(n, 14, 7); ++n) {
        int op = n == 0 ? g.integer(0, 1) : g.integer(0, 11);
        size_t k = g.raw(w.sets.size() - 1);
        auto &s = w.sets[k];
        std::string l = g.chance(1, 6) ? g.pick(pool) : g.pick(s.labels);
        std::string before = m.text();
        bool there = std::find(s.labels.begin(), s.labels.end(), l) != s.labels.end();
        if (op == 0) {
            g.note("train all of set ", k, "\n");
            m.train(w.ts[k].get());
            w.classes.clear();
            for (auto &x : s.labels) w.trained(k, x);
        } else if (op <= 3) {
            g.note("train '", l, "' of set ", k, "\n");
            bool match = w.classes.empty() || (w.D == s.D && w.DI == s.DI);
            bool oor = false, rte = false;
            try {
                m.train(w.ts[k].get(), l);
            } catch (const std::out_of_range &) {
                oor = true;
            } catch (const std::runtime_error &) {
                rte = true;
            }
            PBT_CHECK("train-absent", oor == !there, "training class '", l, "'", there ? " of the set is refused" : " which is not in the set is accepted");
            if (there) PBT_CHECK("train-dimensions", rte == !match, match ? "training is refused" : "training with other dimensions is accepted");
            if (oor || rte) {
                PBT_CHECK("refused-unchanged", m.text() == before, "a refused training changed the model", diff(m.text(), before));
                seen.insert(2);
            } else {
                w.trained(k, l);
                seen.insert(0);
            }
        } else if (op <= 5) {
            if (!w.classes.empty() && g.coin()) {
                auto it = w.classes.begin();
                std::advance(it, g.raw(w.classes.size() - 1));
                l = it->first;
            }
            g.note("remove '", l, "'\n");
            bool oor = false;
            try {
                m.removeClass(l);
            } catch (const std::out_of_range &) {
                oor = true;
            }
            PBT_CHECK("remove-absent", oor == !w.classes.count(l), "removing class '", l, "'");
            if (oor) PBT_CHECK("refused-unchanged", m.text() == before, "a refused removal changed the model");
            else seen.insert(1);
            w.classes.erase(l);
        } else if (op == 6) {
            g.note("clear\n");
            m.clear();
            w.classes.clear();
        } else if (op == 7) {
            std::string scope = g.coin() ? "" : g.pick(pool);
            edit(g, w, m, scope);
            g.note("configure '", scope, "': ", cfgStr(scope.empty() ? w.cur.def : w.cur.per[scope]), "\n");
            seen.insert(3);
        } else if (op == 8) {
            std::string scope = g.pick(pool);
            g.note("configuration of '", scope, "' reset\n");
            m.with([&](auto &x) {
                PBT_CHECK("includes", x.configuration.includes(scope) == (w.cur.per.count(scope) > 0), scope);
                x.configuration.reset(scope);
                PBT_CHECK("includes", !x.configuration.includes(scope), scope);
                return 0;
            });
            w.cur.per.erase(scope);
        } else if (op == 9) {
            w.cur.minIt = static_cast<unsigned>(g.integer(1, 4));
            w.cur.maxIt = static_cast<unsigned>(g.integer(0, 4));
            w.cur.window = static_cast<unsigned>(g.integer(1, 4));
            m.shared().em_algorithm_min_iterations.set(w.cur.minIt);
            m.shared().em_algorithm_max_iterations.set(w.cur.maxIt);
            m.shared().likelihood_window.set(w.cur.window);
            m.reset();
            g.note("iterations ", w.cur.minIt, "/", w.cur.maxIt, " window ", w.cur.window, "\n");
        } else if (op == 10) {
            g.note("copied\n");
            m = m.copy();
        } else {
            g.note("nothing trained: empty set\n");
            xmm::TrainingSet none(xmm::MemoryMode::OwnMemory, w.cur.bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
            if (g.coin()) m.train(&none);
            else m.train(nullptr);
            if (g.coin()) PBT_CHECK("train-absent", pbt::throws<std::out_of_range>([&] { m.train(&none, "a"); }));
            PBT_CHECK("empty-set", m.text() == before, "training on nothing changed the model");
        }
        // what is there
        PBT_CHECK("size", m.size() == w.classes.size(), "size ", m.size(), " but ", w.classes.size(), " classes");
        PBT_CHECK("trained", m.trained() == !w.classes.empty() && !m.training());
        std::set<std::string> ask(pool.begin(), pool.end());
        for (auto &c : w.classes) ask.insert(c.first);
        for (auto &x : ask) {
            auto it = w.classes.find(x);
            int idx = it == w.classes.end() ? -1 : static_cast<int>(std::distance(w.classes.begin(), it));
            m.with([&](auto &q) {
                PBT_CHECK("has-class", q.hasClass(x) == (idx >= 0), x);
                PBT_CHECK("index", q.getIndex(x) == idx, "index of '", x, "' is ", q.getIndex(x), " instead of ", idx);
                return 0;
            });
        }
        AnyModel ref = w.reference();
        for (auto &c : w.classes) PBT_CHECK("class", m.cls(c.first) == ref.cls(c.first), "class '", c.first, "' is not as when trained alone", diff(m.cls(c.first), ref.cls(c.first)));
        if (m.hm) {
            size_t n = m.size();
            bool ok = m.hm->prior.size() == n && m.hm->transition.size() == n && m.hm->exit_transition.size() == n;
            for (auto &r : m.hm->transition) ok = ok && r.size() == n;
            PBT_CHECK("class-transitions", ok, "transitions between classes for ", m.hm->prior.size(), ", ", m.hm->transition.size(), ", ", m.hm->exit_transition.size(), " of ", n, " classes");
        }
        if (w.classes.empty()) {
            if (op < 7) PBT_CHECK("result-sizes", resultSizes(m) == 0, "results for ", resultSizes(m), " classes of a model without classes");
            if (!w.cur.bi && g.coin()) m.filter(std::vector<float>(m.shared().dimension.get(), 0.f));
            PBT_CHECK("size", m.size() == 0);
            continue;
        }
        PBT_CHECK("dimensions", m.shared().dimension.get() == w.D && m.shared().dimension_input.get() == w.DI);
        // recognition, with or without a reset after the operation; configuration changes need one
        if (op >= 7 || g.coin()) m.reset();
        PBT_CHECK("result-sizes", resultSizes(m) == m.size(), "results for ", resultSizes(m), " classes");
        std::vector<std::vector<float>> xs;
        ObsStream obs(w.sets[w.classes.begin()->second.set]);
        for (size_t i = 0; g.more(i, 5, 3); ++i) xs.push_back(obs.next(g));
        std::string x = play(m, xs), y = play(ref, xs);
        PBT_CHECK("recognition", x == y, "the model does not recognise as one with the same classes", diff(x, y));
        m.reset();
    }
    kinds = static_cast<int>(seen.size());
    if (kinds >= 2) g.nontrivial();
    g.label(w.cur.hmm ? (w.cur.def.hier ? "hierarchical HMM" : "HMM") : "GMM");
}

// the same data under other names and other phrase numbers
PBT_FACET(renaming, 3000, 40000, "2 or more classes") {
    SetSpec s = genSet(g, smallSet());
    Setup u = genSetup(g, s);
    noteSet(g, s);
    g.note(setupStr(u));
    std::map<std::string, std::string> names;
    std::vector<std::string> fresh = {"p", "q", "r", "s", "A", "0", "long name", ""};
    for (auto &l : s.labels) {
        size_t i = g.raw(fresh.size() - 1);
        names[l] = fresh[i];
        fresh.erase(fresh.begin() + static_cast<long>(i));
        g.note("'", l, "' becomes '", names[l], "'\n");
    }
    SetSpec t = s;
    Setup v = u;
    v.per.clear();
    for (auto &p : u.per) v.per[names[p.first]] = p.second;
    for (auto &l : t.labels) l = names[l];
    std::sort(t.labels.begin(), t.labels.end());
    for (auto &p : t.ph) {
        p.label = names[p.label];
        p.index = p.index * 3 + 1;  // the order of phrases is kept
    }
    auto ts = makeTS(s), tt = makeTS(t);
    AnyModel a(u), b(v);
    bool late = g.coin();  // renamed through the phrases of the first set after training
    a.train(ts.get());
    if (late) {
        // two steps, so that names never collide on the way
        for (auto &p : s.ph) ts->getPhrase(p.index)->label.set("tmp" + p.label);
        for (auto &p : s.ph) ts->getPhrase(p.index)->label.set(names[p.label]);
        b.train(ts.get());
        g.note("renamed in place\n");
    } else {
        b.train(tt.get());
    }
    PBT_CHECK("renamed-size", a.size() == b.size());
    auto strip = [](std::string x, const std::string &l) {
        std::string k = "\"label\":" + jsonText(Json::Value(l));
        k.erase(k.find_last_not_of("\n") + 1);
        size_t p = x.find(k);
        PBT_CHECK("renamed-label", p != std::string::npos, "no label ", k, " in ", x.substr(0, 300));
        return x.erase(p, k.size());
    };
    for (auto &l : s.labels) PBT_CHECK("renamed-class", strip(a.cls(l), l) == strip(b.cls(names[l]), names[l]), "class '", l, "' trains differently as '", names[l], "'");
    ObsStream obs(s);
    a.reset();
    b.reset();
    auto get = [](AnyModel &m, const std::string &l) {
        return m.with([&](auto &x) {
            auto &r = x.models.at(l).results;
            size_t i = static_cast<size_t>(x.getIndex(l));
            std::vector<double> o = {r.instant_likelihood, r.log_likelihood, x.results.smoothed_normalized_likelihoods[i], x.results.instant_normalized_likelihoods[i]};
            o.insert(o.end(), r.output_values.begin(), r.output_values.end());
            return o;
        });
    };
    for (size_t i = 0; g.more(i, 6, 3); ++i) {
        auto x = obs.next(g);
        a.filter(x);
        b.filter(x);
        double best = -1, second = -1;
        for (auto &l : s.labels) {
            auto p = get(a, l), q = get(b, names[l]);
            // sums over classes run in another order
            for (size_t j = 0; j < p.size(); ++j) PBT_CLOSE("renamed-results", p[j], q[j], 1e-5, 1e-12, "class '", l, "' as '", names[l], "', value ", j, " frame ", i);
            if (p[2] > best) {
                second = best;
                best = p[2];
            } else second = std::max(second, p[2]);
        }
        if (best > second * 1.001 + 1e-9) PBT_CHECK("renamed-likeliest", names[a.likeliest()] == b.likeliest(), "likeliest '", a.likeliest(), "' became '", b.likeliest(), "'");
    }
    if (s.labels.size() > 1) g.nontrivial();
    g.label(u.hmm ? (u.def.hier ? "hierarchical HMM" : "HMM") : "GMM");
}
