// C18: answers are a function of configuration, training data and the frames since the last reset: nothing left
// over from earlier use, and nothing left in uninitialised memory, shows through.
#include "anymodel.hpp"
#include <cstdlib>
#include <new>

// every block this process allocates is filled with the byte in force, so that a read of memory nobody wrote
// makes two otherwise identical runs differ
static unsigned char fillByte = 0x5a;
static void *filled(size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    memset(p, fillByte, n);
    return p;
}
void *operator new(size_t n) { return filled(n); }
void *operator new[](size_t n) { return filled(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

namespace {
__attribute__((noinline, no_sanitize("address"))) void scrubStack() {
    volatile unsigned char b[1 << 15];
    for (size_t i = 0; i < sizeof b; ++i) b[i] = fillByte;
}
SetOpts smallSet() {
    SetOpts o;
    o.maxClasses = 3;
    o.maxPhrases = 2;
    o.minLen = 12;
    o.maxLen = 16;
    o.sep = 2;
    o.maxD = 3;
    return o;
}
std::vector<std::vector<float>> stream(Gen &g, const SetSpec &s, size_t maxN = 12) {
    std::vector<std::vector<float>> r;
    ObsStream obs(s);
    for (size_t n = 0; g.more(n, maxN, maxN / 2.); ++n) {
        auto x = g.chance(1, 8) ? genObs(g, s) : obs.next(g);
        r.push_back(x);
    }
    return r;
}
std::string play(AnyModel &m, const std::vector<std::vector<float>> &xs) {
    std::string o;
    for (auto &x : xs) {
        m.filter(x);
        o += m.results();
    }
    return o;
}
// first differing line, for messages
std::string diff(const std::string &a, const std::string &b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t f = i > 60 ? i - 60 : 0;
    return "\n  ..." + a.substr(f, 140) + "\n  ..." + b.substr(f, 140);
}
}  // namespace

PBT_FACET(reset, 6000, 80000, "2 or more classes, frames both before and after the reset") {
    SetSpec s = genSet(g, smallSet());
    Setup u = genSetup(g, s);
    noteSet(g, s);
    g.note(setupStr(u));
    auto ts = makeTS(s);
    AnyModel m(u);
    m.train(ts.get());
    AnyModel fresh = m.copy();
    fresh.reset();
    std::string before = m.text();
    auto a = stream(g, s), b = stream(g, s);
    bool early = g.coin();
    for (auto &x : a) g.note("before ", vstr(x), "\n");
    for (auto &x : b) g.note("after ", vstr(x), "\n");
    if (early) {  // recognition can start without a reset after training
        std::string p = play(m, a);
        AnyModel q = m.copy();
        q.reset();
        PBT_CHECK("start-after-training", p == play(q, a), diff(p, play(q, a)));
    } else {
        m.reset();
        play(m, a);
    }
    m.reset();
    if (g.chance(1, 4)) m.reset();
    std::string x = play(m, b), y = play(fresh, b);
    PBT_CHECK("reset", x == y, "results after a reset differ from those of a fresh copy", diff(x, y));
    fresh.reset();
    y = play(fresh, b);
    PBT_CHECK("repeatable", x == y, "the same stream gives other results", diff(x, y));
    PBT_CHECK("filter-changes-model", m.text() == before, "recognition changed the model's parameters", diff(m.text(), before));
    if (s.labels.size() > 1 && !a.empty() && !b.empty()) g.nontrivial();
    g.label(u.hmm ? (u.def.hier ? "hierarchical HMM" : "HMM") : "GMM");
}

PBT_FACET(retrain, 5000, 60000, "the earlier history trains at least once") {
    bool hmm = g.coin(), bi = g.coin();
    auto set = [&] {
        SetOpts o = smallSet();
        o.bimodal = bi;
        return genSet(g, o);
    };
    SetSpec s = set();
    Setup u = genSetup(g, s, hmm);
    AnyModel m(hmm, bi), fresh(u);
    bool trainedOnce = false;
    for (size_t n = 0; g.more(n, 6, 2.5); ++n) {
        int op = g.integer(0, 5);
        g.note("history op ", op, "\n");
        if (op <= 1 || m.size() == 0) {
            SetSpec q = set();
            Setup v = genSetup(g, q, hmm);
            noteSet(g, q);
            g.note(setupStr(v));
            auto ts = makeTS(q);
            m.setup(v);
            m.train(ts.get());
            for (auto &x : stream(g, q, 5)) m.filter(x);
            trainedOnce = true;
        } else if (op == 2) {
            m.reset();
        } else if (op == 3) {
            m.clear();
        } else if (op == 4) {
            AnyModel c = m.copy();
            m.assign(c);
        } else {
            m.fromJson(m.json());
        }
    }
    noteSet(g, s);
    g.note(setupStr(u));
    auto ts = makeTS(s), ts2 = makeTS(s);
    m.setup(u);
    m.train(ts.get());
    fresh.train(ts2.get());
    PBT_CHECK("retrain-parameters", m.text() == fresh.text(), "training depends on earlier use", diff(m.text(), fresh.text()));
    auto a = stream(g, s);
    std::string x = play(m, a), y = play(fresh, a);
    PBT_CHECK("retrain-results", x == y, "results depend on earlier use", diff(x, y));
    if (trainedOnce) g.nontrivial();
    g.label(u.hmm ? (u.def.hier ? "hierarchical HMM" : "HMM") : "GMM");
}

PBT_FACET(memory, 3000, 40000, "always: the whole life of a model under two memory fills") {
    SetSpec s = genSet(g, smallSet());
    Setup u = genSetup(g, s);
    noteSet(g, s);
    g.note(setupStr(u));
    auto a = stream(g, s), b = stream(g, s);
    std::vector<int> ops;
    for (size_t n = 0; g.more(n, 5, 2.5); ++n) ops.push_back(g.integer(0, 6));
    for (int o : ops) g.note("op ", o, "\n");
    bool early = g.coin();
    auto life = [&](unsigned char fill) {
        std::vector<std::string> o;
        fillByte = fill;
        scrubStack();
        auto ts = makeTS(s);
        AnyModel m(u);
        o.push_back(m.results());
        m.train(ts.get());
        o.push_back(m.text());
        if (!early) m.reset();
        o.push_back(play(m, a));
        for (int op : ops) {
            scrubStack();
            if (op == 0) {
                AnyModel c = m.copy();
                o.push_back(play(c, a));
                o.push_back(c.text());
            } else if (op == 1) {
                AnyModel c(u.hmm, u.bi);
                c.assign(m);
                o.push_back(play(c, a));
                m.assign(c);
            } else if (op == 2) {
                AnyModel c(u.hmm, u.bi);
                c.fromJson(m.json());
                o.push_back(c.text());
                o.push_back(play(c, a));
            } else if (op == 3) {
                m.train(ts.get(), s.labels[0]);
                m.reset();
            } else if (op == 4 && m.size() > 1) {
                m.removeClass(s.labels[0]);
                m.train(ts.get(), s.labels[0]);
                m.reset();
            } else if (op == 5) {
                m.reset();
            } else {
                m.clear();
                m.train(ts.get());
            }
            o.push_back(play(m, b));
        }
        o.push_back(jsonText(ts->toJson()));
        fillByte = 0x5a;
        return o;
    };
    auto x = life(0x00), y = life(0xcd), z = life(0x7f);
    PBT_CHECK("uninitialised", x.size() == y.size());
    for (size_t i = 0; i < x.size(); ++i) {
        PBT_CHECK("uninitialised", x[i] == y[i], "answer ", i, " depends on the previous content of memory", diff(x[i], y[i]));
        PBT_CHECK("uninitialised", x[i] == z[i], "answer ", i, " depends on the previous content of memory", diff(x[i], z[i]));
    }
    g.nontrivial();
    g.label(u.hmm ? (u.def.hier ? "hierarchical HMM" : "HMM") : "GMM");
}
