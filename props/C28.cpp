// C28: training runs the iterations its stop rule says, reports them, and isolates classes that cannot be trained.
#include "anymodel.hpp"
#include <limits>

namespace {
typedef xmm::TrainingEvent::Status Status;
struct Ev {
    std::string label;
    Status status;
    int iterations;
    double ll, progression;
};
struct Log {
    std::vector<Ev> evs;
    void on(xmm::TrainingEvent &e) { evs.push_back(Ev{e.label, e.status, static_cast<int>(e.iterations), e.log_likelihood, e.progression}); }
    std::vector<Ev> of(const std::string &l) const {
        std::vector<Ev> r;
        for (auto &e : evs)
            if (e.label == l && e.status != Status::Alldone) r.push_back(e);
        return r;
    }
};
void listen(AnyModel &m, Log &log) {
    if (m.hm) m.hm->training_events.addListener(&log, &Log::on);
    else m.gm->training_events.addListener(&log, &Log::on);
}
std::string evsStr(const std::vector<Ev> &v) {
    static const char *n[] = {"Run", "Error", "Cancel", "Done", "Alldone"};
    std::string o;
    for (auto &e : v) o += str("\n  '", e.label, "' ", n[static_cast<int>(e.status)], " iteration ", e.iterations, " ll ", e.ll, " progression ", e.progression);
    return o.substr(0, 3000);
}
struct Stop {
    unsigned min = 1, max = 0;
    double pct = 0.01;
};
Stop genStop(Gen &g) {
    Stop p;
    p.min = static_cast<unsigned>(g.integer(1, 7));
    switch (g.integer(0, 4)) {
        case 0: p.max = p.min + static_cast<unsigned>(g.integer(0, 6)); break;
        case 1: p.max = static_cast<unsigned>(g.raw(p.min - 1)); break;
        default: p.max = 0;
    }
    p.pct = g.chance(1, 8) ? 0. : g.logreal(1e-3, 20);
    return p;
}
void setStop(AnyModel &m, const Stop &p) {
    m.shared().em_algorithm_min_iterations.set(p.min);
    m.shared().em_algorithm_max_iterations.set(p.max);
    m.shared().em_algorithm_percent_chg.set(p.pct);
}
std::string stopStr(const Stop &p) { return str("min ", p.min, " max ", p.max, " pct ", p.pct); }
bool must(const Stop &p, const std::vector<double> &ll, size_t n) {  // stop after n iterations?
    if (n >= 1000) return true;
    if (p.max >= p.min) return n >= p.max;
    return n >= p.min && 100. * std::fabs((ll[n - 1] - (n > 1 ? ll[n - 2] : -std::numeric_limits<double>::max())) / ll[n - 1]) <= p.pct;
}
// the Run events of one class end as the rule says; returns the number of iterations
size_t checkRuns(const std::string &l, const std::vector<Ev> &v, const Stop &p) {
    PBT_CHECK("end", !v.empty() && v.back().status == Status::Done, "class '", l, "' does not end with Done", evsStr(v));
    size_t n = v.size() - 1;
    std::vector<double> ll;
    for (size_t i = 0; i < n; ++i) {
        PBT_CHECK("iterations", v[i].status == Status::Run && v[i].iterations == static_cast<int>(i) + 1, "class '", l, "' event ", i, evsStr(v));
        double whole = p.max > p.min ? p.max : p.min;
        PBT_CLOSE("progression", v[i].progression, (static_cast<double>(i) + 1) / whole, 1e-6, 0, "class '", l, "' event ", i, evsStr(v));
        PBT_CHECK("log-likelihood", std::isfinite(v[i].ll), "class '", l, "'", evsStr(v));
        ll.push_back(v[i].ll);
    }
    PBT_CHECK("iterations", n >= 1, "class '", l, "' is not trained");
    for (size_t k = 1; k < n; ++k)
        PBT_CHECK("stop-late", !must(p, ll, k), "class '", l, "' (", stopStr(p), ") goes on after iteration ", k, evsStr(v));
    PBT_CHECK("stop-early", must(p, ll, n), "class '", l, "' (", stopStr(p), ") stops after iteration ", n, evsStr(v));
    return n;
}
SetOpts small(int maxClasses) {
    SetOpts o;
    o.maxClasses = maxClasses;
    o.maxPhrases = 2;
    o.minLen = 8;
    o.maxLen = 16;
    o.sep = 2;
    o.maxD = 3;
    return o;
}
}  // namespace

PBT_FACET(stopping, 5000, 80000, "a class is stopped by the change of its likelihood after more than the least number of iterations") {
    SetSpec s = genSet(g, small(3));
    Setup u = genSetup(g, s);
    noteSet(g, s);
    g.note(setupStr(u));
    auto ts = makeTS(s);
    AnyModel m(u);
    Log log;
    listen(m, log);
    bool interesting = false;
    for (size_t round = 0; g.more(round, 3, 2) || round == 0; ++round) {
        Stop p = genStop(g);
        setStop(m, p);
        bool one = round > 0 && g.coin();
        std::string l1 = one ? g.pick(s.labels) : "";
        g.note(stopStr(p), one ? " train '" + l1 + "'\n" : std::string(" train all\n"));
        log.evs.clear();
        if (one) m.train(ts.get(), l1);
        else m.train(ts.get());
        PBT_CHECK("alldone", !log.evs.empty() && log.evs.back().status == Status::Alldone && log.evs.back().label.empty(), evsStr(log.evs));
        // one class after the other
        std::vector<std::string> order;
        for (auto &e : log.evs)
            if (e.status != Status::Alldone && (order.empty() || order.back() != e.label)) order.push_back(e.label);
        PBT_CHECK("classes", order == (one ? std::vector<std::string>{l1} : s.labels), "classes are not trained one after the other", evsStr(log.evs));
        for (auto &l : order) {
            auto v = log.of(l);
            size_t n = checkRuns(l, v, p);
            if (p.max < p.min && n > p.min) interesting = true;
            // what it gives is n iterations, reported as they are (the Gaussian mixtures that start the states of an HMM follow the same
            // rule, so that only those of one component, which do not depend on it, can be compared)
            if (u.hmm && (u.per.count(l) ? u.per[l] : u.def).gaussians > 1) continue;
            AnyModel r(u);
            Log rl;
            listen(r, rl);
            setStop(r, Stop{static_cast<unsigned>(n), static_cast<unsigned>(n), 0.01});
            r.train(ts.get(), l);
            PBT_CHECK("same-as-fixed", r.size() == 1 && r.cls(l) == m.cls(l), "class '", l, "' is not that of ", n, " iterations\n", r.cls(l), "\n", m.cls(l));
            auto w = rl.of(l);
            PBT_CHECK("same-as-fixed", w.size() == v.size(), "events");
            for (size_t i = 0; i < n; ++i) PBT_CHECK("same-as-fixed", w[i].ll == v[i].ll, "class '", l, "' iteration ", i + 1, " log-likelihood ", v[i].ll, " but ", w[i].ll, " with a fixed number of iterations");
        }
    }
    if (interesting) g.nontrivial();
}

PBT_FACET(failing_class, 5000, 80000, "a class of 2 or more cannot be trained") {
    SetSpec s = genSet(g, small(4));
    Setup u = genSetup(g, s);
    u.threads = g.chance(1, 4) ? Threads::Parallel : Threads::Sequential;
    g.note(setupStr(u));
    Stop p = genStop(g);
    if (p.min < 3) p.min = 3;
    if (p.max && p.max < 3) p.max = 0;
    // classes whose data is not a number somewhere, or has no frame at all
    std::map<std::string, int> bad;
    for (auto &l : s.labels)
        if (g.chance(1, 3)) bad[l] = g.integer(0, 2);
    for (auto &b : bad) {
        std::vector<PhraseSpec *> ph;
        for (auto &q : s.ph)
            if (q.label == b.first) ph.push_back(&q);
        if (b.second == 0) {
            for (auto *q : ph) q->fr.clear();
        } else {
            auto *q = g.pick(ph);
            size_t t = g.raw(q->fr.size() - 1), d = g.raw(s.D - 1);
            q->fr[t][d] = b.second == 1 ? std::numeric_limits<float>::quiet_NaN() : std::numeric_limits<float>::infinity() * (g.coin() ? 1.f : -1.f);
        }
        g.note("'", b.first, "' ", b.second == 0 ? "empty\n" : b.second == 1 ? "NaN\n" : "infinite\n");
    }
    noteSet(g, s);
    auto ts = makeTS(s);
    AnyModel m(u);
    setStop(m, p);
    if (g.chance(1, 4)) {  // trained before, when all was well
        SetSpec q = genSet(g, small(4));
        if (q.bi == s.bi) m.train(makeTS(q).get());
    }
    Log log;
    listen(m, log);
    m.train(ts.get());
    SetSpec good = s;
    good.ph.clear();
    good.labels.clear();
    for (auto &q : s.ph)
        if (!bad.count(q.label)) good.ph.push_back(q);
    for (auto &l : s.labels)
        if (!bad.count(l)) good.labels.push_back(l);
    bool odd = false;  // a class of data which are not numbers remains
    for (auto &b : bad) {
        auto v = log.of(b.first);
        PBT_CHECK("end", !v.empty() && (v.back().status == Status::Error || (b.second && v.back().status == Status::Done)), "class '", b.first, "' does not end with Error", evsStr(v));
        bool in = m.cls(b.first) != "missing";
        PBT_CHECK("removed", in == (v.back().status == Status::Done), "class '", b.first, in ? "' remains" : "' is removed");
        if (in) {
            odd = true;
            g.label("class of other than numbers is kept");
        } else
            g.label(b.second ? "class of other than numbers is removed" : "empty class is removed");
    }
    for (auto &l : good.labels) checkRuns(l, log.of(l), p);
    AnyModel r(u);
    setStop(r, p);
    if (!good.labels.empty()) r.train(makeTS(good).get());
    for (auto &l : good.labels) PBT_CHECK("same-as-without", m.cls(l) == r.cls(l), "class '", l, "' is not as without the failing ones\n", m.cls(l), "\n", r.cls(l));
    if (!odd) {
        PBT_CHECK("remaining", m.size() == good.labels.size() && !m.training() && m.trained() == !good.labels.empty(), m.size(), " classes remain");
        ObsStream obs(good.labels.empty() ? s : good);
        if (!good.labels.empty())
            for (size_t n = 0; g.more(n, 6, 3); ++n) {
                auto x = obs.next(g);
                m.filter(x);
                r.filter(x);
                PBT_CHECK("same-results", m.results() == r.results(), "results\n", m.results(), "\n", r.results());
            }
    }
    if (!bad.empty() && s.labels.size() > 1) g.nontrivial();
}
