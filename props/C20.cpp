// C20: training gives the same models and events in every multithreading mode and under every schedule, and
// cancelling is safe.
// FLAVOURS: asan tsan
#include "anymodel.hpp"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>

namespace {
typedef xmm::TrainingEvent::Status Status;
struct Ev {
    std::string label;
    Status status;
    int iterations;
    double ll;
    float progression;
    bool rightModel;
};
std::string evStr(const Ev &e) {
    static const char *n[] = {"Run", "Error", "Cancel", "Done", "Alldone"};
    return str("'", e.label, "' ", n[static_cast<int>(e.status)], " iteration ", e.iterations, " ll ", e.ll, " progression ", e.progression);
}
bool same(const Ev &a, const Ev &b) {
    return a.label == b.label && a.status == b.status && a.iterations == b.iterations && (a.ll == b.ll || (std::isnan(a.ll) && std::isnan(b.ll))) && a.progression == b.progression;
}
struct Log {
    std::mutex m;
    std::condition_variable cv;
    std::vector<Ev> evs;
    std::atomic<int> inside{0};
    std::atomic<bool> overlap{false};
    void *model = nullptr;
    unsigned jitter = 0;  // perturbs the schedule
    void on(xmm::TrainingEvent &e) {
        if (++inside > 1) overlap = true;
        unsigned h = 0;
        {
            std::lock_guard<std::mutex> l(m);
            evs.push_back(Ev{e.label, e.status, static_cast<int>(e.iterations), e.log_likelihood, e.progression, e.model == model});
            h = jitter ? (jitter ^ static_cast<unsigned>(evs.size()) * 2654435761u) * 2246822519u : 0;
            cv.notify_all();
        }
        h >>= 16;
        if (jitter && h % 8 == 0) std::this_thread::sleep_for(std::chrono::microseconds(h % 700));
        --inside;
    }
    bool waitFor(std::function<bool(const std::vector<Ev> &)> f, int ms = 20000) {
        std::unique_lock<std::mutex> l(m);
        return cv.wait_for(l, std::chrono::milliseconds(ms), [&] { return f(evs); });
    }
    size_t count(Status s) {
        std::lock_guard<std::mutex> l(m);
        size_t n = 0;
        for (auto &e : evs) n += e.status == s;
        return n;
    }
    std::vector<Ev> all() {
        std::lock_guard<std::mutex> l(m);
        return evs;
    }
};
void listen(AnyModel &m, Log &log) {
    if (m.hm) {
        log.model = static_cast<xmm::Model<xmm::SingleClassHMM, xmm::HMM> *>(m.hm.get());
        m.hm->training_events.addListener(&log, &Log::on);
    } else {
        log.model = static_cast<xmm::Model<xmm::SingleClassGMM, xmm::GMM> *>(m.gm.get());
        m.gm->training_events.addListener(&log, &Log::on);
    }
}
SetOpts smallSet() {
    SetOpts o;
    o.maxClasses = 4;
    o.maxPhrases = 2;
    o.minLen = 8;
    o.maxLen = 14;
    o.sep = 2;
    o.maxD = 2;
    return o;
}
void waitDone(AnyModel &m, const char *what) {
    auto t0 = std::chrono::steady_clock::now();
    while (m.training()) {
        std::this_thread::sleep_for(std::chrono::microseconds(50));
        PBT_CHECK("never-finishes", std::chrono::steady_clock::now() - t0 < std::chrono::seconds(20), what, ": the model is still training after 20 s");
    }
}
std::string evsStr(const std::vector<Ev> &v) {
    std::string o;
    for (auto &e : v) o += "\n  " + evStr(e);
    return o.substr(0, 3000);
}
std::map<std::string, std::vector<Ev>> byLabel(const std::vector<Ev> &v) {
    std::map<std::string, std::vector<Ev>> r;
    for (auto &e : v)
        if (e.status != Status::Alldone) r[e.label].push_back(e);
    return r;
}
std::string play(AnyModel &m, const std::vector<std::vector<float>> &xs) {
    m.reset();
    std::string o;
    for (auto &x : xs) {
        m.filter(x);
        o += m.results();
    }
    return o;
}
// runs of training of one class: Run iterations 1, 2, .. then one end
void grammar(const std::string &l, const std::vector<Ev> &v) {
    int next = 1;
    for (auto &e : v) {
        if (e.status == Status::Run) {
            PBT_CHECK("event-order", e.iterations == next, "class '", l, "': iteration ", e.iterations, " reported where ", next, " was expected", evsStr(v));
            ++next;
        } else {
            next = 1;
        }
    }
    PBT_CHECK("event-end", !v.empty() && v.back().status != Status::Run, "class '", l, "': training ends without Done, Cancel or Error", evsStr(v));
}
std::vector<std::vector<float>> stream(Gen &g, const SetSpec &s) {
    std::vector<std::vector<float>> r;
    ObsStream obs(s);
    for (size_t n = 0; g.more(n, 6, 3); ++n) r.push_back(obs.next(g));
    return r;
}
// a model that was made in some way before it trains
AnyModel made(Gen &g, const Setup &u, const SetSpec &s) {
    int how = g.integer(0, 5);
    static const char *names[] = {"new", "new", "copied", "assigned", "read from JSON", "copied from one in use"};
    g.note("the model is ", names[how], "\n");
    AnyModel m(u);
    if (how < 2) return m;
    if (how == 2) return m.copy();
    AnyModel c(u.hmm, u.bi);
    if (how == 3) {
        if (g.coin()) {
            auto t = makeTS(s);
            AnyModel seq(u);
            seq.with([](auto &x) { x.configuration.multithreading = Threads::Sequential; return 0; });
            seq.train(t.get());
            seq.with([&](auto &x) { x.configuration.multithreading = u.threads; return 0; });
            c.assign(seq);
        } else c.assign(m);
        return c;
    }
    auto t = makeTS(s);
    m.train(t.get());
    while (m.training()) std::this_thread::yield();
    if (how == 5) return m.copy();
    c.fromJson(m.json());
    c.setup(u);
    return c;
}
struct TrainOp {
    std::string label;  // one class, or all when `one` is false
    bool one = false;
};
}  // namespace

// [racy]: the schedule is up to the machine
PBT_FACET(modes, 700, 12000, "2 or more classes trained at once [racy]") {
    SetSpec s = genSet(g, smallSet());
    Setup u = genSetup(g, s);
    u.minIt = static_cast<unsigned>(g.integer(1, 20));
    u.maxIt = g.coin() ? 0 : u.minIt + static_cast<unsigned>(g.integer(0, 5));
    noteSet(g, s);
    g.note(setupStr(u));
    std::vector<TrainOp> ops = {TrainOp{}};
    for (size_t n = 0; g.more(n, 3, 1); ++n) {
        TrainOp o;
        o.one = g.coin();
        if (o.one) o.label = g.pick(s.labels);
        ops.push_back(o);
    }
    for (auto &o : ops) g.note(o.one ? "train '" + o.label + "'\n" : std::string("train all\n"));
    auto a = stream(g, s);
    unsigned jitter = static_cast<unsigned>(g.raw(1000));
    std::string text[3], res[3];
    std::map<std::string, std::vector<Ev>> evs[3];
    const Threads modes[] = {Threads::Sequential, Threads::Parallel, Threads::Background};
    const char *names[] = {"sequential", "parallel", "background"};
    for (int k = 0; k < 3; ++k) {
        u.threads = modes[k];
        auto ts = makeTS(s);
        Log log;
        AnyModel m = made(g, u, s);
        log.jitter = jitter;
        listen(m, log);
        size_t n = 0;
        for (auto &o : ops) {
            if (o.one) m.train(ts.get(), o.label);
            else m.train(ts.get());
            if (k < 2) PBT_CHECK("finished", !m.training(), names[k], " training returned while still training");
            waitDone(m, names[k]);
            ++n;
            bool ok = log.waitFor([&](const std::vector<Ev> &v) {
                size_t c = 0;
                for (auto &e : v) c += e.status == Status::Alldone;
                return c >= n;
            });
            PBT_CHECK("alldone", ok, names[k], ": Alldone was not sent", evsStr(log.all()));
            while (log.inside) std::this_thread::yield();  // the listener returns from Alldone
            PBT_CHECK("trained", m.trained() == (m.size() > 0), names[k]);
            // each class has ended before Alldone
            auto v = log.all();
            PBT_CHECK("alldone", v.back().status == Status::Alldone && v.back().label.empty() && log.count(Status::Alldone) == n, names[k], evsStr(v));
        }
        auto v = log.all();
        for (auto &e : v) PBT_CHECK("event-model", e.rightModel, names[k], ": event of another model: ", evStr(e));
        PBT_CHECK("listener-overlap", !log.overlap, names[k], ": the listener was called by two threads at once");
        evs[k] = byLabel(v);
        for (auto &p : evs[k]) grammar(p.first, p.second);
        m.with([](auto &x) { x.configuration.multithreading = Threads::Sequential; return 0; });
        text[k] = m.text();
        res[k] = play(m, a);
        if (k) {
            PBT_CHECK("modes", text[k] == text[0], names[k], " training gives another model than sequential training");
            PBT_CHECK("modes-results", res[k] == res[0], names[k], " training gives other results than sequential training");
            PBT_CHECK("modes-events", evs[k].size() == evs[0].size(), names[k]);
            for (auto &p : evs[0]) {
                auto &q = evs[k][p.first];
                bool eq = q.size() == p.second.size();
                for (size_t i = 0; eq && i < q.size(); ++i) eq = same(q[i], p.second[i]);
                PBT_CHECK("modes-events", eq, names[k], ": class '", p.first, "' sends other events than in sequential training", evsStr(q), "\nsequential:", evsStr(p.second));
            }
        }
    }
    if (s.labels.size() > 1) g.nontrivial();
    g.label(u.hmm ? (u.def.hier ? "hierarchical HMM" : "HMM") : "GMM");
}

namespace {
// what remains after a training that was interfered with: the classes that were done, as sequential training gives them
void checkRemaining(AnyModel &m, const Setup &u, const SetSpec &s, xmm::TrainingSet *ts, Log &log, const std::set<std::string> &removed, const std::vector<std::vector<float>> &a) {
    auto by = byLabel(log.all());
    Setup v = u;
    v.threads = Threads::Sequential;
    AnyModel ref(v);
    ref.train(ts);
    std::set<std::string> have;
    for (auto &l : s.labels) {
        bool in = m.cls(l) != "missing";
        if (in) have.insert(l);
        auto &evs = by[l];
        if (evs.empty()) {
            PBT_CHECK("remaining", !in, "class '", l, "' is in the model but sent no event");
            continue;
        }
        grammar(l, evs);
        if (removed.count(l)) continue;
        PBT_CHECK("remaining", in == (evs.back().status == Status::Done), "class '", l, "' ended with ", evStr(evs.back()), in ? " and is in the model" : " and is not in the model", evsStr(evs));
    }
    PBT_CHECK("remaining", have.size() == m.size(), "the model has classes which are not in the training set");
    for (auto &l : s.labels)
        if (!have.count(l) && ref.cls(l) != "missing") ref.removeClass(l);
    for (auto &l : have) PBT_CHECK("remaining-class", m.cls(l) == ref.cls(l), "class '", l, "' is not as sequential training gives it\n", m.cls(l), "\n", ref.cls(l));
    if (!have.empty()) PBT_CHECK("remaining-results", play(m, a) == play(ref, a), "the remaining classes do not answer as after sequential training");
    // and the model can be trained again
    m.train(ts);
    waitDone(m, "training again");
    ref.train(ts);
    PBT_CHECK("train-again", m.size() == s.labels.size(), "training again leaves ", m.size(), " of ", s.labels.size(), " classes");
    PBT_CHECK("train-again-results", play(m, a) == play(ref, a), "training again gives other results");
}
}  // namespace

PBT_FACET(background, 900, 15000, "an operation met the model while it was training [racy]") {
    SetSpec s = genSet(g, smallSet());
    Setup u = genSetup(g, s);
    u.minIt = u.maxIt = static_cast<unsigned>(g.oneof({1, 3, 20, 100, 300}));
    u.threads = Threads::Background;
    noteSet(g, s);
    g.note(setupStr(u));
    auto a = stream(g, s);
    auto ts = makeTS(s);
    Log log;
    AnyModel m = made(g, u, s);
    log.jitter = static_cast<unsigned>(g.raw(1000));
    listen(m, log);
    if (g.chance(1, 3)) {
        g.note("trained before\n");
        m.train(ts.get());
        waitDone(m, "first");
    }
    size_t starts = 1, met = 0;
    std::set<std::string> removed;
    std::map<std::string, size_t> begun;  // trainings of each class
    size_t first = log.all().size();
    auto ended = [&](const std::string &l, const char *after) {
        auto v = log.all();
        size_t n = 0;
        for (size_t i = first; i < v.size(); ++i) n += v[i].label == l && v[i].status != Status::Run && v[i].status != Status::Alldone;
        PBT_CHECK("ended", n == begun[l], after, " returned, class '", l, "' was trained ", begun[l], " times and ended ", n, " times", evsStr(v));
    };
    m.train(ts.get());
    for (auto &l : s.labels) ++begun[l];
    for (size_t n = 0; g.more(n, 6, 3); ++n) {
        int wait = g.integer(0, 3);
        if (wait == 1) {
            size_t k = log.all().size() + static_cast<size_t>(g.integer(1, 30));
            log.waitFor([&](const std::vector<Ev> &v) { return v.size() >= k; }, 20);
        } else if (wait == 2) {
            std::this_thread::sleep_for(std::chrono::microseconds(g.integer(1, 3000)));
        } else if (wait == 3) {
            std::this_thread::yield();
        }
        int op = g.integer(0, 8);
        bool before = m.training();
        if (before) ++met;
        if (op <= 1) {
            g.note("cancel all\n");
            m.with([&](auto &x) { x.cancelTraining(); return 0; });
            PBT_CHECK("cancelled", !m.training(), "still training after cancelTraining");
            for (auto &l : s.labels) ended(l, "cancelTraining");
        } else if (op <= 3) {
            std::string l = g.chance(1, 8) ? "absent" : g.pick(s.labels);
            g.note("cancel '", l, "'\n");
            m.with([&](auto &x) { x.cancelTraining(l); return 0; });
            ended(l, "cancelTraining");
        } else if (op == 4) {
            g.note("train all\n");
            m.train(ts.get());
            for (auto &l : s.labels) ++begun[l];
            removed.clear();
            ++starts;
        } else if (op == 5) {
            std::string l = g.pick(s.labels);
            g.note("train '", l, "'\n");
            m.train(ts.get(), l);
            ++begun[l];
            removed.erase(l);
            ++starts;
        } else if (op == 6) {
            std::string l = g.pick(s.labels);
            g.note("remove '", l, "'\n");
            try {
                m.removeClass(l);
            } catch (const std::out_of_range &) {
            }
            ended(l, "removeClass");
            removed.insert(l);
        } else if (op == 7) {
            int what = g.integer(0, 5);
            static const char *names[] = {"filter", "reset", "hasClass", "getIndex", "copy", "assign"};
            g.note(names[what], "\n");
            bool threw = false;
            try {
                if (what == 0) {
                    if (before) m.filter(std::vector<float>(s.inDim(), 0.5f));
                } else if (what == 1) m.reset();
                else if (what == 2) m.with([&](auto &x) { return x.hasClass(s.labels[0]); });
                else if (what == 3) m.with([&](auto &x) { return x.getIndex(s.labels[0]); });
                else if (what == 4) {
                    AnyModel c = m.copy();
                } else {
                    AnyModel c(u.hmm, u.bi);
                    c.assign(m);
                }
            } catch (const std::runtime_error &) {
                threw = true;
            }
            if (before && m.training()) PBT_CHECK("refused", threw, names[what], " is accepted while the model is training");
            if (!before) PBT_CHECK("refused", !threw, names[what], " is refused although the model is not training");
        } else {
            g.note("wait\n");
            waitDone(m, "wait");
        }
    }
    int end = g.integer(0, 3);
    if (end == 0) {
        g.note("destroyed\n");
        AnyModel gone = std::move(m);
    } else {
        if (end == 1) {
            g.note("clear\n");
            m.clear();
            PBT_CHECK("cleared", m.size() == 0 && !m.training());
        }
        waitDone(m, "end");
        for (auto &l : s.labels) ended(l, "waiting");
        bool ok = log.waitFor([&](const std::vector<Ev> &v) { return v.back().status == Status::Alldone; });
        PBT_CHECK("alldone", ok, "the last event is not Alldone", evsStr(log.all()));
        PBT_CHECK("alldone", log.count(Status::Alldone) <= starts + 1, "Alldone sent ", log.count(Status::Alldone), " times for ", starts, " trainings");
        if (end == 1) {
            m.train(ts.get());
            waitDone(m, "after clear");
            removed.clear();
        }
        checkRemaining(m, u, s, ts.get(), log, removed, a);
    }
    if (met) g.nontrivial();
    g.label(u.hmm ? (u.def.hier ? "hierarchical HMM" : "HMM") : "GMM");
    g.label(str(met ? "met training" : "after training"));
}

PBT_FACET(cancel_blocking, 600, 10000, "a class was cancelled [racy]") {
    SetSpec s = genSet(g, smallSet());
    Setup u = genSetup(g, s);
    u.minIt = u.maxIt = static_cast<unsigned>(g.oneof({1, 20, 100, 300}));
    u.threads = g.coin() ? Threads::Sequential : Threads::Parallel;
    noteSet(g, s);
    g.note(setupStr(u));
    auto a = stream(g, s);
    auto ts = makeTS(s);
    Log log;
    AnyModel m = made(g, u, s);
    log.jitter = static_cast<unsigned>(g.raw(1000));
    listen(m, log);
    size_t after = static_cast<size_t>(g.integer(0, 60));
    bool all = g.coin();
    std::string l = g.pick(s.labels);
    g.note("cancel ", all ? "all" : "'" + l + "'", " after ", after, " events\n");
    std::atomic<bool> finished{false};
    std::vector<Ev> atReturn;
    bool underway = false;
    std::thread other([&] {
        log.waitFor([&](const std::vector<Ev> &v) { return v.size() >= after || finished; }, 300);
        underway = !log.all().empty();
        m.with([&](auto &x) {
            if (all) x.cancelTraining();
            else x.cancelTraining(l);
            return 0;
        });
        atReturn = log.all();
    });
    m.train(ts.get());
    finished = true;
    log.cv.notify_all();
    other.join();
    PBT_CHECK("finished", !m.training(), "training after a cancelled blocking training");
    auto v = log.all();
    PBT_CHECK("alldone", v.back().status == Status::Alldone && log.count(Status::Alldone) == 1, evsStr(v));
    if (!all)
        for (auto &e : v) PBT_CHECK("cancelled-other", e.status != Status::Cancel || e.label == l, "class '", e.label, "' was cancelled instead of '", l, "'");
    if (underway)
        for (auto &k : s.labels)
            if (all || k == l) {
                bool e = false;
                for (auto &x : atReturn) e |= x.label == k && x.status != Status::Run;
                PBT_CHECK("ended", e, "cancelTraining returned while class '", k, "' was training", evsStr(atReturn));
            }
    if (log.count(Status::Cancel)) g.nontrivial();
    checkRemaining(m, u, s, ts.get(), log, {}, a);
}
