// C30: objects used in different threads at once answer as when each is used alone, and any number of threads can read
// the same set or model that none is changing.
// FLAVOURS: asan tsan
#include "anymodel.hpp"
#include "xmmMatrix.hpp"
#include <atomic>
#include <sstream>
#include <thread>

namespace {
// What one thread does is decided before (a Script) and plays without any generator; it gives back all it saw.
struct Script {
    int kind = 0;
    SetSpec s;
    Setup u;
    std::vector<std::vector<float>> frames;
    std::vector<unsigned> ops;
    unsigned reps = 1;
};
const char *kinds[] = {"model", "k-means", "distribution", "set", "documents", "small objects"};

struct Count {
    std::atomic<int> n{0};
    void on(xmm::TrainingEvent &e) { n += e.status == xmm::TrainingEvent::Status::Done ? 1000 : 1; }
    void attr(xmm::AttributeBase *a) {
        ++n;
        a->changed = false;
    }
};
void filterAll(AnyModel &m, const Script &k, std::string &o) {
    m.reset();
    for (auto &x : k.frames) {
        m.filter(x);
        o += m.results();
    }
}
void listen(AnyModel &m, Count &c) {
    if (m.hm) m.hm->training_events.addListener(&c, &Count::on);
    else m.gm->training_events.addListener(&c, &Count::on);
}
std::string putf(const std::vector<float> &v) {
    std::string o;
    putv(o, "", v);
    return o;
}
std::string statistics(const xmm::TrainingSet &t) {
    std::string o = putf(t.mean()) + putf(t.standardDeviation());
    for (auto &p : t.minmax()) put(o, p.first), put(o, p.second);
    return o;
}
void playModel(const Script &k, std::string &o) {
    auto ts = makeTS(k.s);
    Count c;  // outlives the model, whose last event can come after training() is false
    AnyModel m(k.u);
    listen(m, c);
    m.train(ts.get());
    while (m.training()) std::this_thread::yield();
    o += m.text();
    filterAll(m, k, o);
    for (unsigned op : k.ops) {
        if (op % 5 == 0) {
            AnyModel d = m.copy();
            filterAll(d, k, o);
        } else if (op % 5 == 1) {
            AnyModel d(k.u.hmm, k.u.bi);
            d.fromJson(m.json());
            filterAll(d, k, o);
        } else if (op % 5 == 2) {
            m.train(ts.get(), k.s.labels[op / 5 % k.s.labels.size()]);
            while (m.training()) std::this_thread::yield();
            filterAll(m, k, o);
        } else if (op % 5 == 3) {
            AnyModel d(k.u.hmm, k.u.bi);
            d.assign(m);
            d.removeClass(k.s.labels[op / 5 % k.s.labels.size()]);
            if (d.size()) filterAll(d, k, o);
        } else {
            for (auto &x : k.frames) m.filter(x);
            o += m.results();
        }
    }
    if (k.u.threads != Threads::Background) o += str("events ", c.n.load());
}
void playKMeans(const Script &k, std::string &o) {
    auto ts = makeTS(k.s);
    xmm::KMeans m(k.u.def.states);
    m.initialization_mode = xmm::KMeans::InitializationMode::Biased;
    m.train(ts.get());
    o += jsonText(m.toJson());
    xmm::KMeans c(m);
    for (auto &p : k.s.ph)
        for (auto &f : p.fr) {
            c.filter(f);
            o += putf(c.results.distances) + str(c.results.likeliest);
        }
}
void playGauss(const Script &k, std::string &o) {
    const SetSpec &s = k.s;
    xmm::GaussianDistribution d(s.bi, s.D, s.DI, k.u.def.diag ? Cov::Diagonal : Cov::Full);
    for (unsigned i = 0; i < s.D; ++i) d.mean[i] = static_cast<double>(s.ph[0].fr[0][i]);
    if (!k.u.def.diag)
        for (unsigned i = 0; i < s.D; ++i)
            for (unsigned j = 0; j < s.D; ++j) d.covariance[i * s.D + j] = 0.1 * k.u.def.abs;
    d.regularize(std::vector<double>(s.D, k.u.def.abs));
    d.updateInverseCovariance();
    for (auto &p : s.ph)
        for (auto &f : p.fr) {
            put(o, d.likelihood(f.data()));
            if (s.bi) {
                std::vector<float> y;
                put(o, d.likelihood_input(f.data()));
                put(o, d.likelihood_bimodal(f.data(), f.data() + s.DI));
                d.regression(f, y);
                o += putf(y);
            }
        }
    for (unsigned op : k.ops) {
        if (op % 3 == 0) d.covariance_mode.set(op % 2 ? Cov::Full : Cov::Diagonal);
        else if (op % 3 == 1) {
            auto e = d.toEllipse(0, s.D - 1);
            for (double v : {e.x, e.y, e.width, e.height, e.angle}) put(o, v);
        } else {
            xmm::GaussianDistribution c(d);
            d = c;
        }
        put(o, d.likelihood(s.ph[0].fr[1].data()));
        o += jsonText(d.toJson());
    }
}
void playSet(const Script &k, std::string &o) {
    auto ts = makeTS(k.s);
    o += statistics(*ts);
    for (unsigned op : k.ops) {
        auto &p = k.s.ph[op / 6 % k.s.ph.size()];
        switch (op % 6) {
            case 0: {
                xmm::TrainingSet c(*ts);
                c.removePhrase(p.index);
                o += jsonText(c.toJson());
                break;
            }
            case 1: {
                xmm::TrainingSet c;
                c.fromJson(ts->toJson());
                o += statistics(c);
                break;
            }
            case 2: ts->addPhrase(500 + static_cast<int>(op % 7), p.label); break;
            case 3:
                if (ts->getPhrase(p.index)) ts->getPhrase(p.index)->label.set("other");
                break;
            case 4: ts->rescale(std::vector<float>(k.s.D, 0.5f), std::vector<float>(k.s.D, 2.f)); break;
            default: {
                xmm::Phrase q;
                if (auto r = ts->getPhrase(p.index)) {
                    q = *r;
                    o += putf(q.mean());
                    ts->addPhrase(800, q);
                }
            }
        }
        for (auto &l : ts->labels()) o += l + str(" ", ts->getPhrasesOfClass(l)->size(), " ");
    }
    ts->normalize();
    o += jsonText(ts->toJson());
}
void playDocuments(const Script &k, std::string &o) {
    Json::Value v;
    auto ts = makeTS(k.s);
    v["set"] = ts->toJson();
    for (unsigned op : k.ops) {
        v[str("n", op % 9)].append(static_cast<double>(op) / 7.);
        v[str("t", op % 3)] = std::string("a\tb\xc3\xa9 \"") + str(op);
    }
    Json::StyledWriter styled;
    Json::FastWriter fast;
    Json::StreamWriterBuilder b;
    std::ostringstream os;
    os << v;
    std::string texts[] = {styled.write(v), fast.write(v), Json::writeString(b, v), os.str()};
    for (unsigned op : k.ops) {  // nested more and less deeply than the library allows
        static const unsigned depths[] = {300, 900, 999, 1000, 1001, 1100};
        unsigned d = depths[op % 6];
        Json::Value w;
        Json::Reader r;
        try {
            o += str(r.parse(std::string(d, '[') + std::string(d, ']'), w));
        } catch (const std::exception &e) {
            o += e.what();
        }
    }
    for (auto &t : texts) {
        o += t;
        Json::Value w;
        Json::Reader r;
        o += str(r.parse(t, w), v == w);
        Json::Reader bad;
        o += str(bad.parse(t.substr(0, t.size() / 2), w)) + bad.getFormattedErrorMessages().substr(0, 200);
        std::istringstream is(t);
        Json::Value z;
        std::string errs;
        Json::CharReaderBuilder rb;
        o += str(Json::parseFromStream(rb, is, &z, &errs), z == v);
    }
}
void playSmall(const Script &k, std::string &o) {
    xmm::Attribute<unsigned int> a(3, 0, 50);
    Count c;
    a.onAttributeChange(&c, &Count::attr);
    xmm::CircularBuffer<double> b(3);
    xmm::Matrix<double> m(2u, 2u);
    for (unsigned i = 0; i < 4; ++i) m._data[i] = i % 3 ? 0.5 : 2 + i;
    unsigned n = 0;
    for (unsigned op : k.ops) {
        try {
            a.set(op);
        } catch (const std::exception &e) {
            o += e.what();
        }
        b.push(op);
        if (op % 5 == 0) b.resize(1 + op % 4);
        put(o, b.mean()[0]);
        m._data[0] += 0.25 * (op % 8);
        double det;
        std::unique_ptr<xmm::Matrix<double>> q(m.pinv(&det)), p(m.product(q.get()));
        put(o, det);
        for (unsigned i = 0; i < 4; ++i) put(o, p->_data[i]);
        o += str(a.get(), " ", c.n.load(), " ", b.size_t(), " ", n++);
    }
}
std::string play(const Script &k) {
    std::string o;
    for (unsigned r = 0; r < k.reps; ++r) {
        switch (k.kind) {
            case 0: playModel(k, o); break;
            case 1: playKMeans(k, o); break;
            case 2: playGauss(k, o); break;
            case 3: playSet(k, o); break;
            case 4: playDocuments(k, o); break;
            default: playSmall(k, o);
        }
    }
    return o;
}
SetOpts small() {
    SetOpts o;
    o.maxClasses = 3;
    o.maxPhrases = 2;
    o.minLen = 8;
    o.maxLen = 12;
    o.maxD = 3;
    return o;
}
Script genScript(Gen &g, int kind) {
    Script k;
    k.kind = kind;
    k.s = genSet(g, small());
    k.u = genSetup(g, k.s);
    k.u.minIt = static_cast<unsigned>(g.integer(1, 4));
    k.u.maxIt = 0;
    k.u.threads = g.oneof({Threads::Sequential, Threads::Sequential, Threads::Parallel, Threads::Background});
    ObsStream obs(k.s);
    for (size_t n = 0; g.more(n, 6, 3); ++n) k.frames.push_back(obs.next(g));
    for (size_t n = 0; g.more(n, 8, 3); ++n) k.ops.push_back(static_cast<unsigned>(g.raw(120)));
    k.reps = static_cast<unsigned>(g.integer(1, 4));
    return k;
}
// what each of the functions gives when they run at the same time
std::vector<std::string> atOnce(const std::vector<std::function<std::string()>> &fs) {
    std::vector<std::string> r(fs.size());
    std::atomic<size_t> ready{0};
    std::vector<std::thread> th;
    for (size_t i = 0; i < fs.size(); ++i)
        th.emplace_back([&, i] {
            ++ready;
            while (ready < fs.size()) {
            }
            try {
                r[i] = fs[i]();
            } catch (const std::exception &e) {
                r[i] = std::string("exception: ") + e.what();
            }
        });
    for (auto &t : th) t.join();
    return r;
}
void compare(const std::string &a, const std::string &b, const char *tag, const std::string &what) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t f = i < 40 ? 0 : i - 40;
    PBT_CHECK(tag, a == b, what, " gives '", b.substr(f, 120), "' and alone '", a.substr(f, 120), "'");
}
std::string alone(const std::function<std::string()> &f) {
    try {
        return f();
    } catch (const std::exception &e) {
        return std::string("exception: ") + e.what();
    }
}
}  // namespace

PBT_FACET(independent, 700, 10000, "two threads or more use models [racy]") {
    size_t T = static_cast<size_t>(g.integer(2, 4));
    std::vector<Script> ks;
    int models = 0;
    bool twins = g.chance(1, 3);
    for (size_t i = 0; i < T; ++i) {
        if (i && twins && g.coin()) ks.push_back(ks[0]);
        else ks.push_back(genScript(g, g.coin() ? 0 : g.integer(0, 5)));
        models += ks.back().kind == 0;
        g.note("thread ", i, ": ", kinds[ks.back().kind], " x", ks.back().reps, " ", ks.back().ops.size(), " operations, ", ks.back().frames.size(), " frames\n");
        if (ks.back().kind == 0) g.note(setupStr(ks.back().u));
        noteSet(g, ks.back().s);
    }
    std::vector<std::function<std::string()>> fs;
    std::vector<std::string> want;
    for (auto &k : ks) {
        fs.push_back([&k] { return play(k); });
        want.push_back(alone(fs.back()));
    }
    auto got = atOnce(fs);
    for (size_t i = 0; i < T; ++i) compare(want[i], got[i], "independent", str("thread ", i, " (", kinds[ks[i].kind], ")"));
    if (models >= 2) g.nontrivial();
    for (auto &k : ks) g.label(kinds[k.kind]);
}

PBT_FACET(shared, 600, 10000, "2 threads or more read the same set and model [racy]") {
    SetSpec s = genSet(g, small());
    Setup u = genSetup(g, s);
    u.minIt = u.maxIt = 2;
    noteSet(g, s);
    g.note(setupStr(u));
    auto ts = makeTS(s);
    AnyModel m(u);
    m.train(ts.get());
    if (!m.size()) throw pbt::Discard{"no class could be trained"};
    if (g.coin()) m.filter(std::vector<float>(s.inDim(), 0.25f));
    const xmm::TrainingSet &cts = *ts;
    const AnyModel &cm = m;
    std::string before = cm.text() + jsonText(cts.toJson());
    size_t T = static_cast<size_t>(g.integer(2, 4));
    std::vector<std::vector<int>> ops(T);
    std::vector<Script> ks;
    for (size_t i = 0; i < T; ++i) {
        for (size_t n = 0; n == 0 || g.more(n, 8, 4); ++n) ops[i].push_back(g.integer(0, 8));
        Script k = genScript(g, 0);
        k.s = s;
        k.u = genSetup(g, s);
        k.u.bi = s.bi;
        k.u.minIt = k.u.maxIt = 1;
        k.frames.clear();
        ObsStream obs(s);
        for (int n = 0; n < 2; ++n) k.frames.push_back(obs.next(g));
        ks.push_back(k);
        g.note("thread ", i, ":");
        for (int x : ops[i]) g.note(" ", x);
        g.note("\n");
    }
    std::vector<std::function<std::string()>> fs;
    std::vector<std::string> want;
    for (size_t i = 0; i < T; ++i) {
        fs.push_back([&, i] {
            std::string o;
            const Script &k = ks[i];
            for (int op : ops[i]) switch (op) {
                    case 0: {  // its own copy of the model
                        AnyModel c = cm.copy();
                        filterAll(c, k, o);
                        break;
                    }
                    case 1: o += cm.text(); break;
                    case 2:
                        for (auto &l : s.labels) o += cm.with([&](const auto &x) { return str(x.hasClass(l), x.getIndex(l), x.size(), x.trained(), x.training()); });
                        break;
                    case 3: {  // trains a model of its own from the set
                        AnyModel c(k.u);
                        c.train(ts.get());
                        while (c.training()) std::this_thread::yield();
                        filterAll(c, k, o);
                        break;
                    }
                    case 4: o += statistics(cts); break;
                    case 5: {
                        xmm::TrainingSet c(cts);
                        c.normalize();
                        o += jsonText(c.toJson());
                        break;
                    }
                    case 6:
                        o += jsonText(cts.toJson());
                        for (auto it = cts.cbegin(); it != cts.cend(); ++it) {
                            xmm::Phrase p(*it->second);
                            o += str(it->first, p.label.get(), p.size());
                            put(o, static_cast<double>(it->second->getValue(0, s.D - 1)));
                            o += putf(it->second->standardDeviation());
                        }
                        break;
                    case 7: {
                        std::vector<float> x(s.D, 0.5f);
                        auto one = [&](const xmm::SingleClassGMM &c) {
                            for (auto &q : c.components) {
                                put(o, q.likelihood(x.data()));
                                if (s.bi) {
                                    std::vector<float> y;
                                    q.regression(x, y);
                                    o += putf(y);
                                }
                            }
                        };
                        if (cm.gm)
                            for (auto &c : cm.gm->models) one(c.second);
                        else
                            for (auto &c : cm.hm->models)
                                for (auto &q : c.second.states) one(q);
                        break;
                    }
                    default: {
                        AnyModel c(u.hmm, u.bi);
                        c.assign(cm);
                        c.removeClass(s.labels[0]);
                        o += c.text();
                        xmm::KMeans km(2);
                        km.initialization_mode = xmm::KMeans::InitializationMode::Biased;
                        km.train(ts.get());
                        o += jsonText(km.toJson());
                    }
                }
            return o;
        });
        want.push_back(alone(fs.back()));
    }
    PBT_CHECK("reading", before == cm.text() + jsonText(cts.toJson()), "reading changed the set or the model");
    auto got = atOnce(fs);
    for (size_t i = 0; i < T; ++i) compare(want[i], got[i], "shared", str("thread ", i));
    PBT_CHECK("reading", before == cm.text() + jsonText(cts.toJson()), "reading at once changed the set or the model");
    g.nontrivial();
    g.label(u.hmm ? "HMM" : "GMM");
}
