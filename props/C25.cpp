// C25: attributes keep their limits and tell their listener; event generators call every listener once; circular
// buffers hold the last elements.
#include "common.hpp"
#include <deque>

namespace {
struct Ear {
    int calls = 0;
    xmm::AttributeBase *last = nullptr;
    std::function<void(xmm::AttributeBase *)> then;
    void heard(xmm::AttributeBase *a) {
        ++calls;
        last = a;
        if (then) then(a);
    }
};
template <typename T>
struct Num {
    static T value(Gen &g) { return static_cast<T>(g.chance(1, 8) ? g.oneof({std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max()}) : static_cast<T>(g.integer(std::numeric_limits<T>::is_signed ? -20 : 0, 20)) / static_cast<T>(g.oneof({1, 1, 3}))); }
    static bool limited() { return true; }
    static T lowest() { return std::numeric_limits<T>::lowest(); }
    static T highest() { return std::numeric_limits<T>::max(); }
};
template <>
struct Num<bool> {
    static bool value(Gen &g) { return g.coin(); }
    static bool limited() { return false; }
    static bool lowest() { return false; }
    static bool highest() { return true; }
};
template <>
struct Num<std::string> {
    static std::string value(Gen &g) { return genLabel(g); }
    static bool limited() { return false; }
    static std::string lowest() { return ""; }
    static std::string highest() { return ""; }
};
template <typename T>
bool within(const T &v, const T &lo, const T &hi) { return !Num<T>::limited() || (!(v < lo) && !(hi < v)); }

template <typename T>
struct Scalar {
    std::unique_ptr<xmm::Attribute<T>> a;
    T value, lo = Num<T>::lowest(), hi = Num<T>::highest();
    bool changed = false;
    int ear = -1;
};
template <typename T>
void scalars(Gen &g) {
    Ear ears[3];
    int expect[3] = {0, 0, 0};
    std::vector<Scalar<T>> as;
    bool refused = false, heard = false, copied = false;
    auto check = [&] {
        for (size_t i = 0; i < as.size(); ++i) {
            PBT_CHECK("value", as[i].a->get() == as[i].value, "attribute ", i, " has ", as[i].a->get(), " instead of ", as[i].value);
            PBT_CHECK("changed", as[i].a->changed == as[i].changed, "attribute ", i, " changed=", as[i].a->changed);
        }
        for (int i = 0; i < 3; ++i) PBT_CHECK("listener", ears[i].calls == expect[i], "listener ", i, " was called ", ears[i].calls, " times instead of ", expect[i]);
    };
    auto create = [&] {
        Scalar<T> s;
        int form = g.integer(0, 3);
        s.value = form == 0 ? T() : Num<T>::value(g);
        if (form == 3) {
            s.lo = Num<T>::value(g);
            s.hi = Num<T>::value(g);
        }
        bool ok = within(s.value, s.lo, s.hi);
        g.note("new ", s.value, " in [", s.lo, ", ", s.hi, "]\n");
        bool threw = false;
        try {
            if (form == 0) s.a.reset(new xmm::Attribute<T>());
            else if (form == 1) s.a.reset(new xmm::Attribute<T>(s.value));
            else s.a.reset(new xmm::Attribute<T>(s.value, s.lo, s.hi));
        } catch (const std::domain_error &) {
            threw = true;
        }
        PBT_CHECK("limits", threw != ok, "constructing with ", s.value, ok ? " is refused" : " is accepted");
        if (ok) as.push_back(std::move(s));
    };
    create();
    for (size_t n = 0; g.more(n, 25, 12); ++n) {
        int op = g.integer(0, 9);
        if (as.empty() || (op == 0 && as.size() < 4)) {
            create();
            continue;
        }
        auto &s = as[g.raw(as.size() - 1)];
        size_t id = static_cast<size_t>(&s - as.data());
        if (op <= 4) {
            T v = Num<T>::value(g);
            bool silent = g.chance(1, 3), ok = within(v, s.lo, s.hi), threw = false;
            g.note("attribute ", id, " = ", v, silent ? " silently\n" : "\n");
            if (s.ear >= 0)
                ears[s.ear].then = [&](xmm::AttributeBase *b) {
                    PBT_CHECK("listener-argument", b == s.a.get(), "the listener is told of another attribute");
                    PBT_CHECK("listener-value", s.a->get() == v, "the listener sees ", s.a->get(), " instead of ", v);
                };
            try {
                if (silent || g.coin()) s.a->set(v, silent);
                else s.a->set(v);
            } catch (const std::domain_error &) {
                threw = true;
            }
            PBT_CHECK("limits", threw != ok, v, ok ? " is refused" : " is accepted", " in [", s.lo, ", ", s.hi, "]");
            if (ok) {
                s.value = v;
                s.changed = true;
                if (!silent && s.ear >= 0) {
                    ++expect[s.ear];
                    heard = true;
                }
            } else {
                refused = true;
            }
        } else if (op == 5) {
            int how = g.integer(0, 4);
            T a = Num<T>::value(g), b = Num<T>::value(g);
            g.note("limits of ", id, " ", how, " ", a, " ", b, "\n");
            if (how == 0) s.a->setLimitMin(s.lo = a);
            else if (how == 1) s.a->setLimitMax(s.hi = b);
            else if (how == 2) {
                s.a->setLimits(a, b);
                s.lo = a;
                s.hi = b;
            } else if (how == 3) {
                s.lo = Num<T>::lowest();
                s.hi = Num<T>::highest();
                s.a->setLimitMin();
                s.a->setLimitMax();
            } else {
                s.a->setLimits();
                s.lo = Num<T>::lowest();
                s.hi = Num<T>::highest();
            }
        } else if (op == 6) {
            int e = g.integer(-1, 2);
            g.note("listener of ", id, " is ", e, "\n");
            s.a->onAttributeChange(e < 0 ? static_cast<Ear *>(nullptr) : &ears[e], &Ear::heard);
            s.ear = e;
        } else if (op == 7) {
            s.a->changed = false;
            s.changed = false;
        } else if (op == 8 && as.size() < 5) {
            g.note("copy of ", id, "\n");
            Scalar<T> c;
            c.a.reset(new xmm::Attribute<T>(*s.a));
            c.value = s.value;
            c.lo = s.lo;
            c.hi = s.hi;
            as.push_back(std::move(c));
            copied = true;
        } else if (op == 9) {
            auto &t = as[g.raw(as.size() - 1)];
            g.note("attribute ", &t - as.data(), " = attribute ", id, "\n");
            *t.a = *s.a;
            if (&t != &s) {
                t.value = s.value;
                t.lo = s.lo;
                t.hi = s.hi;
                t.changed = false;
            }
            copied = true;
        }
        check();
    }
    if (heard && copied && (refused || !Num<T>::limited())) g.nontrivial();
}

template <typename T>
struct Vec {
    std::unique_ptr<xmm::Attribute<std::vector<T>>> a;
    std::vector<T> value;
    T lo = Num<T>::lowest(), hi = Num<T>::highest();
    size_t size = 0;
    int ear = -1;
    bool changed = false;
};
template <typename T>
std::vector<T> values(Gen &g, int fit = -1) {
    std::vector<T> v;
    size_t n = static_cast<size_t>(fit >= 0 && !g.chance(1, 4) ? fit : g.integer(0, 4));
    for (size_t i = 0; i < n; ++i) v.push_back(Num<T>::value(g));
    return v;
}
template <typename T>
void vectors(Gen &g) {
    Ear ears[2];
    int expect[2] = {0, 0};
    std::vector<Vec<T>> as;
    bool refused = false, resized = false;
    auto all = [](const std::vector<T> &v, const T &lo, const T &hi) {
        for (auto x : v)
            if (!within<T>(x, lo, hi)) return false;
        return true;
    };
    auto create = [&] {
        Vec<T> s;
        s.value = values<T>(g);
        s.size = g.coin() ? 0 : static_cast<size_t>(g.integer(0, 4));
        if (g.coin()) {
            s.lo = Num<T>::value(g);
            s.hi = Num<T>::value(g);
        }
        bool ok = all(s.value, s.lo, s.hi) && (s.size == 0 || s.size == s.value.size()), threw = false;
        g.note("new vector of ", s.value.size(), " elements, size ", s.size, "\n");
        try {
            s.a.reset(new xmm::Attribute<std::vector<T>>(s.value, s.lo, s.hi, static_cast<unsigned>(s.size)));
        } catch (const std::domain_error &) {
            threw = true;
        }
        PBT_CHECK("limits", threw != ok, "constructing is ", threw ? "refused" : "accepted");
        if (ok) as.push_back(std::move(s));
    };
    create();
    for (size_t n = 0; g.more(n, 25, 12); ++n) {
        int op = g.integer(0, 9);
        if (as.empty() || (op == 0 && as.size() < 4)) {
            create();
            continue;
        }
        auto &s = as[g.raw(as.size() - 1)];
        size_t id = static_cast<size_t>(&s - as.data());
        if (op <= 4) {
            auto v = values<T>(g, s.size ? static_cast<int>(s.size) : -1);
            bool silent = g.chance(1, 3), ok = all(v, s.lo, s.hi) && (s.size == 0 || v.size() == s.size), threw = false;
            g.note("vector ", id, " = ", v.size(), " elements", silent ? " silently\n" : "\n");
            try {
                s.a->set(v, silent);
            } catch (const std::domain_error &) {
                threw = true;
            }
            PBT_CHECK("limits", threw != ok, "a vector of ", v.size(), " elements is ", threw ? "refused" : "accepted", " (size ", s.size, ")");
            if (ok) {
                s.value = v;
                s.changed = true;
                if (!silent && s.ear >= 0) ++expect[s.ear];
            } else refused = true;
        } else if (op == 5) {
            T a = Num<T>::value(g), b = Num<T>::value(g);
            if (g.chance(1, 4)) s.a->setLimits(), a = Num<T>::lowest(), b = Num<T>::highest();
            else s.a->setLimits(a, b);
            s.lo = a;
            s.hi = b;
            g.note("limits of vector ", id, ": ", a, " ", b, "\n");
        } else if (op == 6) {
            int e = g.integer(-1, 1);
            s.a->onAttributeChange(e < 0 ? static_cast<Ear *>(nullptr) : &ears[e], &Ear::heard);
            s.ear = e;
        } else if (op == 7) {
            s.size = static_cast<size_t>(g.integer(0, 5));
            g.note("vector ", id, " resized to ", s.size, "\n");
            s.a->resize(static_cast<unsigned>(s.size));
            s.value.resize(s.size, T());
            resized = true;
        } else if (op == 8 && as.size() < 5) {
            Vec<T> c;
            c.a.reset(new xmm::Attribute<std::vector<T>>(*s.a));
            c.value = s.value;
            c.lo = s.lo;
            c.hi = s.hi;
            c.size = s.size;
            g.note("copy of vector ", id, "\n");
            as.push_back(std::move(c));
        } else if (op == 9) {
            auto &t = as[g.raw(as.size() - 1)];
            g.note("vector ", &t - as.data(), " = vector ", id, "\n");
            *t.a = *s.a;
            if (&t != &s) {
                t.value = s.value;
                t.lo = s.lo;
                t.hi = s.hi;
                t.size = s.size;
                t.changed = false;
            }
        }
        for (size_t i = 0; i < as.size(); ++i) {
            auto &x = as[i];
            PBT_CHECK("value", x.a->get() == x.value && x.a->size() == x.value.size(), "vector ", i, " has another value");
            PBT_CHECK("changed", x.a->changed == x.changed, "vector ", i);
            for (unsigned k = 0; k < 6; ++k) {
                bool threw = false;
                T v = T();
                try {
                    v = x.a->at(k);
                } catch (const std::out_of_range &) {
                    threw = true;
                }
                PBT_CHECK("at", threw == (k >= x.value.size()), "element ", k, " of ", x.value.size(), threw ? " is refused" : " is returned");
                if (!threw) PBT_CHECK("at", v == x.value[k], "element ", k);
            }
        }
        for (int i = 0; i < 2; ++i) PBT_CHECK("listener", ears[i].calls == expect[i], "listener ", i, " was called ", ears[i].calls, " times instead of ", expect[i]);
    }
    if (refused || resized) g.nontrivial();
}
}  // namespace

PBT_FACET(attributes, 100000, 1000000, "a listener was told, an attribute copied and a value refused") {
    switch (g.integer(0, 7)) {
        case 0: scalars<unsigned>(g); break;
        case 1: scalars<int>(g); break;
        case 2: scalars<float>(g); break;
        case 3: scalars<double>(g); break;
        case 4: scalars<bool>(g); break;
        case 5: scalars<std::string>(g); break;
        case 6: scalars<long>(g); break;
        default: scalars<unsigned char>(g);
    }
}
PBT_FACET(vector_attributes, 18000, 200000, "a value was refused or the attribute resized") {
    switch (g.integer(0, 3)) {
        case 0: vectors<float>(g); break;
        case 1: vectors<int>(g); break;
        case 2: vectors<double>(g); break;
        default: vectors<std::string>(g);
    }
}

namespace {
struct Event {
    int id, heard;
};
struct Listener {
    std::vector<int> got;
    Event *last = nullptr;
    void on(Event &e) {
        got.push_back(e.id);
        ++e.heard;
        last = &e;
    }
};
}  // namespace
PBT_FACET(events, 60000, 200000, "3 or more events with 2 or more listeners in between additions and removals") {
    std::vector<Listener> ls(4);
    std::vector<std::unique_ptr<xmm::EventGenerator<Event>>> gens(1);
    gens[0].reset(new xmm::EventGenerator<Event>());
    std::vector<std::set<size_t>> in(1);
    std::vector<std::vector<int>> expect(4);
    int id = 0, busy = 0;
    for (size_t n = 0; g.more(n, 30, 15); ++n) {
        size_t k = g.raw(gens.size() - 1), l = g.raw(3);
        int op = g.integer(0, 8);
        if (op <= 2) {
            g.note("generator ", k, " adds ", l, "\n");
            gens[k]->addListener(&ls[l], &Listener::on);
            in[k].insert(l);
        } else if (op == 3) {
            g.note("generator ", k, " removes ", l, "\n");
            gens[k]->removeListener(&ls[l], &Listener::on);
            in[k].erase(l);
        } else if (op == 4 && g.chance(1, 3)) {
            gens[k]->removeListeners();
            in[k].clear();
            g.note("generator ", k, " removes all\n");
        } else if (op == 5 && gens.size() < 3) {
            gens.emplace_back(new xmm::EventGenerator<Event>(*gens[k]));
            in.push_back(std::set<size_t>(in[k]));
            g.note("copy of generator ", k, "\n");
        } else if (op == 6) {
            size_t j = g.raw(gens.size() - 1);
            *gens[j] = *gens[k];
            in[j] = std::set<size_t>(in[k]);
            g.note("generator ", j, " = generator ", k, "\n");
        } else {
            Event e{++id, 0};
            gens[k]->notifyListeners(e);
            g.note("generator ", k, " notifies\n");
            PBT_CHECK("notified", e.heard == static_cast<int>(in[k].size()), "event heard ", e.heard, " times by ", in[k].size(), " listeners");
            for (auto x : in[k]) {
                expect[x].push_back(id);
                PBT_CHECK("notified", ls[x].last == &e, "the listener gets another event");
            }
            if (in[k].size() > 1) ++busy;
        }
        for (size_t x = 0; x < 4; ++x) PBT_CHECK("notified", ls[x].got == expect[x], "listener ", x, " heard ", ls[x].got.size(), " events instead of ", expect[x].size());
    }
    if (busy >= 3) g.nontrivial();
}

namespace {
template <typename T, unsigned C>
void circular(Gen &g) {
    typedef xmm::CircularBuffer<T, C> B;
    bool large = g.chance(1, 20);
    unsigned len = static_cast<unsigned>(g.integer(1, large ? 80 : 6));
    std::unique_ptr<B> b(g.chance(1, 6) ? new B() : new B(len)), other;
    if (b->size() == 1) len = 1;
    std::deque<std::vector<T>> m;
    bool wrapped = false;
    T next = 1;
    g.note("buffer of ", len, " x ", C, "\n");
    for (size_t n = 0; g.more(n, large ? 240 : 30, large ? 120 : 15); ++n) {
        int op = g.integer(0, 9);
        if (op <= 5) {
            std::vector<T> v(C);
            for (auto &x : v) x = g.coin() ? static_cast<T>(g.real(-100, 100)) : next++;
            int how = g.integer(0, 2);
            g.note("push ", v[0], " (", how, ")\n");
            if (how == 0 && C == 1) b->push(v[0]);
            else if (how == 0) {
                PBT_CHECK("push-one", pbt::throws<std::invalid_argument>([&] { b->push(v[0]); }), "one value is accepted for ", C, " channels");
                continue;
            } else if (how == 1) b->push(v.data());
            else b->push(v);
            m.push_back(v);
            if (m.size() > len) {
                m.pop_front();
                wrapped = true;
            }
        } else if (op == 6) {
            if (g.chance(1, 3)) {
                b->clear();
                m.clear();
                g.note("clear\n");
            }
        } else if (op == 7) {
            len = static_cast<unsigned>(g.integer(1, large ? 90 : 8));
            g.note("resize ", len, "\n");
            b->resize(len);
            while (m.size() > len) m.pop_front();
        } else if (op == 8) {
            other.reset(new B(*b));
            b.swap(other);
            other->clear();
            g.note("copy\n");
        } else {
            B x(static_cast<unsigned>(g.integer(1, 4)));
            std::vector<T> v(C, T(7));
            x.push(v);
            x = *b;
            *b = x;
            g.note("assign\n");
        }
        PBT_CHECK("length", b->size() == len, "length ", b->size(), " instead of ", len);
        PBT_CHECK("count", b->size_t() == m.size(), "holds ", b->size_t(), " elements instead of ", m.size());
        for (unsigned c = 0; c < C; ++c) {
            std::vector<T> have, want;
            for (unsigned i = 0; i < m.size(); ++i) {
                have.push_back((*b)(c, i));
                want.push_back(m[i][c]);
            }
            if (m.size() < len) PBT_CHECK("content", have == want, "channel ", c, " is not in order");
            std::sort(have.begin(), have.end());
            std::sort(want.begin(), want.end());
            PBT_CHECK("content", have == want, "channel ", c, " holds other elements");
            PBT_CHECK("bounds", pbt::throws<std::out_of_range>([&] { (*b)(c, static_cast<unsigned>(m.size())); }));
        }
        PBT_CHECK("bounds", pbt::throws<std::out_of_range>([&] { (*b)(C, 0); }));
        if (!m.empty()) {
            auto mean = b->mean();
            PBT_CHECK("mean", mean.size() == C);
            for (unsigned c = 0; c < C; ++c) {
                long double s = 0, a = 0;
                for (auto &v : m) {
                    s += v[c];
                    a += std::fabs(static_cast<double>(v[c]));
                }
                PBT_CLOSE("mean", static_cast<double>(mean[c]), static_cast<double>(s / m.size()), 1e-5, static_cast<double>(a) * 1e-6, "channel ", c);
            }
        }
    }
    if (wrapped) g.nontrivial();
}
}  // namespace
PBT_FACET(circular_buffers, 18000, 200000, "the buffer wrapped around") {
    switch (g.integer(0, 3)) {
        case 0: circular<double, 1>(g); break;
        case 1: circular<float, 1>(g); break;
        case 2: circular<float, 2>(g); break;
        default: circular<double, 3>(g);
    }
}
