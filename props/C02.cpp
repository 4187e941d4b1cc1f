// C02: shared-memory phrases are views on the user's arrays and never own them.
#include "common.hpp"

namespace {
struct Buf {
    std::unique_ptr<float[]> p;
    size_t n;
};
struct View {
    xmm::Phrase *ph = nullptr;
    bool own = false, bimodal = false;
    unsigned D = 1, DI = 0;
    int a = -1, b = -1;                // connected buffers (shared only)
    unsigned la = 0, lb = 0;           // connected lengths
    std::vector<std::vector<float>> in, out;  // own only
    std::string label;
};
}

PBT_FACET(views, 20000, 300000, "a phrase was connected and at least one copy/assignment/reconnect/dimension change followed") {
    std::vector<Buf> bufs;
    std::vector<std::vector<float>> shadow;  // what each user array must contain
    auto newBuf = [&](size_t n) {
        Buf b;
        b.n = n;
        b.p.reset(new float[n]);
        std::vector<float> s(n);
        for (size_t i = 0; i < n; ++i) s[i] = b.p[i] = dval(static_cast<unsigned>(bufs.size() + 1), static_cast<unsigned>(i), 3);
        bufs.push_back(std::move(b));
        shadow.push_back(s);
        return static_cast<int>(bufs.size() - 1);
    };
    std::vector<View> V;
    auto destroy = [&] {
        for (auto &v : V) delete v.ph;
        V.clear();
    };
    auto model = [&](const View &v) {
        PhraseModel m;
        m.own = v.own;
        m.bimodal = v.bimodal;
        m.D = v.D;
        m.DI = v.DI;
        m.label = v.label;
        if (v.own) {
            m.in = v.in;
            m.out = v.out;
        } else {
            unsigned ia = v.bimodal ? v.DI : v.D, ib = v.D - v.DI;
            for (unsigned t = 0; t < v.la; ++t)
                m.in.emplace_back(shadow[v.a].begin() + t * ia, shadow[v.a].begin() + (t + 1) * ia);
            for (unsigned t = 0; v.bimodal && t < v.lb; ++t)
                m.out.emplace_back(shadow[v.b].begin() + t * ib, shadow[v.b].begin() + (t + 1) * ib);
        }
        return m;
    };
    auto fresh = [&](bool own, bool bi) {
        View v;
        v.own = own;
        v.bimodal = bi;
        v.D = static_cast<unsigned>(upto(g, bi ? 2 : 1, 4, 24));
        v.DI = bi ? static_cast<unsigned>(g.integer(1, static_cast<int>(v.D) - 1)) : 0;
        v.ph = new xmm::Phrase(own ? xmm::MemoryMode::OwnMemory : xmm::MemoryMode::SharedMemory,
                               bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
        v.ph->dimension.set(v.D);
        if (bi) v.ph->dimension_input.set(v.DI);
        return v;
    };
    bool connected = false, moved = false;
    V.push_back(fresh(false, g.coin()));
    g.note("new shared phrase D=", V[0].D, " DI=", V[0].DI, "\n");
    int ops = 0;
    while (g.more(static_cast<size_t>(ops), 30, 14)) {
        ++ops;
        View &v = V[g.raw(V.size() - 1)];
        size_t vi = static_cast<size_t>(&v - &V[0]);
        switch (g.integer(0, 11)) {
            case 0:
            case 1:
            case 2: {  // connect
                unsigned L = static_cast<unsigned>(upto(g, 1, 8, 300));
                if (g.chance(1, 10)) L = 0;
                if (v.own) {
                    float x[32];
                    PBT_CHECK("connect-own-refused", pbt::throws<std::runtime_error>([&] {
                                  if (v.bimodal) v.ph->connect(x, x, 1);
                                  else v.ph->connect(x, 1);
                              }));
                    break;
                }
                unsigned ia = v.bimodal ? v.DI : v.D, ib = v.D - v.DI;
                int how = v.bimodal ? g.integer(0, 2) : 0;
                g.note("#", vi, " connect how=", how, " length ", L, "\n");
                if (how == 0) {
                    v.a = newBuf(L * ia);
                    v.la = L;
                    if (v.bimodal) {
                        v.b = newBuf(L * ib);
                        v.lb = L;
                        v.ph->connect(bufs[v.a].p.get(), bufs[v.b].p.get(), L);
                    } else
                        v.ph->connect(bufs[v.a].p.get(), L);
                } else if (how == 1) {
                    v.a = newBuf(L * ia);
                    v.la = L;
                    v.ph->connect_input(bufs[v.a].p.get(), L);
                } else {
                    v.b = newBuf(L * ib);
                    v.lb = L;
                    v.ph->connect_output(bufs[v.b].p.get(), L);
                }
                if (connected) moved = true;
                connected = true;
                break;
            }
            case 3:  // wrong-kind connection refused
                if (!v.own) {
                    float x[32];
                    PBT_CHECK("connect-kind-refused", pbt::throws<std::runtime_error>([&] {
                                  if (v.bimodal) v.ph->connect(x, 1);
                                  else v.ph->connect(x, x, 1);
                              }));
                    PBT_CHECK("record-shared-refused", pbt::throws<std::runtime_error>([&] { v.ph->record(std::vector<float>(v.D)); }));
                    PBT_CHECK("clear-shared-refused", pbt::throws<std::runtime_error>([&] { v.ph->clear(); }));
                } else
                    PBT_CHECK("disconnect-own-refused", pbt::throws<std::runtime_error>([&] { v.ph->disconnect(); }));
                break;
            case 4:  // the user writes
                if (!v.own && v.la) {
                    unsigned ia = v.bimodal ? v.DI : v.D;
                    size_t i = g.raw(v.la * ia - 1);
                    float x = static_cast<float>(g.integer(-50, 50));
                    g.note("user writes buffer ", v.a, "[", i, "]\n");
                    bufs[v.a].p[i] = x;
                    shadow[v.a][i] = x;
                }
                break;
            case 5:  // writes through the phrase reach the user's array
                if (!v.own && v.la && (!v.bimodal || v.lb)) {
                    unsigned n = v.bimodal ? std::min(v.la, v.lb) : v.la;
                    unsigned t = static_cast<unsigned>(g.raw(n - 1)), d = static_cast<unsigned>(g.raw(v.D - 1));
                    float x = static_cast<float>(g.integer(-50, 50));
                    unsigned ia = v.bimodal ? v.DI : v.D, ib = v.D - v.DI;
                    if (!v.bimodal) {
                        v.ph->getPointer(t)[d] = x;
                        shadow[v.a][t * ia + d] = x;
                    } else if (d < v.DI) {
                        v.ph->getPointer_input(t)[d] = x;
                        shadow[v.a][t * ia + d] = x;
                    } else {
                        v.ph->getPointer_output(t)[d - v.DI] = x;
                        shadow[v.b][t * ib + d - v.DI] = x;
                    }
                }
                break;
            case 6:
                if (v.own) break;
                g.note("#", vi, " disconnect\n");
                v.ph->disconnect();
                v.la = v.lb = 0;
                break;
            case 7: {  // dimension change drops the connection, never the user's memory
                unsigned D = static_cast<unsigned>(upto(g, v.bimodal ? 2 : 1, 5, 24));
                if (D == v.D) break;
                g.note("#", vi, " dimension ", v.D, " -> ", D, "\n");
                if (v.la || v.lb) moved = true, g.label("dimension change while connected");
                v.ph->dimension.set(D);
                v.D = D;
                if (v.bimodal && v.DI > D - 1) v.DI = D - 1;
                v.la = v.lb = 0;
                v.in.clear();
                v.out.clear();
                break;
            }
            case 8: {
                if (!v.bimodal || v.D < 3) break;
                unsigned DI = static_cast<unsigned>(g.integer(1, static_cast<int>(v.D) - 1));
                if (DI == v.DI) break;
                g.note("#", vi, " dimension_input ", v.DI, " -> ", DI, "\n");
                v.ph->dimension_input.set(DI);
                v.DI = DI;
                v.la = v.lb = 0;
                v.in.clear();
                v.out.clear();
                break;
            }
            case 9: {  // copy
                if (V.size() >= 5) break;
                g.note("copy of #", vi, " -> #", V.size(), "\n");
                View c = v;
                c.ph = new xmm::Phrase(*v.ph);
                if (connected) moved = true;
                g.label("copy");
                V.push_back(c);
                break;
            }
            case 10: {  // another phrase, possibly owning its memory
                if (V.size() >= 5) break;
                View c = fresh(g.coin(), g.coin());
                if (c.own && g.coin()) {
                    auto r = drow(9, 0, c.D);
                    c.ph->record(r);
                    if (c.bimodal) {
                        c.in.emplace_back(r.begin(), r.begin() + c.DI);
                        c.out.emplace_back(r.begin() + c.DI, r.end());
                    } else
                        c.in.push_back(r);
                }
                g.note("new ", c.own ? "own" : "shared", " phrase #", V.size(), " D=", c.D, " DI=", c.DI, "\n");
                V.push_back(c);
                break;
            }
            case 11: {  // assignment between any two
                View &w = V[g.raw(V.size() - 1)];
                g.note("#", static_cast<size_t>(&w - &V[0]), " = #", vi, "\n");
                if (w.own != v.own) g.label("assignment across memory modes");
                xmm::Phrase *keep = w.ph;
                *keep = *v.ph;
                if (connected) moved = true;
                View c = v;
                c.ph = keep;
                w = c;
                break;
            }
        }
        for (size_t i = 0; i < V.size(); ++i) checkPhrase(*V[i].ph, model(V[i]), true, ("phrase #" + std::to_string(i)).c_str());
    }
    // destroy some phrases first: the rest keep their view
    if (V.size() > 1 && g.coin()) {
        delete V.back().ph;
        V.pop_back();
        for (size_t i = 0; i < V.size(); ++i) checkPhrase(*V[i].ph, model(V[i]), true, "after destroying another phrase");
    }
    destroy();
    for (size_t k = 0; k < bufs.size(); ++k)
        for (size_t i = 0; i < bufs[k].n; ++i)
            PBT_CHECK("user-array-intact", bufs[k].p[i] == shadow[k][i], "user array ", k, " element ", i, " changed");
    if (connected && moved) g.nontrivial();
}

// shared-memory training sets: phrases of the set are views too
PBT_FACET(training_set, 15000, 200000, "at least one phrase of a shared training set is connected when it is copied, removed or resized") {
    bool bi = g.coin();
    unsigned D = static_cast<unsigned>(upto(g, bi ? 2 : 1, 4, 16)), DI = bi ? static_cast<unsigned>(g.integer(1, static_cast<int>(D) - 1)) : 0;
    std::vector<Buf> bufs;
    struct P { int a, b; unsigned L; };
    std::map<int, P> M;
    {
        xmm::TrainingSet ts(xmm::MemoryMode::SharedMemory, bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
        ts.dimension.set(D);
        if (bi) ts.dimension_input.set(DI);
        int ops = 0;
        auto verify = [&](const xmm::TrainingSet &x, const char *when) {
            PBT_CHECK("set-size", x.size() == M.size(), when);
            for (auto &m : M) {
                auto p = x.getPhrase(m.first);
                PBT_CHECK("set-phrase", p && !p->ownMemory() && p->size() == m.second.L, when, " phrase ", m.first);
                unsigned ia = bi ? DI : D;
                for (unsigned t = 0; t < m.second.L; ++t)
                    for (unsigned d = 0; d < D; ++d) {
                        float e = d < ia ? bufs[m.second.a].p[t * ia + d] : bufs[m.second.b].p[t * (D - DI) + d - DI];
                        PBT_CHECK("set-phrase-value", p->getValue(t, d) == e, when, " phrase ", m.first);
                    }
            }
        };
        while (g.more(static_cast<size_t>(ops), 20, 9)) {
            ++ops;
            int idx = g.integer(0, 4);
            switch (g.integer(0, 5)) {
                case 0:
                case 1:
                case 2: {
                    unsigned L = static_cast<unsigned>(upto(g, 1, 6, 300)), ia = bi ? DI : D;
                    ts.addPhrase(idx, g.coin() ? "a" : "b");
                    P p;
                    p.L = L;
                    auto mk = [&](size_t n) {
                        Buf b;
                        b.n = n;
                        b.p.reset(new float[n]);
                        for (size_t i = 0; i < n; ++i) b.p[i] = dval(static_cast<unsigned>(bufs.size()), static_cast<unsigned>(i), 1);
                        bufs.push_back(std::move(b));
                        return static_cast<int>(bufs.size() - 1);
                    };
                    p.a = mk(L * ia);
                    if (bi) {
                        p.b = mk(L * (D - DI));
                        ts.getPhrase(idx)->connect(bufs[p.a].p.get(), bufs[p.b].p.get(), L);
                    } else
                        ts.getPhrase(idx)->connect(bufs[p.a].p.get(), L);
                    M[idx] = p;
                    break;
                }
                case 3:
                    if (M.count(idx)) g.nontrivial();
                    ts.removePhrase(idx);
                    M.erase(idx);
                    break;
                case 4: {
                    if (!M.empty()) g.nontrivial();
                    xmm::TrainingSet copy(ts);
                    verify(copy, "copy");
                    xmm::TrainingSet other;
                    other = ts;
                    verify(other, "assigned");
                    break;
                }
                case 5: {
                    unsigned D2 = static_cast<unsigned>(upto(g, bi ? 2 : 1, 5, 16));
                    if (D2 == D) break;
                    if (!M.empty()) g.nontrivial(), g.label("dimension change while connected");
                    ts.dimension.set(D2);
                    D = D2;
                    if (bi && DI > D - 1) DI = D - 1;
                    for (auto &m : M) m.second.L = 0;
                    break;
                }
            }
            g.note("op\n");
            verify(ts, "set");
        }
    }
    for (size_t k = 0; k < bufs.size(); ++k)
        for (size_t i = 0; i < bufs[k].n; ++i)
            PBT_CHECK("user-array-intact", bufs[k].p[i] == dval(static_cast<unsigned>(k), static_cast<unsigned>(i), 1), "user array ", k);
}
