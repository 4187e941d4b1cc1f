// C03: a training set's labels, class subsets and phrases stay consistent over any editing history.
#include "common.hpp"

namespace {
struct Slot {  // a phrase object and its model
    std::shared_ptr<xmm::Phrase> ph;
    std::shared_ptr<PhraseModel> m;
};
struct SetM {
    std::shared_ptr<xmm::TrainingSet> ts;
    bool bi = false;
    unsigned D = 1, DI = 0;
    std::vector<std::string> cols;
    std::map<int, Slot> S;
};
const std::vector<std::string> LABELS = {"a", "b", "c", "", "x y"};

void verify(SetM &s, const char *when) {
    auto &ts = *s.ts;
    PBT_CHECK("size", ts.size() == s.S.size() && ts.empty() == s.S.empty(), when, " size ", ts.size(), " expected ", s.S.size());
    PBT_CHECK("dimension", ts.dimension.get() == s.D && (!s.bi || ts.dimension_input.get() == s.DI), when, " ", ts.dimension.get(), "/",
              ts.dimension_input.get(), " expected ", s.D, "/", s.DI);
    PBT_CHECK("column-names", ts.column_names.get() == s.cols, when);
    std::set<std::string> labels;
    for (auto &p : s.S) labels.insert(p.second.m->label);
    PBT_CHECK("labels", ts.labels() == labels, when, " labels() has ", ts.labels().size(), " entries, expected ", labels.size());
    auto it = ts.begin();
    for (auto &p : s.S) {
        PBT_CHECK("iteration", it != ts.end() && it->first == p.first && it->second == p.second.ph, when, " at index ", p.first);
        ++it;
        PBT_CHECK("get-phrase", ts.getPhrase(p.first) == p.second.ph, when, " index ", p.first);
        checkPhrase(*p.second.ph, *p.second.m, false, when);
    }
    PBT_CHECK("iteration", it == ts.end(), when);
    for (int i = -2; i < 8; ++i)
        if (!s.S.count(i)) PBT_CHECK("get-phrase-absent", ts.getPhrase(i) == nullptr, when, " index ", i);
    for (auto &l : LABELS) {
        xmm::TrainingSet *sub = nullptr;
        try {
            sub = ts.getPhrasesOfClass(l);
        } catch (const std::out_of_range &) {
        }
        if (!labels.count(l)) {
            PBT_CHECK("absent-class", sub == nullptr, when, " class '", l, "' should not exist");
            continue;
        }
        PBT_CHECK("class-subset", sub != nullptr, when, " class '", l, "' missing");
        PBT_CHECK("class-subset-dimension", sub->dimension.get() == s.D && (!s.bi || sub->dimension_input.get() == s.DI) && sub->bimodal() == s.bi, when,
                  " class '", l, "': ", sub->dimension.get(), "/", sub->dimension_input.get(), " expected ", s.D, "/", s.DI);
        PBT_CHECK("class-subset-columns", sub->column_names.get() == s.cols, when, " class '", l, "'");
        unsigned n = 0;
        for (auto &p : s.S)
            if (p.second.m->label == l) {
                ++n;
                PBT_CHECK("class-subset-phrase", sub->getPhrase(p.first) == p.second.ph, when, " class '", l, "' index ", p.first);
            }
        PBT_CHECK("class-subset-size", sub->size() == n, when, " class '", l, "' holds ", sub->size(), " expected ", n);
    }
}
SetM deepCopyModel(const SetM &s, std::shared_ptr<xmm::TrainingSet> ts) {
    SetM c;
    c.ts = ts;
    c.bi = s.bi;
    c.D = s.D;
    c.DI = s.DI;
    c.cols = s.cols;
    for (auto &p : s.S) {
        PBT_CHECK("copy-has-phrase", ts->getPhrase(p.first) != nullptr, "index ", p.first);
        PBT_CHECK("copy-independent", ts->getPhrase(p.first) != p.second.ph, "the copy shares phrase ", p.first, " with its source");
        c.S[p.first] = Slot{ts->getPhrase(p.first), std::make_shared<PhraseModel>(*p.second.m)};
    }
    return c;
}
}  // namespace

PBT_FACET(history, 18000, 250000, "at least 5 edits, with two or more classes present at some point and one removal, relabelling or copy") {
    bool bi = g.coin();
    std::vector<SetM> sets;
    std::vector<Slot> external;  // phrases the user keeps a pointer to
    auto newSet = [&] {
        SetM s;
        s.bi = bi;
        s.ts = std::make_shared<xmm::TrainingSet>(xmm::MemoryMode::OwnMemory, bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
        s.D = bi ? 2 : 1;
        s.DI = bi ? 1 : 0;
        s.cols.resize(s.D);
        return s;
    };
    sets.push_back(newSet());
    auto mk = [&](const SetM &s) {  // a standalone phrase compatible with set s
        Slot p;
        p.ph = std::make_shared<xmm::Phrase>(xmm::MemoryMode::OwnMemory, bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
        p.m = std::make_shared<PhraseModel>();
        p.m->bimodal = bi;
        p.m->D = s.D;
        p.m->DI = s.DI;
        p.ph->dimension.set(s.D);
        if (bi) p.ph->dimension_input.set(s.DI);
        p.m->label = g.pick(LABELS);
        p.ph->label.set(p.m->label);
        return p;
    };
    auto rec = [&](Slot &p, unsigned n, unsigned seed) {
        if (bi && p.m->in.size() != p.m->out.size()) return;
        for (unsigned i = 0; i < n; ++i) {
            auto r = drow(seed, i, p.m->D);
            p.ph->record(r);
            if (bi) {
                p.m->in.emplace_back(r.begin(), r.begin() + p.m->DI);
                p.m->out.emplace_back(r.begin() + p.m->DI, r.end());
            } else
                p.m->in.push_back(r);
        }
    };
    // indices are any integers
    const std::vector<int> idxs = g.chance(1, 4) ? std::vector<int>{std::numeric_limits<int>::min(), -7, -1, 3, 70000, std::numeric_limits<int>::max()} : std::vector<int>{0, 1, 2, 3, 4, 5};
    int ops = 0;
    bool multi = false, special = false;
    while (g.more(static_cast<size_t>(ops), 40, 16)) {
        ++ops;
        size_t si = g.raw(sets.size() - 1);
        SetM &s = sets[si];
        int idx = idxs[static_cast<size_t>(g.integer(0, 5))];
        int op = g.integer(0, 18);
        switch (op) {
            case 0:
            case 1:
            case 2: {
                auto l = g.pick(LABELS);
                g.note("set", si, ".addPhrase(", idx, ", '", l, "')\n");
                s.ts->addPhrase(idx, l);
                Slot p;
                p.ph = s.ts->getPhrase(idx);
                PBT_CHECK("added", p.ph != nullptr);
                p.m = std::make_shared<PhraseModel>();
                p.m->bimodal = bi;
                p.m->D = s.D;
                p.m->DI = s.DI;
                p.m->label = l;
                PBT_CHECK("added-columns", p.ph->column_names == s.cols, "new phrase's column names");
                s.S[idx] = p;
                rec(s.S[idx], static_cast<unsigned>(upto(g, 0, 4, 280, 60)), static_cast<unsigned>(g.raw(99)));
                break;
            }
            case 3:
            case 4: {  // by value: the set holds a copy
                Slot p = mk(s);
                rec(p, static_cast<unsigned>(upto(g, 0, 4, 280, 60)), static_cast<unsigned>(g.raw(99)));
                g.note("set", si, ".addPhrase(", idx, ", copy of phrase '", p.m->label, "')\n");
                s.ts->addPhrase(idx, *p.ph);
                PBT_CHECK("added-copy", s.ts->getPhrase(idx) && s.ts->getPhrase(idx) != p.ph);
                s.S[idx] = Slot{s.ts->getPhrase(idx), std::make_shared<PhraseModel>(*p.m)};
                if (g.coin()) external.push_back(p);  // later edits of the original must not show
                break;
            }
            case 5:
            case 6: {  // shared pointer
                Slot p;
                bool reuse = !external.empty() && g.coin();
                if (reuse) {
                    p = external[g.raw(external.size() - 1)];
                    if (p.m->D != s.D || p.m->DI != s.DI) break;
                } else
                    p = mk(s);
                if (!reuse) rec(p, static_cast<unsigned>(upto(g, 0, 4, 280, 60)), static_cast<unsigned>(g.raw(99)));
                g.note("set", si, ".addPhrase(", idx, ", shared phrase '", p.m->label, "')\n");
                g.label("shared phrase");
                s.ts->addPhrase(idx, p.ph);
                s.S[idx] = p;
                external.push_back(p);
                break;
            }
            case 7:
                if (s.S.count(idx)) {
                    g.note("set", si, " record in ", idx, "\n");
                    rec(s.S[idx], static_cast<unsigned>(g.integer(1, 5)), static_cast<unsigned>(g.raw(99)));
                }
                break;
            case 8:
            case 9:
                if (s.S.count(idx)) {
                    auto l = g.pick(LABELS);
                    g.note("set", si, " phrase ", idx, " label '", l, "'\n");
                    if (s.ts->labels().count(l)) s.S[idx].ph->label.set(*s.ts->labels().find(l));
                    else s.S[idx].ph->label.set(l);
                    s.S[idx].m->label = l;
                    special = true;
                }
                break;
            case 10:
                if (!external.empty()) {
                    Slot &p = external[g.raw(external.size() - 1)];
                    auto l = g.pick(LABELS);
                    g.note("external phrase label '", l, "'\n");
                    p.ph->label.set(l);
                    p.m->label = l;
                    special = true;
                }
                break;
            case 11:
            case 12:
                g.note("set", si, ".removePhrase(", idx, ")\n");
                try {
                    s.ts->removePhrase(idx);
                } catch (const std::out_of_range &) {
                    PBT_CHECK("remove-existing", !s.S.count(idx), "removePhrase of an existing phrase threw");
                }
                if (s.S.count(idx)) {
                    if (g.coin()) external.push_back(s.S[idx]);
                    special = true;
                }
                s.S.erase(idx);
                break;
            case 13: {
                auto l = g.pick(LABELS);
                g.note("set", si, ".removePhrasesOfClass('", l, "')\n");
                bool had = false;
                for (auto &p : s.S) had = had || p.second.m->label == l;
                // the argument may be the set's own string
                bool own = had && g.coin();
                if (own) g.label("class removed by the set's own label");
                const std::string &ref = own ? *s.ts->labels().find(l) : l;
                try {
                    s.ts->removePhrasesOfClass(ref);
                } catch (const std::out_of_range &) {
                    PBT_CHECK("remove-existing", !had, "removePhrasesOfClass of an existing class threw");
                }
                for (auto it = s.S.begin(); it != s.S.end();)
                    if (it->second.m->label == l) it = s.S.erase(it);
                    else ++it;
                special = special || had;
                break;
            }
            case 14:
                if (g.chance(1, 3)) {
                    g.note("set", si, ".clear()\n");
                    s.ts->clear();
                    s.S.clear();
                }
                break;
            case 15: {
                // a phrase held by several sets would get the dimension of only one of them: not a supported use
                bool sharedAcross = false;
                for (auto &p : s.S)
                    for (size_t o = 0; o < sets.size(); ++o)
                        if (o != si)
                            for (auto &q : sets[o].S) sharedAcross = sharedAcross || q.second.ph == p.second.ph;
                if (sharedAcross) break;
                if (g.coin()) {
                    unsigned D = static_cast<unsigned>(g.integer(bi ? 2 : 1, 5));
                    if (D == s.D) break;
                    g.note("set", si, ".dimension = ", D, "\n");
                    s.ts->dimension.set(D);
                    s.D = D;
                    if (bi && s.DI > D - 1) s.DI = D - 1;
                    s.cols.resize(D);
                    g.label("dimension change");
                } else if (bi && s.D > 2) {
                    unsigned DI = static_cast<unsigned>(g.integer(1, static_cast<int>(s.D) - 1));
                    if (DI == s.DI) break;
                    g.note("set", si, ".dimension_input = ", DI, "\n");
                    s.ts->dimension_input.set(DI);
                    s.DI = DI;
                } else
                    break;
                for (auto &p : s.S) {
                    p.second.m->D = s.D;
                    p.second.m->DI = s.DI;
                    p.second.m->wipe();
                }
                break;
            }
            case 16: {
                std::vector<std::string> c(s.D);
                for (auto &x : c) x = g.pick(LABELS);
                g.note("set", si, ".column_names\n");
                s.ts->column_names.set(c);
                s.cols = c;
                for (auto &p : s.S) PBT_CHECK("phrase-columns", p.second.ph->column_names == c, "phrase ", p.first, " did not get the column names");
                break;
            }
            case 18:
                if (s.S.count(idx)) {  // a phrase of the set gets the contents of another one: of the set, standalone, or empty
                    Slot src;
                    if (g.chance(1, 3)) {
                        auto it = s.S.begin();
                        std::advance(it, static_cast<long>(g.raw(s.S.size() - 1)));
                        src = it->second;
                    } else {
                        src = mk(s);
                        src.ph->column_names = s.cols;
                        rec(src, static_cast<unsigned>(upto(g, 0, 4, 280, 60)), static_cast<unsigned>(g.raw(99)));
                    }
                    Slot &dst = s.S[idx];
                    g.note("set", si, " phrase ", idx, src.ph == dst.ph ? " = itself" : " = phrase", " '", src.m->label, "' of ", src.m->in.size(), "\n");
                    bool json = g.chance(1, 3);
                    if (json) dst.ph->fromJson(src.ph->toJson());
                    else *dst.ph = *src.ph;
                    g.label(json ? "phrase read in place" : "phrase assigned");
                    PhraseModel copy = *src.m;
                    *dst.m = copy;
                    special = true;
                }
                break;
            case 17: {
                special = true;
                if (g.chance(1, 4) && sets.size() > 1) {
                    g.note("destroy set", si, "\n");
                    for (auto &p : s.S)
                        if (g.coin()) external.push_back(p.second);
                    sets.erase(sets.begin() + static_cast<long>(si));
                    break;
                }
                if (sets.size() >= 3) break;
                if (g.coin()) {
                    g.note("set", sets.size(), " = copy of set", si, "\n");
                    auto ts = std::make_shared<xmm::TrainingSet>(*s.ts);
                    SetM c = deepCopyModel(s, ts);
                    sets.push_back(c);
                } else {
                    size_t o = g.raw(sets.size() - 1);
                    if (o == si) {
                        sets.push_back(newSet());
                        g.note("new set", sets.size() - 1, "\n");
                        break;
                    }
                    g.note("set", o, " = set", si, "\n");
                    *sets[o].ts = *s.ts;
                    sets[o] = deepCopyModel(s, sets[o].ts);
                }
                g.label("copied set");
                break;
            }
        }
        for (auto &x : sets) {
            std::set<std::string> ls;
            for (auto &p : x.S) ls.insert(p.second.m->label);
            multi = multi || ls.size() >= 2;
            verify(x, "after a step");
        }
    }
    // phrases outlive the sets
    sets.clear();
    for (auto &p : external) {
        p.ph->label.set("after");
        p.m->label = "after";
        checkPhrase(*p.ph, *p.m, false, "after the sets were destroyed");
    }
    if (ops >= 5 && multi && special) g.nontrivial();
}
