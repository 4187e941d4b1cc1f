// C33: a configuration keeps the default settings and those of each class.
#include "settings.hpp"

namespace {
// ---- configurations ---------------------------------------------------------------------------------------------
typedef std::vector<double> Vals;
template <typename P>
Vals read(P &p) {
    Vals v;
    for (auto &s : settings(p)) v.push_back(s.get());
    return v;
}
template <typename M>
struct Conf {
    std::unique_ptr<xmm::Configuration<M>> c;
    Vals def;
    std::map<std::string, Vals> per;
    Threads threads = Threads::Parallel;
    MultiEst est = MultiEst::Likeliest;
};
const std::vector<std::string> NAMES = {"a", "b", "c", "", "a b"};
template <typename M>
void check(Conf<M> &k, size_t i) {
    PBT_CHECK("defaults", read(*k.c) == k.def, "the default settings of configuration #", i, " changed");
    PBT_CHECK("modes", k.c->multithreading == k.threads && k.c->multiClass_regression_estimator == k.est, "configuration #", i);
    for (auto &l : NAMES) {
        PBT_CHECK("includes", k.c->includes(l) == (k.per.count(l) > 0), "configuration #", i, " class '", l, "'");
        if (k.per.count(l)) PBT_CHECK("class-settings", read((*k.c)[l]) == k.per[l], "configuration #", i, " class '", l, "'");
    }
}
template <typename M>
void configuration(Gen &g) {
    typedef xmm::Configuration<M> C;
    std::vector<Conf<M>> all(1);
    all[0].c.reset(new C());
    all[0].def = read(*all[0].c);
    bool inherited = false, later = false;
    auto edit = [&](Setting s, double &m, const std::string &what) {
        double v = g.pick(s.candidates);
        g.note(what, " ", s.name, " = ", v, "\n");
        bool ok = s.valid(v);
        PBT_CHECK("limits", trySet(s, v) == ok, s.name, " = ", v, ok ? " is refused" : " is accepted");
        if (ok) {
            m = s.get();
            PBT_CLOSE("value", m, v, 1e-6, 0, s.name);
        }
        return ok;
    };
    for (size_t n = 0; g.more(n, 30, 16); ++n) {
        size_t i = g.raw(all.size() - 1);
        Conf<M> &k = all[i];
        const std::string l = g.pick(NAMES);
        switch (g.integer(0, 10)) {
            case 0:
            case 1:
            case 2: {
                auto ss = settings(*k.c);
                size_t j = g.raw(ss.size() - 1);
                if (edit(ss[j], k.def[j], str("#", i, " default")) && !k.per.empty()) later = true;
                break;
            }
            case 3:
            case 4:
            case 5: {  // a class not edited before has the default settings of the moment
                bool isNew = !k.per.count(l);
                if (isNew) {
                    if (k.def != read(*std::unique_ptr<C>(new C()))) inherited = true;
                    k.per[l] = k.def;
                    g.note("#", i, " class '", l, "' is new\n");
                }
                auto &p = (*k.c)[l];
                PBT_CHECK("inherits", read(p) == k.per[l], "class '", l, "' of configuration #", i, isNew ? " does not start with the default settings" : " lost its settings");
                if (g.chance(3, 4)) {
                    p.changed = false;
                    auto ss = settings(p);
                    size_t j = g.raw(ss.size() - 1);
                    bool ok = edit(ss[j], k.per[l][j], str("#", i, " '", l, "'"));
                    PBT_CHECK("changed", p.changed == ok, "class '", l, "' is ", ok ? "not " : "", "marked as changed");
                }
                break;
            }
            case 6:
                g.note("#", i, " reset '", l, "'\n");
                k.c->reset(l);
                k.per.erase(l);
                break;
            case 7:
                if (!g.chance(1, 3)) break;
                g.note("#", i, " reset\n");
                k.c->reset();
                k.per.clear();
                break;
            case 8: {
                k.threads = g.oneof({Threads::Sequential, Threads::Parallel, Threads::Background});
                k.est = g.oneof({MultiEst::Likeliest, MultiEst::Mixture});
                g.note("#", i, " modes\n");
                k.c->multithreading = k.threads;
                k.c->multiClass_regression_estimator = k.est;
                break;
            }
            case 9: {
                Conf<M> q;
                g.note("copy of #", i, "\n");
                q.c.reset(new C(*k.c));
                q.def = k.def;
                q.per = k.per;
                q.threads = k.threads;
                q.est = k.est;
                if (all.size() < 3) all.push_back(std::move(q));
                else all[g.raw(all.size() - 1)] = std::move(q);
                break;
            }
            default: {
                size_t j = g.raw(all.size() - 1);
                g.note("#", i, " = #", j, "\n");
                *all[i].c = *all[j].c;
                all[i].def = all[j].def;
                all[i].per = all[j].per;
                all[i].threads = all[j].threads;
                all[i].est = all[j].est;
            }
        }
        for (size_t j = 0; j < all.size(); ++j) check(all[j], j);
    }
    if (inherited && later) g.nontrivial();
}
}  // namespace

PBT_FACET(configurations, 30000, 250000, "a class's settings started from defaults that had been changed, and the defaults changed again afterwards") {
    switch (g.integer(0, 2)) {
        case 0: return configuration<xmm::GMM>(g);
        case 1: return configuration<xmm::HMM>(g);
        default: return configuration<xmm::KMeans>(g);
    }
}
