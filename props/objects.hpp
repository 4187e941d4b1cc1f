// Every kind of object that can be written as a JSON document, behind one face: making one, using it, copying it.
#pragma once
#include "anymodel.hpp"

namespace {
typedef Json::Value J;
// --- objects ------------------------------------------------------------------------------------------------
SetOpts smallOpts() {
    SetOpts o;
    o.maxD = 3;
    o.maxPhrases = 2;
    o.maxClasses = 2;
    o.minLen = 8;
    o.maxLen = 12;
    return o;
}
template <typename F>
void tolerate(F f) {
    try {
        f();
    } catch (const std::exception &) {
    }
}
struct Target {
    virtual ~Target() {}
    virtual J json() const = 0;
    virtual xmm::Writable &face() = 0;  // the class parameters and configurations of HMMs have none
    virtual void load(const J &) = 0;
    virtual void use(Gen &) = 0;            // must not crash
    virtual Target *copy() const = 0;
    virtual std::string answers() { return ""; }  // what it answers besides its JSON form
};
inline xmm::Writable &asWritable(xmm::Writable *w) { return *w; }
inline xmm::Writable &asWritable(void *) { throw std::logic_error("not an xmm::Writable"); }
template <typename T>
struct Plain : Target {
    std::unique_ptr<T> o;
    xmm::Writable &face() { return asWritable(o.get()); }
    J json() const { return o->toJson(); }
    void load(const J &j) { o->fromJson(j); }
    void use(Gen &) {}
    Target *copy() const {
        auto *c = new Plain<T>;
        c->o.reset(new T(*o));
        return c;
    }
};
struct PhraseT : Plain<xmm::Phrase> {
    static void poke(const xmm::Phrase &p) {
        volatile float s = 0;
        for (unsigned t = 0; t < p.size() && t < 400; ++t)
            for (unsigned d = 0; d < p.dimension.get(); ++d) s = s + p.getValue(t, d);
        tolerate([&] { p.mean(); });
        tolerate([&] { p.standardDeviation(); });
        tolerate([&] { p.minmax(); });
    }
    void use(Gen &) {
        poke(*o);
        PBT_CHECK("columns", o->column_names.size() == o->dimension.get(), o->column_names.size(), " names for dimension ", o->dimension.get());
        std::vector<float> f(o->dimension.get(), 1.f);
        unsigned n = o->size();
        o->record(f);
        if (o->inputSize() == o->outputSize() || !o->bimodal()) PBT_CHECK("records", o->size() == n + 1, "size ", n, " then ", o->size());
        poke(*o);
        tolerate([&] { o->rescale(f, f); });
        tolerate([&] { o->dimension.set(o->dimension.get() + 1); });
        poke(*o);
        o->clear();
    }
    Target *copy() const {
        auto *c = new PhraseT;
        c->o.reset(new xmm::Phrase(*o));
        return c;
    }
};
struct SetT : Plain<xmm::TrainingSet> {
    void use(Gen &) {
        for (auto &p : *o) {
            PBT_CHECK("set-dimension", p.second->dimension.get() == o->dimension.get(), "phrase of dimension ", p.second->dimension.get(), " in a set of dimension ", o->dimension.get());
            PBT_CHECK("set-dimension", p.second->bimodal() == o->bimodal(), "modality of a phrase");
            if (o->bimodal()) PBT_CHECK("set-dimension", p.second->dimension_input.get() == o->dimension_input.get(), "input dimension of a phrase");
            PhraseT::poke(*p.second);
        }
        for (auto &l : o->labels()) PBT_CHECK("set-classes", o->getPhrasesOfClass(l) && o->getPhrasesOfClass(l)->size() > 0, "class '", l, "'");
        tolerate([&] { o->mean(); });
        tolerate([&] { o->standardDeviation(); });
        tolerate([&] { o->minmax(); });
        tolerate([&] { o->normalize(); });
        o->addPhrase(4000, "new");
        o->getPhrase(4000)->record(std::vector<float>(o->dimension.get(), 1.f));
        tolerate([&] {
            xmm::GMM m(o->bimodal());
            m.configuration.gaussians.set(1);
            m.configuration.multithreading = Threads::Sequential;
            m.shared_parameters->em_algorithm_min_iterations.set(1);
            m.shared_parameters->em_algorithm_max_iterations.set(1);
            if (o->dimension.get() < 12) m.train(o.get());
        });
        tolerate([&] { o->dimension.set(o->dimension.get() + 1); });
        if (!o->labels().empty()) o->removePhrasesOfClass(*o->labels().begin());
        o->clear();
    }
    Target *copy() const {
        auto *c = new SetT;
        c->o.reset(new xmm::TrainingSet(*o));
        return c;
    }
};
struct GaussT : Plain<xmm::GaussianDistribution> {
    void use(Gen &) {
        unsigned D = o->dimension.get(), DI = o->dimension_input.get();
        PBT_CHECK("gaussian-sizes", o->mean.size() == D && o->covariance.size() == (o->covariance_mode.get() == Cov::Full ? D * D : D), "mean ", o->mean.size(), " covariance ", o->covariance.size(), " D ", D);
        std::vector<float> x(D, 0.5f), in(DI, 0.5f), out(D - DI, 0.5f), y;
        tolerate([&] { o->likelihood(x.data()); });
        tolerate([&] { o->likelihood_input(in.data()); });
        tolerate([&] { o->likelihood_bimodal(in.data(), out.data()); });
        tolerate([&] { o->regression(in, y); });
        tolerate([&] { o->toEllipse(0, D - 1); });
        tolerate([&] { o->updateInverseCovariance(); });
        tolerate([&] { o->regression(in, y); });
        tolerate([&] { o->covariance_mode.set(Cov::Diagonal); });
        tolerate([&] { o->likelihood(x.data()); });
        tolerate([&] { o->covariance_mode.set(Cov::Full); });
        tolerate([&] { o->likelihood(x.data()); });
        tolerate([&] { o->dimension.set(D + 1); });
        x.push_back(0.f);
        tolerate([&] { o->likelihood(x.data()); });
    }
    Target *copy() const {
        auto *c = new GaussT;
        c->o.reset(new xmm::GaussianDistribution(*o));
        return c;
    }
};
void checkComponents(const xmm::SingleClassGMM &c, const xmm::SharedParameters &sh, const std::string &w) {
    PBT_CHECK("class-sizes", c.components.size() == c.parameters.gaussians.get() && c.mixture_coeffs.size() == c.components.size(), w, ": ", c.components.size(), " components, ", c.mixture_coeffs.size(), " weights, ", c.parameters.gaussians.get(), " gaussians");
    for (auto &k : c.components) {
        PBT_CHECK("class-dimension", k.dimension.get() == sh.dimension.get() && (!sh.bimodal.get() || k.dimension_input.get() == sh.dimension_input.get()), w, ": component of dimension ", k.dimension.get(), "/",
                  k.dimension_input.get(), " in a model of ", sh.dimension.get(), "/", sh.dimension_input.get());
        PBT_CHECK("class-covariance-mode", k.covariance_mode.get() == c.parameters.covariance_mode.get(), w, ": covariance mode of a component");
    }
}
struct ModelT : Target {
    AnyModel m;
    xmm::Writable &face() { return m.face(); }
    J json() const { return m.json(); }
    void load(const J &j) { m.fromJson(j); }
    std::vector<float> obs(unsigned n, unsigned t) const {
        std::vector<float> x(n);
        for (unsigned d = 0; d < n; ++d) x[d] = static_cast<float>(dval(5, t, d)) / 30.f;
        return x;
    }
    unsigned inDim() { return m.shared().bimodal.get() ? m.shared().dimension_input.get() : m.shared().dimension.get(); }
    void settle() {
        while (m.training()) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    std::string answers() {
        std::string s = m.text();
        if (!m.size()) return s;
        AnyModel c = m.copy();
        c.reset();
        for (unsigned t = 0; t < 3; ++t) {
            c.filter(obs(inDim(), t));
            s += c.results();
        }
        return s;
    }
    void use(Gen &g) {
        auto &sh = m.shared();
        if (m.gm)
            for (auto &k : m.gm->models) {
                checkComponents(k.second, sh, k.first);
                PBT_CHECK("class-label", k.second.label == k.first, "class '", k.first, "' says it is '", k.second.label, "'");
            }
        else
            for (auto &k : m.hm->models) {
                PBT_CHECK("class-label", k.second.label == k.first, "class '", k.first, "' says it is '", k.second.label, "'");
                PBT_CHECK("class-sizes", k.second.states.size() == k.second.parameters.states.get(), k.first, ": ", k.second.states.size(), " states");
                for (auto &q : k.second.states) {
                    checkComponents(q, sh, k.first);
                    PBT_CHECK("class-sizes", q.components.size() == k.second.parameters.gaussians.get(), k.first, ": mixture of ", q.components.size());
                }
            }
        unsigned n = inDim();
        bool ok = true;
        for (int round = 0; round < 2; ++round) {
            for (unsigned t = 0; t < 3 && ok; ++t) {
                try {
                    m.filter(obs(n, t));
                } catch (const std::exception &) {
                    ok = false;
                }
                if (ok) m.results();
            }
            if (round == 0) {
                tolerate([&] { m.reset(); });
                ok = true;
            }
        }
        if (m.hm && m.hm->size()) {
            tolerate([&] { m.hm->addExitPoint(0, 0.3f); });
            tolerate([&] { m.filter(obs(n, 1)); });
        }
        auto &l = m.hm ? m.hm->models.begin()->first : m.gm->models.begin()->first;
        if (m.size() > 1 && g.coin()) {
            std::string name = l;
            m.removeClass(name);
            tolerate([&] { m.filter(obs(n, 2)); });
        }
        if (sh.dimension.get() <= 4 && g.coin()) {
            SetSpec s;
            s.bi = sh.bimodal.get();
            s.D = sh.dimension.get();
            s.DI = s.bi ? sh.dimension_input.get() : 0;
            for (int p = 0; p < 2; ++p) {
                PhraseSpec q;
                q.index = p;
                q.label = p ? "a" : "b";
                for (unsigned t = 0; t < 12; ++t) q.fr.push_back(obs(s.D, t + 20u * static_cast<unsigned>(p)));
                s.ph.push_back(q);
            }
            auto ts = makeTS(s);
            tolerate([&] {
                sh.em_algorithm_min_iterations.set(1);
                sh.em_algorithm_max_iterations.set(1);
                m.train(ts.get());
                settle();
                m.reset();
                m.filter(obs(n, 0));
            });
            settle();
        }
        m.text();
        tolerate([&] { m.clear(); });
    }
    Target *copy() const {
        auto *c = new ModelT;
        c->m = m.copy();
        return c;
    }
};
struct KMeansT : Plain<xmm::KMeans> {
    void use(Gen &) {
        unsigned D = o->shared_parameters->dimension.get();
        PBT_CHECK("kmeans-sizes", o->centers.empty() || o->centers.size() == D * o->configuration.clusters.get(), o->centers.size(), " centers");
        tolerate([&] { o->filter(std::vector<float>(D, 0.5f)); });
        o->reset();
        tolerate([&] { o->filter(std::vector<float>(D, 0.5f)); });
        if (D <= 4) {
            SetSpec s;
            s.D = D;
            PhraseSpec q;
            q.index = 0;
            q.label = "a";
            for (unsigned t = 0; t < 12; ++t) q.fr.push_back(drow(3, t, D));
            s.ph.push_back(q);
            auto ts = makeTS(s);
            tolerate([&] { o->train(ts.get()); });
            tolerate([&] { o->filter(std::vector<float>(D, 0.5f)); });
        }
    }
    Target *copy() const {
        auto *c = new KMeansT;
        c->o.reset(new xmm::KMeans(*o));
        return c;
    }
};
template <typename M, typename C>
struct ClassT : Target {  // one class of a trained model
    std::unique_ptr<M> m;
    C &c() const { return m->models.begin()->second; }
    xmm::Writable &face() { return c(); }
    J json() const { return c().toJson(); }
    void load(const J &j) { c().fromJson(j); }
    void use(Gen &) {
        auto &sh = *m->shared_parameters;
        std::vector<float> x(sh.bimodal.get() ? sh.dimension_input.get() : sh.dimension.get(), 0.5f);
        PBT_CHECK("class-label", c().shared_parameters == m->shared_parameters, "the class lost the shared parameters of its model");
        c().reset();
        tolerate([&] { c().filter(x); c().filter(x); });
        tolerate([&] { m->reset(); m->filter(x); m->filter(x); });
    }
    Target *copy() const {
        auto *n = new ClassT<M, C>;
        n->m.reset(new M(*m));
        return n;
    }
};

const char *kindNames[] = {"Phrase", "TrainingSet", "GaussianDistribution", "SharedParameters", "ClassParameters<GMM>", "ClassParameters<HMM>", "ClassParameters<KMeans>",
                           "Configuration<GMM>", "Configuration<HMM>", "GMM", "HierarchicalHMM", "KMeans", "SingleClassGMM", "SingleClassHMM"};
template <typename T>
std::unique_ptr<Target> plain(T *o) {
    auto *p = new Plain<T>;
    p->o.reset(o);
    return std::unique_ptr<Target>(p);
}
std::unique_ptr<Target> make(Gen &g, int kind) {
    typedef std::unique_ptr<Target> P;
    SetSpec s = genSet(g, smallOpts());
    if (kind == 0) {
        auto *p = new PhraseT;
        p->o.reset(new xmm::Phrase(xmm::MemoryMode::OwnMemory, s.bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal));
        p->o->dimension.set(s.D);
        if (s.bi) p->o->dimension_input.set(s.DI);
        p->o->label.set("phrase");
        for (unsigned t = 0, n = static_cast<unsigned>(g.integer(0, 4)); t < n; ++t) p->o->record(s.ph[0].fr[t]);
        return P(p);
    }
    if (kind == 1) {
        for (auto &p : s.ph) p.fr.resize(static_cast<size_t>(g.integer(0, 3)));
        auto *t = new SetT;
        t->o = makeTS(s);
        return P(t);
    }
    if (kind == 2) {
        auto *p = new GaussT;
        p->o.reset(new xmm::GaussianDistribution(s.bi, s.D, s.DI, g.coin() ? Cov::Full : Cov::Diagonal));
        for (unsigned d = 0; d < s.D; ++d) p->o->mean[d] = g.smooth(-3, 3);
        p->o->regularize(std::vector<double>(s.D, 1.5));
        p->o->updateInverseCovariance();
        return P(p);
    }
    ClassCfg c = genCfg(g, s, 2, 3);
    c.hier = g.coin();
    if (kind == 3) {
        auto *p = new xmm::SharedParameters;
        p->bimodal.set(s.bi);
        p->dimension.set(s.D);
        if (s.bi) p->dimension_input.set(s.DI);
        return plain(p);
    }
    if (kind == 4 || kind == 5) {
        if (kind == 4) {
            auto *p = new xmm::ClassParameters<xmm::GMM>;
            setCfg(*p, c);
            return plain(p);
        }
        auto *p = new xmm::ClassParameters<xmm::HMM>;
        setCfg(*p, c);
        return plain(p);
    }
    if (kind == 6) {
        auto *p = new xmm::ClassParameters<xmm::KMeans>;
        p->clusters.set(c.states);
        return plain(p);
    }
    if (kind == 7) {
        auto *p = new xmm::Configuration<xmm::GMM>;
        setCfg(*p, c);
        if (g.coin()) setCfg((*p)["a"], c);
        return plain(p);
    }
    if (kind == 8) {
        auto *p = new xmm::Configuration<xmm::HMM>;
        setCfg(*p, c);
        if (g.coin()) setCfg((*p)["a"], c);
        return plain(p);
    }
    if (kind == 11) {
        auto *p = new KMeansT;
        p->o.reset(new xmm::KMeans(c.states));
        p->o->initialization_mode = xmm::KMeans::InitializationMode::Biased;
        auto ts = makeTS(s);
        if (!g.chance(1, 5)) p->o->train(ts.get());
        return P(p);
    }
    auto ts = makeTS(s);
    Setup u = genSetup(g, s, kind == 9 || kind == 12 ? 0 : 1);
    u.def = c;
    for (auto &p : u.per) p.second = c;
    u.minIt = u.maxIt = 1;
    if (kind == 12) {
        auto *p = new ClassT<xmm::GMM, xmm::SingleClassGMM>;
        p->m.reset(new xmm::GMM(s.bi));
        applySetup(*p->m, u);
        p->m->train(ts.get());
        return P(p);
    }
    if (kind == 13) {
        auto *p = new ClassT<xmm::HierarchicalHMM, xmm::SingleClassHMM>;
        p->m.reset(new xmm::HierarchicalHMM(s.bi));
        applySetup(*p->m, u);
        p->m->train(ts.get());
        return P(p);
    }
    auto *p = new ModelT;
    p->m = AnyModel(u);
    if (!g.chance(1, 10)) {
        p->m.train(ts.get());
        p->m.reset();
    }
    return P(p);
}
}  // namespace
