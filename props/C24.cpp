// C24: k-means training is Lloyd's algorithm from the documented start; filtering reports distances and the closest cluster.
#include "model.hpp"

namespace {
typedef xmm::KMeans::InitializationMode Init;
SetSpec dataSet(Gen &g, int minFirst) {
    SetOpts o;
    o.maxD = 4;
    o.minLen = 1;
    o.maxLen = 30;
    SetSpec s = genSet(g, o);
    // the first phrase holds the start of the clusters
    size_t first = 0;
    for (size_t i = 1; i < s.ph.size(); ++i)
        if (s.ph[i].index < s.ph[first].index) first = i;
    while (static_cast<int>(s.ph[first].fr.size()) < minFirst) s.ph[first].fr.push_back(drow(77, static_cast<unsigned>(s.ph[first].fr.size()), s.D));
    std::swap(s.ph[0], s.ph[first]);
    if (g.chance(1, 6) && s.ph.size() > 1) s.ph[g.integer(1, static_cast<int>(s.ph.size()) - 1)].fr.clear();
    if (g.chance(1, 8))
        for (auto &p : s.ph)
            for (auto &f : p.fr) f[0] = 2.f;  // a dimension that does not vary
    if (g.chance(1, 10))
        for (auto &p : s.ph)
            for (auto &f : p.fr)
                for (auto &v : f) v = std::floor(v);  // coinciding frames
    return s;
}
struct Lloyd {
    size_t K, D;
    std::vector<std::vector<LD>> c;
    std::vector<const std::vector<float> *> fr;
    bool ambiguous = false;
    int empty = 0;
    LD dist(const std::vector<LD> &a, const std::vector<float> &b) const {
        LD s = 0;
        for (size_t d = 0; d < D; ++d) s += (a[d] - static_cast<LD>(b[d])) * (a[d] - static_cast<LD>(b[d]));
        return sqrtl(s);
    }
    LD dist(const std::vector<LD> &a, const std::vector<LD> &b) const {
        LD s = 0;
        for (size_t d = 0; d < D; ++d) s += (a[d] - b[d]) * (a[d] - b[d]);
        return sqrtl(s);
    }
    size_t nearest(const std::vector<float> &x, LD scale, bool &amb) const {
        size_t b = 0;
        LD m = dist(c[0], x), second = -1;
        for (size_t k = 1; k < K; ++k) {
            LD d = dist(c[k], x);
            if (d < m) {
                second = m;
                m = d;
                b = k;
            } else if (second < 0 || d < second)
                second = d;
        }
        if (K > 1 && second - m < 1e-4L * scale) amb = true;
        return b;
    }
    // one update; returns the relative variation
    LD step(LD scale) {
        auto p = c;
        std::vector<std::vector<LD>> sum(K, std::vector<LD>(D, 0));
        std::vector<size_t> n(K, 0);
        for (auto *x : fr) {
            size_t k = nearest(*x, scale, ambiguous);
            ++n[k];
            for (size_t d = 0; d < D; ++d) sum[k][d] += static_cast<LD>((*x)[d]);
        }
        for (size_t k = 0; k < K; ++k) {
            if (!n[k]) ++empty;
            else
                for (size_t d = 0; d < D; ++d) c[k][d] = sum[k][d] / static_cast<LD>(n[k]);
        }
        LD mean = 0, var = 0;
        for (size_t k = 0; k < K; ++k) {
            for (size_t l = 0; l < K; ++l)
                if (l != k) mean += dist(c[k], c[l]);
            var = std::max(var, dist(p[k], c[k]));
        }
        mean /= static_cast<LD>(K * (K - 1));
        return var / static_cast<LD>(K) / mean;
    }
};
double extent(const SetSpec &s) {
    double m = 1e-3;
    for (auto &p : s.ph)
        for (auto &f : p.fr)
            for (auto v : f) m = std::max(m, std::fabs(static_cast<double>(v)));
    return m;
}
void checkFilter(Gen &g, xmm::KMeans &m, const SetSpec &s, double ext) {
    std::vector<float> centers = m.centers;
    size_t K = m.configuration.clusters.get();
    for (size_t n = 0; g.more(n, 6, 3); ++n) {
        std::vector<float> x(s.D);
        if (g.chance(1, 4)) {  // exactly on a center
            size_t k = g.raw(K - 1);
            std::copy(centers.begin() + static_cast<long>(k * s.D), centers.begin() + static_cast<long>((k + 1) * s.D), x.begin());
        } else
            for (auto &v : x) v = static_cast<float>(ext * g.smooth(-2, 2));
        if (g.chance(1, 6)) m.reset();
        m.filter(x);
        PBT_CHECK("distances", m.results.distances.size() == K, m.results.distances.size(), " distances for ", K, " clusters");
        LD best = -1;
        for (size_t k = 0; k < K; ++k) {
            LD d = 0;
            for (size_t i = 0; i < s.D; ++i) {
                LD e = static_cast<LD>(x[i]) - static_cast<LD>(centers[k * s.D + i]);
                d += e * e;
            }
            d = sqrtl(d);
            PBT_CLOSE("distances", m.results.distances[k], static_cast<double>(d), 1e-5, 1e-6 * ext, "cluster ", k, " of ", vstr(x));
            if (best < 0 || d < best) best = d;
        }
        PBT_CHECK("closest", m.results.likeliest < K, "closest cluster ", m.results.likeliest);
        PBT_CLOSE("closest", m.results.distances[m.results.likeliest], static_cast<double>(best), 1e-5, 1e-6 * ext, "closest cluster ", m.results.likeliest);
        for (size_t k = 0; k < m.results.likeliest; ++k) PBT_CHECK("closest", m.results.distances[k] > m.results.distances[m.results.likeliest], "cluster ", k, " is as close and comes first");
    }
    PBT_CHECK("filter-changes", m.centers == centers, "filtering changed the centers");
}
std::unique_ptr<xmm::KMeans> prepared(Gen &g, unsigned K) {
    std::unique_ptr<xmm::KMeans> m(new xmm::KMeans(K));
    if (g.chance(1, 3)) {  // trained before, on other data
        SetSpec q = dataSet(g, 6);
        auto t = makeTS(q);
        m->configuration.clusters.set(static_cast<unsigned>(upto(g, 1, 6, 20)));
        m->train(t.get());
        m->configuration.clusters.set(K);
        g.label("retrained");
    }
    return m;
}
}  // namespace

PBT_FACET(lloyd, 30000, 400000, "2 or more clusters, 2 or more iterations, no frame at the same distance of two clusters") {
    unsigned K = static_cast<unsigned>(upto(g, 1, 6, 20));
    SetSpec s = dataSet(g, static_cast<int>(K));
    noteSet(g, s);
    auto ts = makeTS(s);
    auto m = prepared(g, K);
    m->initialization_mode = Init::Biased;
    unsigned maxIt = static_cast<unsigned>(g.integer(1, 12));
    double thr = g.chance(1, 3) ? 1e-12 : static_cast<double>(static_cast<float>(g.logreal(1e-4, 0.3)));
    m->configuration.max_iterations.set(maxIt);
    m->configuration.relative_distance_threshold.set(static_cast<float>(thr));
    g.note("clusters ", K, " iterations ", maxIt, " threshold ", thr, "\n");
    m->train(ts.get());
    PBT_CHECK("size", m->centers.size() == K * s.D && m->shared_parameters->dimension.get() == s.D, m->centers.size(), " values");
    double ext = extent(s);
    checkFilter(g, *m, s, ext);

    Lloyd r;
    r.K = K;
    r.D = s.D;
    size_t len = s.ph[0].fr.size() / K;
    for (size_t k = 0; k < K; ++k) {
        std::vector<LD> c(s.D, 0);
        for (size_t t = k * len; t < (k + 1) * len; ++t)
            for (size_t d = 0; d < s.D; ++d) c[d] += static_cast<LD>(s.ph[0].fr[t][d]) / static_cast<LD>(len);
        r.c.push_back(c);
    }
    for (auto &p : s.ph)
        for (auto &f : p.fr) r.fr.push_back(&f);
    unsigned it = 0;
    bool margin = true;
    while (it < maxIt) {
        LD v = r.step(static_cast<LD>(ext));
        ++it;
        // single precision decides close calls differently
        if (std::fabs(static_cast<double>(v) - thr) < 1e-3 * thr + (v == 0 ? 0 : 2e-5)) margin = false;
        if (v < static_cast<LD>(thr)) break;
    }
    if (r.ambiguous || !margin) {
        g.label("ambiguous: only filtering compared");
        return;
    }
    for (size_t k = 0; k < K; ++k)
        for (size_t d = 0; d < s.D; ++d)
            PBT_CLOSE("centers", m->centers[k * s.D + d], static_cast<double>(r.c[k][d]), 1e-4, 2e-5 * ext, "center ", k, " dimension ", d, " after ", it, " iterations");
    if (r.empty) g.label("a cluster was empty");
    if (it < maxIt) g.label("converged");
    if (K > 1 && it > 1) g.nontrivial();
}

PBT_FACET(convergence, 12000, 150000, "2 or more clusters, random start") {
    unsigned K = static_cast<unsigned>(g.integer(1, 5));
    SetSpec s = dataSet(g, static_cast<int>(K));
    noteSet(g, s);
    auto ts = makeTS(s);
    auto m = prepared(g, K);
    bool rnd = !g.chance(1, 4);
    m->initialization_mode = rnd ? Init::Random : Init::Biased;
    m->configuration.max_iterations.set(400);
    m->configuration.relative_distance_threshold.set(1e-20f);
    srandom(static_cast<unsigned>(g.raw(1 << 30)));
    m->train(ts.get());
    double ext = extent(s);
    checkFilter(g, *m, s, ext);
    // converged: every center is the mean of the frames closest to it (or attracts none)
    std::vector<std::vector<LD>> sum(K, std::vector<LD>(s.D, 0));
    std::vector<size_t> n(K, 0);
    bool amb = false;
    Lloyd r;
    r.K = K;
    r.D = s.D;
    for (size_t k = 0; k < K; ++k) {
        r.c.emplace_back();
        for (size_t d = 0; d < s.D; ++d) {
            PBT_CHECK("finite", std::isfinite(m->centers[k * s.D + d]), "center ", k);
            r.c[k].push_back(static_cast<LD>(m->centers[k * s.D + d]));
        }
    }
    for (auto &p : s.ph)
        for (auto &f : p.fr) {
            size_t k = r.nearest(f, static_cast<LD>(ext), amb);
            ++n[k];
            for (size_t d = 0; d < s.D; ++d) sum[k][d] += static_cast<LD>(f[d]);
        }
    if (amb) {
        g.label("ambiguous");
        return;
    }
    size_t used = 0;
    for (size_t k = 0; k < K; ++k) {
        if (!n[k]) continue;
        ++used;
        for (size_t d = 0; d < s.D; ++d)
            PBT_CLOSE("fixed-point", m->centers[k * s.D + d], static_cast<double>(sum[k][d] / static_cast<LD>(n[k])), 1e-4, 2e-5 * ext, "center ", k, " of ", n[k], " frames, dimension ", d);
    }
    g.label(str(used, " clusters used"));
    if (K > 1 && rnd) g.nontrivial();
}

PBT_FACET(refusals, 4000, 50000, "a trained model asked with another number of clusters") {
    unsigned K = static_cast<unsigned>(upto(g, 1, 6, 20));
    SetSpec s = dataSet(g, static_cast<int>(K));
    noteSet(g, s);
    auto ts = makeTS(s);
    auto m = prepared(g, K);
    m->initialization_mode = g.coin() ? Init::Biased : Init::Random;
    bool trained = !g.chance(1, 5);
    if (trained) m->train(ts.get());
    std::vector<float> x(s.D);
    for (auto &v : x) v = static_cast<float>(g.smooth(-1, 1) * s.scale);
    if (trained) m->filter(x);
    unsigned K2 = K;
    auto state = [&] {
        std::vector<float> v = m->centers;
        v.insert(v.end(), m->results.distances.begin(), m->results.distances.end());
        v.push_back(static_cast<float>(m->results.likeliest));
        v.push_back(static_cast<float>(m->shared_parameters->dimension.get()));
        return v;
    };
    std::vector<float> before = state();
    size_t n = g.size(8, 2);
    for (size_t i = 0; i < n; ++i) {
        int op = static_cast<int>(g.integer(0, 4));
        if (op == 0) {
            K2 = static_cast<unsigned>(upto(g, 1, 6, 20));
            m->configuration.clusters.set(K2);
            g.note("clusters ", K2, "\n");
        } else if (op == 1) {
            K2 = K;
            m->configuration.clusters.set(K);
        } else if (op == 2) {
            unsigned dim = m->shared_parameters->dimension.get();
            unsigned o = static_cast<unsigned>(g.integer(0, 6));
            if (o == dim) o = dim + 1;
            std::vector<float> y(o, 0.5f);
            g.note("an observation of ", o, " values\n");
            PBT_CHECK("other-dimension", pbt::throws<std::runtime_error>([&] { m->filter(y); }), "an observation of ", o, " values taken by a model of dimension ", dim);
        } else if (op == 3) {
            xmm::TrainingSet none;
            m->train(nullptr);
            m->train(&none);
            g.note("training without phrases\n");
        } else if (trained && K2 == K) {
            m->filter(x);
        } else if (trained) {
            g.note("filtering with ", K2, " clusters instead of ", K, "\n");
            PBT_CHECK("other-clusters", pbt::throws<std::runtime_error>([&] { m->filter(x); }), "a model trained with ", K, " clusters answers for ", K2);
            g.nontrivial();
        }
        PBT_CHECK("changed", state() == before, "the model changed");
    }
}
