// C05: statistics, rescaling and normalisation of phrases and training sets.
#include "common.hpp"

namespace {
struct Stats {
    std::vector<double> mean, sd, lo, hi;
    double maxabs = 0;
    size_t n = 0;
};
typedef std::vector<std::vector<float>> Rows;
Stats ref(const Rows &R, unsigned D) {
    Stats s;
    s.mean.assign(D, 0);
    s.sd.assign(D, 0);
    s.lo.assign(D, std::numeric_limits<double>::infinity());
    s.hi.assign(D, -std::numeric_limits<double>::infinity());
    s.n = R.size();
    for (unsigned d = 0; d < D; ++d) {
        for (auto &r : R) {
            s.mean[d] += r[d];
            s.lo[d] = std::min<double>(s.lo[d], r[d]);
            s.hi[d] = std::max<double>(s.hi[d], r[d]);
            s.maxabs = std::max<double>(s.maxabs, std::fabs(r[d]));
        }
        s.mean[d] /= static_cast<double>(R.size());
        for (auto &r : R) s.sd[d] += (r[d] - s.mean[d]) * (r[d] - s.mean[d]);
        s.sd[d] = std::sqrt(s.sd[d] / static_cast<double>(R.size()));
    }
    return s;
}
template <typename T>
void checkStats(const T &o, const Rows &R, unsigned D, const char *what) {
    Stats s = ref(R, D);
    double tol = 4e-7 * static_cast<double>(s.n) * s.maxabs + 1e-5;
    auto m = o.mean();
    auto sd = o.standardDeviation();
    auto mm = o.minmax();
    PBT_CHECK("stat-size", m.size() == D && sd.size() == D && mm.size() == D, what);
    for (unsigned d = 0; d < D; ++d) {
        PBT_CLOSE("mean", m[d], s.mean[d], 1e-4, tol, what, " dim ", d);
        // the computed mean may be off by tol: second-order effect on the deviation
        PBT_CLOSE("standard-deviation", sd[d], s.sd[d], 1e-3, 2 * tol, what, " dim ", d);
        PBT_CHECK("minmax", mm[d].first == s.lo[d] && mm[d].second == s.hi[d], what, " dim ", d, ": [", mm[d].first, ",", mm[d].second,
                  "] expected [", s.lo[d], ",", s.hi[d], "]");
    }
}
}  // namespace

PBT_FACET(sets, 100000, 1500000, "2 or more non-empty phrases of different lengths, and a rescale or normalisation was applied") {
    bool bi = g.coin();
    unsigned D = static_cast<unsigned>(upto(g, bi ? 2 : 1, 6, 24)), DI = bi ? static_cast<unsigned>(g.integer(1, static_cast<int>(D) - 1)) : 0;
    bool shared = g.chance(1, 4);
    xmm::TrainingSet ts(shared ? xmm::MemoryMode::SharedMemory : xmm::MemoryMode::OwnMemory,
                        bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
    ts.dimension.set(D);
    if (bi) ts.dimension_input.set(DI);
    std::vector<double> scale(D), off(D);
    for (unsigned d = 0; d < D; ++d) {
        scale[d] = g.logreal(0.05, 8.);
        off[d] = g.integer(-20, 20);
    }
    std::map<int, Rows> M;
    std::vector<std::unique_ptr<float[]>> keep;
    std::set<size_t> lens;
    int np = upto(g, 1, 5, 24);
    for (int p = 0; p < np; ++p) {
        unsigned n = static_cast<unsigned>(g.chance(1, 6) ? 0 : g.chance(1, 20) ? g.integer(250, 300) : g.integer(1, 25));
        int idx = p * 3 - 2;
        ts.addPhrase(idx, g.coin() ? "a" : "b");
        Rows R;
        for (unsigned t = 0; t < n; ++t) {
            std::vector<float> r(D);
            for (unsigned d = 0; d < D; ++d) r[d] = static_cast<float>(dval(static_cast<unsigned>(p), t, d) * scale[d] / 60. + off[d]);
            R.push_back(r);
        }
        auto ph = ts.getPhrase(idx);
        if (shared) {
            unsigned ia = bi ? DI : D;
            std::unique_ptr<float[]> a(new float[n * ia + 1]), b(new float[n * (D - ia) + 1]);
            for (unsigned t = 0; t < n; ++t)
                for (unsigned d = 0; d < D; ++d)
                    if (d < ia) a[t * ia + d] = R[t][d];
                    else b[t * (D - ia) + d - ia] = R[t][d];
            if (bi) ph->connect(a.get(), b.get(), n);
            else ph->connect(a.get(), n);
            keep.push_back(std::move(a));
            keep.push_back(std::move(b));
        } else
            for (auto &r : R) ph->record(r);
        M[idx] = R;
        if (n) lens.insert(n);
        g.note("phrase ", idx, ": ", n, " frames\n");
    }
    auto all = [&] {
        Rows A;
        for (auto &m : M) A.insert(A.end(), m.second.begin(), m.second.end());
        return A;
    };
    if (all().empty()) throw pbt::Discard{"no data"};
    auto verify = [&](const char *when) {
        checkStats(ts, all(), D, when);
        for (auto &m : M)
            if (!m.second.empty()) checkStats(*ts.getPhrase(m.first), m.second, D, when);
    };
    verify("recorded");
    bool changed = false;
    for (int k = g.integer(0, 2); k > 0; --k) {
        int what = g.integer(0, 2);
        std::map<int, Rows> E = M;
        double tol = 1e-5;
        if (what == 2) {
            Stats s = ref(all(), D);
            bool flat = false;
            for (unsigned d = 0; d < D; ++d) flat = flat || s.sd[d] < 1e-2 * (1 + s.maxabs);
            if (flat || s.maxabs > 1e4) break;
            g.note("normalize\n");
            ts.normalize();
            for (auto &e : E)
                for (auto &r : e.second)
                    for (unsigned d = 0; d < D; ++d) r[d] = static_cast<float>((r[d] - s.mean[d]) / s.sd[d]);
            tol = 2e-2;  // mean and deviation are accumulated in single precision
            g.label("normalize");
        } else {
            std::vector<float> o(D), gn(D);
            for (unsigned d = 0; d < D; ++d) {
                o[d] = static_cast<float>(g.real(-10, 10));
                gn[d] = static_cast<float>(g.real(-4, 4));
            }
            int one = what == 1 ? M.begin()->first : 1000;
            g.note(what ? "phrase rescale " : "set rescale ", vstr(o), " ", vstr(gn), "\n");
            if (what) ts.getPhrase(one)->rescale(o, gn);
            else ts.rescale(o, gn);
            for (auto &e : E)
                if (!what || e.first == one)
                    for (auto &r : e.second)
                        for (unsigned d = 0; d < D; ++d) r[d] = (r[d] - o[d]) * gn[d];
            g.label("rescale");
        }
        for (auto &e : E) {
            auto ph = ts.getPhrase(e.first);
            PBT_CHECK("rescale-length", ph->size() == e.second.size());
            for (unsigned t = 0; t < e.second.size(); ++t)
                for (unsigned d = 0; d < D; ++d) {
                    float v = ph->getValue(t, d);
                    PBT_CLOSE("rescaled-value", v, e.second[t][d], 1e-5, tol, "phrase ", e.first, " frame ", t, " dim ", d);
                    e.second[t][d] = v;
                }
        }
        M = E;
        changed = true;
        if (what == 2) {
            auto m = ts.mean();
            auto sd = ts.standardDeviation();
            for (unsigned d = 0; d < D; ++d) {
                PBT_CLOSE("normalized-mean", m[d], 0., 0, 2e-2, "dim ", d);
                PBT_CLOSE("normalized-deviation", sd[d], 1., 0, 2e-2, "dim ", d);
            }
        }
        verify("after rescaling");
    }
    if (lens.size() >= 2 && changed) g.nontrivial();
    g.label(bi ? "bimodal" : "unimodal");
    if (shared) g.label("shared memory");
}

// one modality recorded ahead of the other: means and deviations are over the complete frames, a set's
// minimum and maximum over all the values each modality has
PBT_FACET(uneven_modalities, 40000, 400000, "a phrase has more inputs than outputs and one more outputs than inputs") {
    unsigned D = static_cast<unsigned>(upto(g, 2, 5, 16)), DI = static_cast<unsigned>(g.integer(1, static_cast<int>(D) - 1));
    xmm::TrainingSet ts(xmm::MemoryMode::OwnMemory, xmm::Multimodality::Bimodal);
    ts.dimension.set(D);
    ts.dimension_input.set(DI);
    Rows A;
    std::vector<double> lo(D, std::numeric_limits<double>::infinity()), hi(D, -std::numeric_limits<double>::infinity());
    bool more[2] = {false, false};
    int np = g.integer(1, 4);
    for (int p = 0; p < np; ++p) {
        ts.addPhrase(p, "a");
        auto ph = ts.getPhrase(p);
        Rows R;
        size_t n[2] = {static_cast<size_t>(g.integer(0, 8)), static_cast<size_t>(g.integer(0, 8))};
        g.note("phrase ", p, ": ", n[0], " inputs, ", n[1], " outputs\n");
        for (size_t t = 0; t < std::max(n[0], n[1]); ++t) {
            std::vector<float> in, out, r;
            for (unsigned d = 0; d < D; ++d) {
                r.push_back(static_cast<float>(g.integer(-50, 50)) / 4);
                (d < DI ? in : out).push_back(r[d]);
                if (t < n[d >= DI]) {
                    lo[d] = std::min<double>(lo[d], r[d]);
                    hi[d] = std::max<double>(hi[d], r[d]);
                }
            }
            if (t < n[0]) ph->record_input(in);
            if (t < n[1]) ph->record_output(out);
            if (t < std::min(n[0], n[1])) R.push_back(r);
        }
        more[0] = more[0] || n[0] > n[1];
        more[1] = more[1] || n[1] > n[0];
        PBT_CHECK("length", ph->size() == R.size());
        if (!R.empty()) {
            Stats s = ref(R, D);
            auto m = ph->mean(), sd = ph->standardDeviation();
            for (unsigned d = 0; d < D; ++d) {
                PBT_CLOSE("mean", m[d], s.mean[d], 1e-4, 1e-4, "phrase ", p, " dim ", d);
                PBT_CLOSE("standard-deviation", sd[d], s.sd[d], 1e-3, 1e-3, "phrase ", p, " dim ", d);
            }
        }
        A.insert(A.end(), R.begin(), R.end());
    }
    if (A.empty()) throw pbt::Discard{"no complete frame"};
    Stats s = ref(A, D);
    auto m = ts.mean(), sd = ts.standardDeviation();
    auto mm = ts.minmax();
    for (unsigned d = 0; d < D; ++d) {
        PBT_CLOSE("mean", m[d], s.mean[d], 1e-4, 1e-4, "set dim ", d);
        PBT_CLOSE("standard-deviation", sd[d], s.sd[d], 1e-3, 1e-3, "set dim ", d);
        PBT_CHECK("minmax", mm[d].first == lo[d] && mm[d].second == hi[d], "set dim ", d, ": [", mm[d].first, ",", mm[d].second, "] expected [", lo[d], ",", hi[d], "]");
    }
    if (more[0] && more[1]) g.nontrivial();
}
