// Independent long-double linear algebra used as the oracle for Gaussian computations.
#pragma once
#include "common.hpp"
typedef long double LD;
typedef std::vector<std::vector<LD>> Mat;
inline Mat zeros(size_t r, size_t c) { return Mat(r, std::vector<LD>(c, 0)); }
inline Mat mul(const Mat &a, const Mat &b) {
    Mat o = zeros(a.size(), b[0].size());
    for (size_t i = 0; i < a.size(); ++i)
        for (size_t j = 0; j < b[0].size(); ++j)
            for (size_t k = 0; k < b.size(); ++k) o[i][j] += a[i][k] * b[k][j];
    return o;
}
inline Mat tr(const Mat &a) {
    Mat o = zeros(a[0].size(), a.size());
    for (size_t i = 0; i < a.size(); ++i)
        for (size_t j = 0; j < a[0].size(); ++j) o[j][i] = a[i][j];
    return o;
}
// LU with full row pivoting: determinant and inverse; returns false when numerically singular.
inline bool lu_inverse(const Mat &a, LD &det, Mat &inv) {
    size_t n = a.size();
    Mat m = a;
    inv = zeros(n, n);
    for (size_t i = 0; i < n; ++i) inv[i][i] = 1;
    det = 1;
    for (size_t k = 0; k < n; ++k) {
        size_t p = k;
        for (size_t i = k; i < n; ++i)
            if (fabsl(m[i][k]) > fabsl(m[p][k])) p = i;
        if (fabsl(m[p][k]) < 1e-17L) {
            det = 0;
            return false;
        }
        if (p != k) {
            std::swap(m[p], m[k]);
            std::swap(inv[p], inv[k]);
            det = -det;
        }
        det *= m[k][k];
        LD d = m[k][k];
        for (size_t j = 0; j < n; ++j) {
            m[k][j] /= d;
            inv[k][j] /= d;
        }
        for (size_t i = 0; i < n; ++i)
            if (i != k) {
                LD f = m[i][k];
                for (size_t j = 0; j < n; ++j) {
                    m[i][j] -= f * m[k][j];
                    inv[i][j] -= f * inv[k][j];
                }
            }
    }
    return true;
}
inline LD maxabs(const Mat &a) {
    LD m = 0;
    for (auto &r : a)
        for (auto v : r) m = std::max(m, fabsl(v));
    return m;
}
// Random symmetric positive definite matrix L L^T with controlled conditioning.
inline Mat genSPD(Gen &g, size_t n, double lo = 0.08, double hi = 4.) {
    Mat L = zeros(n, n);
    for (size_t i = 0; i < n; ++i) {
        L[i][i] = g.logreal(lo, hi);
        for (size_t j = 0; j < i; ++j) L[i][j] = g.coin() ? g.real(-1.5, 1.5) : 0;
    }
    Mat c = mul(L, tr(L));
    // what the code under test sees is double
    for (auto &r : c)
        for (auto &v : r) v = static_cast<double>(v);
    return c;
}
inline std::vector<double> flat(const Mat &a) {
    std::vector<double> o;
    for (auto &r : a)
        for (auto v : r) o.push_back(static_cast<double>(v));
    return o;
}
inline Mat block(const Mat &a, size_t r0, size_t r1, size_t c0, size_t c1) {
    Mat o = zeros(r1 - r0, c1 - c0);
    for (size_t i = r0; i < r1; ++i)
        for (size_t j = c0; j < c1; ++j) o[i - r0][j - c0] = a[i][j];
    return o;
}
constexpr LD kLog2Pi = 1.837877066409345483560659472811L;
// Log density of N(mean, cov) at x; cov given by its inverse and determinant.
inline LD logGauss(const std::vector<LD> &d, const Mat &inv, LD det) {
    LD q = 0;
    for (size_t i = 0; i < d.size(); ++i)
        for (size_t j = 0; j < d.size(); ++j) q += d[i] * inv[i][j] * d[j];
    return -0.5L * q - 0.5L * logl(det) - 0.5L * static_cast<LD>(d.size()) * kLog2Pi;
}
// A Gaussian described independently of the library.
struct RefGauss {
    size_t D = 1, DI = 0;
    bool bimodal = false, diag = false;
    std::vector<LD> mean;
    Mat cov;
    Mat inv, invIn;
    LD det = 0, detIn = 0;
    void finish() {
        if (diag)
            for (size_t i = 0; i < D; ++i)
                for (size_t j = 0; j < D; ++j)
                    if (i != j) cov[i][j] = 0;
        lu_inverse(cov, det, inv);
        if (bimodal) lu_inverse(block(cov, 0, DI, 0, DI), detIn, invIn);
    }
    template <typename It>
    LD logp(It x) const {
        std::vector<LD> d(D);
        for (size_t i = 0; i < D; ++i) d[i] = static_cast<LD>(x[i]) - mean[i];
        return logGauss(d, inv, det);
    }
    template <typename It>
    LD logpIn(It x) const {
        std::vector<LD> d(DI);
        for (size_t i = 0; i < DI; ++i) d[i] = static_cast<LD>(x[i]) - mean[i];
        return logGauss(d, invIn, detIn);
    }
    // conditional mean of the output given the input
    template <typename It>
    std::vector<LD> condMean(It x) const {
        std::vector<LD> o(mean.begin() + static_cast<long>(DI), mean.end());
        if (diag) return o;
        for (size_t e = 0; e < DI; ++e) {
            LD t = 0;
            for (size_t f = 0; f < DI; ++f) t += invIn[e][f] * (static_cast<LD>(x[f]) - mean[f]);
            for (size_t d = 0; d < D - DI; ++d) o[d] += cov[DI + d][e] * t;
        }
        return o;
    }
    // the magnitude of the terms that condMean sums: the library sums them in single precision
    template <typename It>
    LD condMag(It x) const {
        LD worst = 0;
        for (size_t d = 0; d < D - DI; ++d) {
            LD m = fabsl(mean[DI + d]);
            if (!diag)
                for (size_t e = 0; e < DI; ++e)
                    for (size_t f = 0; f < DI; ++f) m += fabsl(cov[DI + d][e] * invIn[e][f] * (static_cast<LD>(x[f]) - mean[f]));
            worst = std::max(worst, m);
        }
        return worst;
    }
    Mat condCov() const {
        Mat s = block(cov, DI, D, DI, D);
        if (diag) return s;
        Mat c = mul(mul(block(cov, DI, D, 0, DI), invIn), block(cov, 0, DI, DI, D));
        for (size_t i = 0; i < s.size(); ++i)
            for (size_t j = 0; j < s.size(); ++j) s[i][j] -= c[i][j];
        return s;
    }
    LD condNumber() const { return maxabs(cov) * maxabs(inv) * static_cast<LD>(D); }
};
inline RefGauss genGauss(Gen &g, int bimodal = -1, int maxD = 6) {
    RefGauss r;
    r.bimodal = bimodal < 0 ? g.coin() : bimodal != 0;
    r.D = static_cast<size_t>(upto(g, r.bimodal ? 2 : 1, maxD, 2 * maxD, 30));
    r.DI = r.bimodal ? static_cast<size_t>(g.integer(1, static_cast<int>(r.D) - 1)) : 0;
    r.diag = g.chance(1, 3);
    r.mean.resize(r.D);
    for (auto &m : r.mean) m = g.real(-5, 5);
    r.cov = genSPD(g, r.D);
    r.finish();
    return r;
}
inline xmm::GaussianDistribution makeGauss(const RefGauss &r) {
    typedef xmm::GaussianDistribution G;
    G d(r.bimodal, static_cast<unsigned>(r.D), static_cast<unsigned>(r.DI), r.diag ? G::CovarianceMode::Diagonal : G::CovarianceMode::Full);
    for (size_t i = 0; i < r.D; ++i) d.mean[i] = static_cast<double>(r.mean[i]);
    if (r.diag)
        for (size_t i = 0; i < r.D; ++i) d.covariance[i] = static_cast<double>(r.cov[i][i]);
    else
        d.covariance = flat(r.cov);
    d.updateInverseCovariance();
    return d;
}
inline double floorp(LD logp) {
    LD p = expl(logp);
    return p < 1e-180L ? 1e-180 : static_cast<double>(p);
}
// Compare a density with its reference, in the log domain (the library floors densities at 1e-180).
inline bool closeDensity(double got, LD logref, double tol) {
    if (!(got > 0) || std::isinf(got)) return false;
    LD lf = logl(1e-180L);
    LD want = logref < lf ? lf : logref;
    return fabsl(logl(got) - want) <= tol;
}
// The model-free view of a library Gaussian (means and covariances are public).
inline RefGauss fromGauss(const xmm::GaussianDistribution &d, bool bimodal) {
    RefGauss r;
    r.bimodal = bimodal;
    r.D = d.dimension.get();
    r.DI = bimodal ? d.dimension_input.get() : 0;
    r.diag = d.covariance_mode.get() == xmm::GaussianDistribution::CovarianceMode::Diagonal;
    r.mean.assign(d.mean.begin(), d.mean.end());
    r.cov = zeros(r.D, r.D);
    for (size_t i = 0; i < r.D; ++i)
        for (size_t j = 0; j < r.D; ++j) r.cov[i][j] = r.diag ? (i == j ? d.covariance[i] : 0) : d.covariance[i * r.D + j];
    r.finish();
    return r;
}
