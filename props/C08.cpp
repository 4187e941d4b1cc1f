// C08: Gaussian regression is the conditional expectation, with the conditional covariance.
#include "linalg.hpp"

PBT_FACET(regression, 300000, 4000000, "full covariance with a non-zero input/output correlation") {
    RefGauss r = genGauss(g, 1);
    auto d = makeGauss(r);
    if (r.condNumber() > 1e6L) throw pbt::Discard{"ill conditioned"};
    g.note("D=", r.D, " DI=", r.DI, r.diag ? " diagonal" : " full", " mean ", vstr(d.mean), " cov ", vstr(d.covariance), "\n");
    size_t DO = r.D - r.DI;
    bool corr = false;
    for (size_t i = 0; i < r.DI; ++i)
        for (size_t j = r.DI; j < r.D; ++j) corr = corr || fabsl(r.cov[i][j]) > 1e-3L;
    for (int k = 0; k < 3; ++k) {
        std::vector<float> x(r.DI), y(static_cast<size_t>(g.integer(0, 7)), -77.f);
        for (size_t i = 0; i < r.DI; ++i) x[i] = static_cast<float>(static_cast<double>(r.mean[i]) + g.smooth(-4, 4));
        d.regression(x, y);
        PBT_CHECK("output-size", y.size() == DO, "predicted ", y.size(), " values, expected ", DO);
        auto e = r.condMean(x.begin());
        // single-precision result: scale the tolerance with the terms that are summed
        for (size_t i = 0; i < DO; ++i) {
            LD mag = fabsl(r.mean[r.DI + i]);
            if (!r.diag)
                for (size_t a = 0; a < r.DI; ++a)
                    for (size_t b = 0; b < r.DI; ++b) mag += fabsl(r.cov[r.DI + i][a] * r.invIn[a][b] * (static_cast<LD>(x[b]) - r.mean[b]));
            PBT_CLOSE("conditional-mean", y[i], static_cast<double>(e[i]), 1e-5, static_cast<double>(mag) * 5e-6 + 1e-6, "output ", i, " for input ", vstr(x));
        }
    }
    Mat cc = r.condCov();
    LD scale = maxabs(r.cov) * (1 + r.condNumber() * 1e-3L);
    PBT_CHECK("output-covariance-size", d.output_covariance.size() == (r.diag ? DO : DO * DO), d.output_covariance.size());
    for (size_t i = 0; i < DO; ++i)
        for (size_t j = 0; j < DO; ++j) {
            if (r.diag && i != j) continue;
            PBT_CLOSE("conditional-covariance", r.diag ? d.output_covariance[i] : d.output_covariance[i * DO + j], static_cast<double>(cc[i][j]), 1e-6,
                      static_cast<double>(scale) * 1e-9 + 1e-10, "entry ", i, ",", j);
        }
    for (size_t i = 0; i < DO; ++i) {
        double v = r.diag ? d.output_covariance[i] : d.output_covariance[i * DO + i];
        PBT_CHECK("conditional-variance-positive", v > 0 && v <= static_cast<double>(r.cov[r.DI + i][r.DI + i]) * (1 + 1e-9), "variance ", v);
    }
    if (!r.diag && corr) g.nontrivial();
    g.label(r.diag ? "diagonal" : "full");
}

PBT_FACET(unimodal, 2000, 10000, "regression asked of a unimodal distribution") {
    RefGauss r = genGauss(g, 0);
    auto d = makeGauss(r);
    std::vector<float> x(1, 0.f), y(3, 5.f);
    PBT_CHECK("unimodal-refuses", pbt::throws<std::runtime_error>([&] { d.regression(x, y); }));
    PBT_CHECK("unimodal-untouched", y == std::vector<float>(3, 5.f));
    g.note("D=", r.D, "\n");
    g.nontrivial();
}
