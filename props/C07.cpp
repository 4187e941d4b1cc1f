// C07: Gaussian likelihoods equal the multivariate normal density.
#include "linalg.hpp"

static std::vector<float> nearPoint(Gen &g, const RefGauss &r, double spread) {
    std::vector<float> x(r.D);
    for (size_t i = 0; i < r.D; ++i) x[i] = static_cast<float>(static_cast<double>(r.mean[i]) + g.smooth(-spread, spread) * std::sqrt(static_cast<double>(r.cov[i][i])));
    return x;
}

PBT_FACET(density, 250000, 4000000, "dimension 2 or more and the density is above the documented floor") {
    RefGauss r = genGauss(g);
    auto d = makeGauss(r);
    g.note("D=", r.D, " DI=", r.DI, r.diag ? " diagonal" : " full", " mean ", vstr(d.mean), " cov ", vstr(d.covariance), "\n");
    if (r.condNumber() > 1e7L) throw pbt::Discard{"ill conditioned"};
    bool above = false;
    for (int k = 0; k < 4; ++k) {
        auto x = nearPoint(g, r, k == 3 ? 30 : 3);
        LD lp = r.logp(x.begin());
        double tol = 1e-6 * (1 + static_cast<double>(fabsl(lp)));
        PBT_CHECK("density", closeDensity(d.likelihood(x.data()), lp, tol), "likelihood ", d.likelihood(x.data()), " expected exp(", static_cast<double>(lp), ") at ", vstr(x));
        above = above || lp > -400;
        if (r.bimodal) {
            LD li = r.logpIn(x.begin());
            PBT_CHECK("input-density", closeDensity(d.likelihood_input(x.data()), li, 1e-6 * (1 + static_cast<double>(fabsl(li)))),
                      "likelihood_input ", d.likelihood_input(x.data()), " expected exp(", static_cast<double>(li), ")");
            // separate arrays for the two modalities
            std::vector<float> a(x.begin(), x.begin() + static_cast<long>(r.DI)), b(x.begin() + static_cast<long>(r.DI), x.end());
            PBT_CHECK("bimodal-density", closeDensity(d.likelihood_bimodal(a.data(), b.data()), lp, tol),
                      "likelihood_bimodal ", d.likelihood_bimodal(a.data(), b.data()), " expected exp(", static_cast<double>(lp), ")");
        }
    }
    if (!r.bimodal) {
        std::vector<float> x(r.D, 0.f);
        PBT_CHECK("unimodal-refuses", pbt::throws<std::runtime_error>([&] { d.likelihood_input(x.data()); }) &&
                                          pbt::throws<std::runtime_error>([&] { d.likelihood_bimodal(x.data(), x.data()); }));
    }
    // a copy and an assigned distribution answer alike
    auto x = nearPoint(g, r, 2);
    xmm::GaussianDistribution c(d), e;
    e = d;
    PBT_CHECK("copy-density", c.likelihood(x.data()) == d.likelihood(x.data()) && e.likelihood(x.data()) == d.likelihood(x.data()));
    if (r.D >= 2 && above) g.nontrivial();
    g.label(r.diag ? "diagonal" : "full");
    g.label(r.bimodal ? "bimodal" : "unimodal");
}

// regularising adds exactly the given amounts to the diagonal
PBT_FACET(regularize, 60000, 800000, "dimension 2 or more") {
    RefGauss r = genGauss(g);
    auto d = makeGauss(r);
    std::vector<double> reg(r.D);
    for (size_t i = 0; i < r.D; ++i) {
        reg[i] = g.logreal(1e-3, 3);
        r.cov[i][i] += reg[i];
    }
    g.note("D=", r.D, " regularisation ", vstr(reg), "\n");
    d.regularize(reg);
    d.updateInverseCovariance();
    r.finish();
    for (size_t i = 0; i < r.D; ++i)
        for (size_t j = 0; j < r.D; ++j) {
            if (r.diag && i != j) continue;
            PBT_CLOSE("regularized-covariance", r.diag ? d.covariance[i] : d.covariance[i * r.D + j], static_cast<double>(r.cov[i][j]), 1e-12, 1e-12, i, ",", j);
        }
    auto x = nearPoint(g, r, 2);
    LD lp = r.logp(x.begin());
    PBT_CHECK("density", closeDensity(d.likelihood(x.data()), lp, 1e-6 * (1 + static_cast<double>(fabsl(lp)))), "after regularisation");
    if (r.D >= 2) g.nontrivial();
}

// a distribution without an invertible covariance refuses to answer
PBT_FACET(singular, 40000, 300000, "the covariance is singular") {
    typedef xmm::GaussianDistribution G;
    bool bi = g.coin(), diag = g.coin();
    unsigned D = static_cast<unsigned>(upto(g, bi ? 2 : 1, 5, 12)), DI = bi ? static_cast<unsigned>(g.integer(1, static_cast<int>(D) - 1)) : 0;
    G d(bi, D, DI, diag ? G::CovarianceMode::Diagonal : G::CovarianceMode::Full);
    std::vector<float> x(D, 0.f);
    PBT_CHECK("no-covariance-refused", pbt::throws<std::runtime_error>([&] { d.likelihood(x.data()); }), "likelihood of a distribution that was never given a covariance");
    if (bi) {
        PBT_CHECK("no-covariance-refused", pbt::throws<std::runtime_error>([&] { d.likelihood_input(x.data()); }));
        PBT_CHECK("no-covariance-refused", pbt::throws<std::runtime_error>([&] { d.likelihood_bimodal(x.data(), x.data()); }));
    }
    // rank-deficient: one dimension has no variance at all
    unsigned z = static_cast<unsigned>(g.integer(0, static_cast<int>(D) - 1));
    Mat c = genSPD(g, D);
    for (unsigned i = 0; i < D; ++i) c[z][i] = c[i][z] = 0;
    if (diag)
        for (unsigned i = 0; i < D; ++i) d.covariance[i] = static_cast<double>(c[i][i]);
    else
        d.covariance = flat(c);
    PBT_CHECK("singular-refused", pbt::throws<std::runtime_error>([&] { d.updateInverseCovariance(); }), "zero variance in dimension ", z);
    g.nontrivial();
}
