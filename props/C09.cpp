// C09: covariance-mode switches and ellipse edits keep a distribution coherent.
#include "linalg.hpp"
typedef xmm::GaussianDistribution G;

// everything a distribution answers must follow from its public mean and covariance
static void coherent(const G &d, const RefGauss &r, Gen &g, const char *when) {
    size_t n = r.diag ? r.D : r.D * r.D;
    PBT_CHECK("covariance-layout", d.covariance.size() == n && d.mean.size() == r.D, when, ": ", d.covariance.size(), " covariance values, expected ", n);
    for (size_t i = 0; i < r.D; ++i) PBT_CLOSE("mean", d.mean[i], static_cast<double>(r.mean[i]), 1e-6, 1e-6, when);
    LD sc = maxabs(r.cov);
    for (size_t i = 0; i < r.D; ++i)
        for (size_t j = 0; j < r.D; ++j) {
            if (r.diag && i != j) continue;
            PBT_CLOSE("covariance", r.diag ? d.covariance[i] : d.covariance[i * r.D + j], static_cast<double>(r.cov[i][j]), 2e-5, static_cast<double>(sc) * 2e-5, when, " entry ", i, ",", j);
        }
    RefGauss o = fromGauss(d, r.bimodal);  // judge densities against the distribution's own (single-precision edited) covariance
    if (o.condNumber() > 1e6L) return;
    std::vector<float> x(r.D);
    for (size_t i = 0; i < r.D; ++i) x[i] = static_cast<float>(static_cast<double>(r.mean[i]) + g.smooth(-2, 2));
    LD lp = o.logp(x.begin());
    double tol = 1e-5 * (1 + static_cast<double>(fabsl(lp)));
    PBT_CHECK("density-follows", closeDensity(d.likelihood(x.data()), lp, tol), when, ": likelihood ", d.likelihood(x.data()), " expected exp(", static_cast<double>(lp), ")");
    if (r.bimodal) {
        LD li = o.logpIn(x.begin());
        PBT_CHECK("input-density-follows", closeDensity(d.likelihood_input(x.data()), li, 1e-5 * (1 + static_cast<double>(fabsl(li)))), when, ": likelihood_input ",
                  d.likelihood_input(x.data()), " expected exp(", static_cast<double>(li), ")");
        std::vector<float> in(x.begin(), x.begin() + static_cast<long>(r.DI)), out;
        d.regression(in, out);
        auto e = o.condMean(in.begin());
        PBT_CHECK("regression-size", out.size() == r.D - r.DI, when);
        for (size_t i = 0; i < out.size(); ++i)
            PBT_CLOSE("regression-follows", out[i], static_cast<double>(e[i]), 1e-4, 1e-4 * (1 + static_cast<double>(o.condNumber()) * 1e-3), when, " output ", i);
        Mat cc = o.condCov();
        size_t DO = r.D - r.DI;
        PBT_CHECK("output-covariance-size", d.output_covariance.size() == (r.diag ? DO : DO * DO), when);
        for (size_t i = 0; i < DO; ++i)
            PBT_CLOSE("output-covariance-follows", r.diag ? d.output_covariance[i] : d.output_covariance[i * DO + i], static_cast<double>(cc[i][i]), 1e-5,
                      1e-7 * static_cast<double>(sc * (1 + o.condNumber())), when);
    }
}

PBT_FACET(switching, 60000, 900000, "dimension 2 or more and at least 2 mode switches or ellipse edits, one of them a switch") {
    RefGauss r = genGauss(g);
    auto d = std::make_shared<G>(makeGauss(r));
    g.note("D=", r.D, " DI=", r.DI, r.diag ? " diagonal" : " full", " cov ", vstr(d->covariance), "\n");
    int ops = 0, switches = 0;
    bool same = false;
    while (g.more(static_cast<size_t>(ops), 10, 5)) {
        ++ops;
        switch (g.integer(0, 4)) {
            case 0:
            case 1: {
                bool diag = g.coin();
                if (diag == r.diag) same = true;
                g.note("mode ", diag ? "Diagonal" : "Full", "\n");
                d->covariance_mode.set(diag ? G::CovarianceMode::Diagonal : G::CovarianceMode::Full);
                r.diag = diag;
                ++switches;
                break;
            }
            case 2: {
                if (r.D < 2) break;
                unsigned a = static_cast<unsigned>(g.integer(0, static_cast<int>(r.D) - 1)), b = static_cast<unsigned>(g.integer(0, static_cast<int>(r.D) - 1));
                if (a == b) break;
                // an axis-aligned rotation must stay positive definite with the other dimensions: only edit pairs when D == 2,
                // or when the mode is diagonal
                if (!(r.D == 2 || r.diag)) break;
                xmm::Ellipse e;
                e.x = static_cast<float>(g.real(-5, 5));
                e.y = static_cast<float>(g.real(-5, 5));
                e.width = static_cast<float>(g.logreal(0.8, 10));
                e.height = e.width * static_cast<float>(g.logreal(0.2, 1));
                e.angle = r.diag ? static_cast<float>(g.coin() ? 0. : 1.5707963267948966) : static_cast<float>(g.chance(1, 4) ? 0. : g.smooth(-1.55, 1.55));
                g.note("ellipse on ", a, ",", b, ": w ", e.width, " h ", e.height, " angle ", e.angle, "\n");
                d->fromEllipse(e, a, b);
                LD l1 = static_cast<LD>(e.width) * e.width / 5.991L, l2 = static_cast<LD>(e.height) * e.height / 5.991L;
                LD c = cosl(e.angle), s = sinl(e.angle);
                r.mean[a] = e.x;
                r.mean[b] = e.y;
                r.cov[a][a] = l1 * c * c + l2 * s * s;
                r.cov[b][b] = l1 * s * s + l2 * c * c;
                r.cov[a][b] = r.cov[b][a] = (l1 - l2) * s * c;
                g.label("ellipse");
                if (e.angle == 0) g.label("ellipse with angle 0");
                break;
            }
            case 3: {
                std::vector<double> reg(r.D);
                for (size_t i = 0; i < r.D; ++i) {
                    reg[i] = g.logreal(1e-2, 2);
                    r.cov[i][i] += reg[i];
                }
                d->regularize(reg);
                d->updateInverseCovariance();
                break;
            }
            case 4: {
                auto c = std::make_shared<G>(*d);
                if (g.coin()) {
                    c = std::make_shared<G>(g.coin(), 3, 0);
                    *c = *d;
                }
                d = c;  // the original is destroyed
                g.label("copied");
                break;
            }
        }
        r.finish();
        coherent(*d, r, g, "after a step");
        r = [&] {  // continue from the (single-precision rounded) state
            RefGauss o = fromGauss(*d, r.bimodal);
            return o;
        }();
    }
    if (same) g.label("set to the mode already active");
    if (r.D >= 2 && ops >= 2 && switches) g.nontrivial();
}

PBT_FACET(ellipse, 60000, 600000, "correlated or equal-variance pair of dimensions") {
    RefGauss r = genGauss(g, 0);
    if (g.chance(1, 3))  // equal variances: the degenerate eigenproblem
        for (size_t i = 1; i < r.D; ++i) r.cov[i][i] = r.cov[0][0];
    if (g.chance(1, 4)) {
        for (size_t i = 0; i < r.D; ++i)
            for (size_t j = 0; j < r.D; ++j)
                if (i != j) r.cov[i][j] = g.chance(1, 2) ? 0 : static_cast<LD>(g.logreal(1e-12, 1e-6));
    }
    for (size_t i = 0; i < r.D; ++i)
        for (size_t j = 0; j < i; ++j) r.cov[i][j] = r.cov[j][i];
    r.finish();
    if (r.det <= 0 || r.condNumber() > 1e4L) throw pbt::Discard{"not positive definite"};
    for (size_t i = 0; i < r.D; ++i)
        for (size_t j = 0; j < i; ++j)
            if (r.cov[i][j] * r.cov[i][j] >= 0.98L * r.cov[i][i] * r.cov[j][j]) throw pbt::Discard{"nearly degenerate"};
    auto d = makeGauss(r);
    unsigned a = static_cast<unsigned>(g.integer(0, static_cast<int>(r.D) - 1)), b = static_cast<unsigned>(g.integer(0, static_cast<int>(r.D) - 1));
    if (a == b) throw pbt::Discard{"same axis"};
    g.note("D=", r.D, r.diag ? " diagonal" : " full", " axes ", a, ",", b, " cov ", vstr(d.covariance), "\n");
    auto before = d.covariance;
    auto e = d.toEllipse(a, b);
    PBT_CHECK("to-ellipse-const", d.covariance == before);
    LD A = r.cov[a][a], B = r.diag ? 0 : r.cov[a][b], C = r.cov[b][b];
    LD disc = sqrtl((A - C) * (A - C) + 4 * B * B), l1 = 0.5L * (A + C + disc), l2 = 0.5L * (A + C - disc);
    PBT_CLOSE("ellipse-x", e.x, static_cast<double>(r.mean[a]), 1e-6, 1e-6);
    PBT_CLOSE("ellipse-y", e.y, static_cast<double>(r.mean[b]), 1e-6, 1e-6);
    // squared axes: the discriminant loses up to half the digits when the eigenvalues are close
    PBT_CLOSE("ellipse-width", static_cast<double>(e.width) * e.width / 5.991, static_cast<double>(l1), 1e-5, 1e-6 * static_cast<double>(A + C), "axes ", a, ",", b);
    PBT_CLOSE("ellipse-height", static_cast<double>(e.height) * e.height / 5.991, static_cast<double>(l2), 1e-5, 1e-6 * static_cast<double>(A + C), "axes ", a, ",", b);
    // the angle is that of the main axis whenever there is one: rebuild the covariance
    LD c = cosl(e.angle), s = sinl(e.angle);
    PBT_CLOSE("ellipse-angle", static_cast<double>(l1 * c * c + l2 * s * s), static_cast<double>(A), 1e-4, 1e-4 * static_cast<double>(A + C), "angle ", e.angle);
    PBT_CLOSE("ellipse-angle", static_cast<double>((l1 - l2) * s * c), static_cast<double>(B), 1e-4, 1e-4 * static_cast<double>(A + C), "angle ", e.angle);
    xmm::Ellipse f = xmm::covariance2ellipse(static_cast<double>(A), static_cast<double>(B), static_cast<double>(C));
    PBT_CLOSE("covariance2ellipse-width", f.width, e.width, 1e-5, 1e-5);
    PBT_CLOSE("covariance2ellipse-height", f.height, e.height, 1e-5, 1e-5);
    PBT_CLOSE("covariance2ellipse-angle", f.angle, e.angle, 1e-5, 1e-5);
    // and back
    d.fromEllipse(e, a, b);
    size_t D = r.D;
    auto at = [&](size_t i, size_t j) { return r.diag ? (i == j ? d.covariance[i] : 0.) : d.covariance[i * D + j]; };
    for (size_t i = 0; i < D; ++i)
        for (size_t j = 0; j < D; ++j)
            PBT_CLOSE("ellipse-round-trip", at(i, j), static_cast<double>(r.diag && i != j ? 0 : r.cov[i][j]), 1e-4, 1e-4 * static_cast<double>(A + C), "entry ", i, ",", j);
    PBT_CHECK("ellipse-range", pbt::throws<std::out_of_range>([&] { d.toEllipse(static_cast<unsigned>(D), 0); }) &&
                                   pbt::throws<std::out_of_range>([&] { d.fromEllipse(e, 0, static_cast<unsigned>(D)); }));
    if (fabsl(B) > 1e-3L || A == C) g.nontrivial();
}

// the region of variables that (nearly) determine each other is flat
PBT_FACET(flat_ellipses, 60000, 600000, "both variances positive and a correlation above 0.999999") {
    double unit = g.logreal(1e-5, 1e5);
    double x = g.chance(1, 12) ? 0 : g.real(-3, 3) * unit, y = g.chance(1, 12) ? 0 : g.real(-3, 3) * unit;
    double more = g.chance(1, 3) ? 0 : g.logreal(1e-20, 1e-2) * (x * x + y * y);
    double A = x * x + more, B = x * y, C = y * y + more;
    g.note("variances ", A, ", ", C, " covariance ", B, "\n");
    xmm::GaussianDistribution d(false, 2, 0, xmm::GaussianDistribution::CovarianceMode::Full);
    d.covariance = {A, B, B, C};
    LD a = static_cast<LD>(A), b = static_cast<LD>(B), c = static_cast<LD>(C);
    LD disc = sqrtl((a - c) * (a - c) + 4 * b * b), l1 = 0.5L * (a + c + disc), l2 = 0.5L * (a + c - disc);
    double tol = 1e-6 * (A + C);
    for (int how = 0; how < 2; ++how) {
        xmm::Ellipse e = how ? xmm::covariance2ellipse(A, B, C) : d.toEllipse(0, 1);
        const char *tag = how ? "flat-covariance2ellipse" : "flat-ellipse";
        PBT_CLOSE(tag, static_cast<double>(e.width) * e.width / 5.991, static_cast<double>(l1), 1e-5, tol, "width");
        PBT_CLOSE(tag, static_cast<double>(e.height) * e.height / 5.991, static_cast<double>(l2), 1e-5, tol, "height");
        LD co = cosl(e.angle), s = sinl(e.angle);
        PBT_CLOSE(tag, static_cast<double>(l1 * co * co + l2 * s * s), A, 1e-4, 1e-4 * (A + C), "angle ", e.angle);
        PBT_CLOSE(tag, static_cast<double>((l1 - l2) * s * co), B, 1e-4, 1e-4 * (A + C), "angle ", e.angle);
    }
    if (A > 0 && C > 0 && B * B > 0.999998 * A * C) g.nontrivial();
}
