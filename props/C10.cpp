// C10: the matrix utility computes correct algebra and never aliases or loses its data.
#include "linalg.hpp"
#include "xmmMatrix.hpp"

namespace {
template <typename T>
xmm::Matrix<T> toM(const Mat &a) {
    xmm::Matrix<T> m(static_cast<unsigned>(a.size()), static_cast<unsigned>(a[0].size()));
    for (size_t i = 0; i < a.size(); ++i)
        for (size_t j = 0; j < a[0].size(); ++j) m.data[static_cast<long>(i * a[0].size() + j)] = static_cast<T>(a[i][j]);
    return m;
}
template <typename T>
void same(const xmm::Matrix<T> &m, const Mat &e, double rel, double abs, const char *tag) {
    PBT_CHECK(tag, m.nrows == e.size() && m.ncols == e[0].size(), m.nrows, "x", m.ncols, " expected ", e.size(), "x", e[0].size());
    for (size_t i = 0; i < e.size(); ++i)
        for (size_t j = 0; j < e[0].size(); ++j)
            PBT_CLOSE(tag, static_cast<double>(m.data[static_cast<long>(i * e[0].size() + j)]), static_cast<double>(e[i][j]), rel, abs, "entry ", i, ",", j);
}
Mat genMat(Gen &g, size_t r, size_t c) {
    Mat a = zeros(r, c);
    for (auto &row : a)
        for (auto &v : row) v = static_cast<float>(g.real(-4, 4));
    return a;
}
template <typename T>
void algebra(Gen &g) {
    double eps = sizeof(T) == 4 ? 1e-5 : 1e-12;
    size_t n = static_cast<size_t>(upto(g, 1, 6, 14)), m = static_cast<size_t>(upto(g, 1, 6, 14)), p = static_cast<size_t>(upto(g, 1, 6, 14));
    Mat A = genMat(g, n, m), B = genMat(g, m, p);
    auto a = toM<T>(A);
    auto b = toM<T>(B);
    g.note(n, "x", m, " times ", m, "x", p, "\n");
    std::unique_ptr<xmm::Matrix<T>> ab(a.product(&b)), t(a.transpose()), tt(t->transpose());
    same(*ab, mul(A, B), eps, eps * 100, "product");
    same(*t, tr(A), 0, 0, "transpose");
    same(*tt, A, 0, 0, "transpose-twice");
    same(a, A, 0, 0, "operand-untouched");
    LD s = 0, sa = 0;
    for (auto &r : A)
        for (auto v : r) s += v, sa += fabsl(v);
    PBT_CLOSE("sum", a.sum(), static_cast<double>(s), 1e-5, 1e-5 * static_cast<double>(sa) + 1e-9);
    if (m != n) {
        PBT_CHECK("product-shape-refused", pbt::throws<std::runtime_error>([&] { delete a.product(&a); }));
        double det;
        PBT_CHECK("inverse-shape-refused", pbt::throws<std::runtime_error>([&] { delete a.gauss_jordan_inverse(&det); }));
    }
    // swaps
    Mat S = A;
    if (n > 1) {
        unsigned i = static_cast<unsigned>(g.integer(0, static_cast<int>(n) - 1)), j = static_cast<unsigned>(g.integer(0, static_cast<int>(n) - 1));
        a.swap_lines(i, j);
        std::swap(S[i], S[j]);
    }
    if (m > 1) {
        unsigned i = static_cast<unsigned>(g.integer(0, static_cast<int>(m) - 1)), j = static_cast<unsigned>(g.integer(0, static_cast<int>(m) - 1));
        a.swap_columns(i, j);
        for (auto &r : S) std::swap(r[i], r[j]);
    }
    same(a, S, 0, 0, "swap");
    if (n > 1 && m > 1) g.nontrivial();
}
template <typename T>
void inverse(Gen &g) {
    double eps = sizeof(T) == 4 ? 2e-5 : 1e-11;
    size_t n = static_cast<size_t>(g.integer(1, 5));
    int kind = g.integer(0, 3);
    Mat A;
    if (kind == 0) A = genSPD(g, n, 0.3, 3);
    else if (kind == 1) {  // scaled permutation plus noise above the diagonal of the permuted form: needs row exchanges
        std::vector<size_t> perm(n);
        for (size_t i = 0; i < n; ++i) perm[i] = i;
        for (size_t i = n; i-- > 1;) std::swap(perm[i], perm[g.raw(i)]);
        A = zeros(n, n);
        for (size_t i = 0; i < n; ++i) {
            A[perm[i]][i] = g.oneof({1., -1., 2., -0.5});
            for (size_t j = i + 1; j < n; ++j) A[perm[i]][j] = g.coin() ? g.integer(-2, 2) : 0;
        }
        g.label("needs row exchanges");
    } else {
        A = genMat(g, n, n);
        for (size_t i = 0; i < n && kind == 2; ++i) A[i][i] += g.coin() ? 8 : -8;  // dominant diagonal, any sign
    }
    for (auto &r : A)
        for (auto &v : r) v = static_cast<T>(v);
    LD det;
    Mat inv;
    bool ok = lu_inverse(A, det, inv);
    auto a = toM<T>(A);
    g.note("kind ", kind, " ", n, "x", n, " ", vstr(flat(A)), "\n");
    double d = 12345;
    if (!ok || maxabs(A) * maxabs(inv) > 1e3L) throw pbt::Discard{"near singular"};
    // a zero pivot may be met with rounding noise instead: only judge matrices whose elimination is benign
    {
        Mat m = A;
        for (size_t k = 0; k < n; ++k) {
            size_t p = k;
            while (p < n && fabsl(m[p][k]) < 1e-9L) ++p;
            if (p == n || fabsl(m[p][k]) < 0.02L) throw pbt::Discard{"unstable pivot"};
            std::swap(m[p], m[k]);
            for (size_t i = k + 1; i < n; ++i) {
                LD f = m[i][k] / m[k][k];
                for (size_t j = 0; j < n; ++j) m[i][j] -= f * m[k][j];
                // exact cancellation in our arithmetic may leave noise in theirs
                if (k + 1 < n && fabsl(m[i][k + 1]) > 0 && fabsl(m[i][k + 1]) < 1e-3L) throw pbt::Discard{"unstable pivot"};
            }
        }
    }
    std::unique_ptr<xmm::Matrix<T>> i1(a.pinv(&d));
    double ds = static_cast<double>(fabsl(det)) + 1, tol = eps * 1e4 * static_cast<double>(maxabs(A) * maxabs(inv));
    same(*i1, inv, tol, tol * static_cast<double>(maxabs(inv)), "inverse");
    PBT_CLOSE("determinant", d, static_cast<double>(det), tol, tol * ds);
    double d2 = 0;
    std::unique_ptr<xmm::Matrix<T>> i2(a.gauss_jordan_inverse(&d2));
    same(*i2, inv, tol, tol * static_cast<double>(maxabs(inv)), "gauss-jordan");
    PBT_CLOSE("determinant", d2, static_cast<double>(det), tol, tol * ds);
    same(a, A, 0, 0, "operand-untouched");
    if (n >= 2) g.nontrivial();
}
}  // namespace

PBT_FACET(algebra_double, 40000, 400000, "both operand dimensions above 1") { algebra<double>(g); }
PBT_FACET(algebra_float, 20000, 200000, "both operand dimensions above 1") { algebra<float>(g); }
PBT_FACET(inverse_double, 80000, 800000, "invertible matrix of size 2 or more") { inverse<double>(g); }
PBT_FACET(inverse_float, 30000, 300000, "invertible matrix of size 2 or more") { inverse<float>(g); }

PBT_FACET(singular, 20000, 200000, "an exactly singular square matrix") {
    size_t n = static_cast<size_t>(g.integer(1, 5));
    Mat A = genMat(g, n, n);
    size_t z = static_cast<size_t>(g.raw(n - 1));
    bool row = g.coin();
    for (size_t i = 0; i < n; ++i) (row ? A[z][i] : A[i][z]) = 0;
    auto a = toM<double>(A);
    double d;
    PBT_CHECK("singular-refused", pbt::throws<std::runtime_error>([&] { delete a.pinv(&d); }), "a zero ", row ? "row" : "column");
    g.note(n, "x", n, "\n");
    g.nontrivial();
}

PBT_FACET(pseudo_inverse, 40000, 400000, "non-square full-rank matrix") {
    size_t n = static_cast<size_t>(g.integer(1, 5)), m = static_cast<size_t>(g.integer(1, 5));
    if (n == m) ++n;
    Mat A = genMat(g, n, m);
    Mat S = n >= m ? mul(tr(A), A) : mul(A, tr(A));
    LD det;
    Mat Si;
    if (!lu_inverse(S, det, Si) || maxabs(S) * maxabs(Si) > 1e5L) throw pbt::Discard{"rank deficient"};
    Mat P = n >= m ? mul(Si, tr(A)) : mul(tr(A), Si);
    auto a = toM<double>(A);
    double d;
    std::unique_ptr<xmm::Matrix<double>> p(a.pinv(&d));
    double tol = 1e-9 * static_cast<double>(maxabs(S) * maxabs(Si));
    same(*p, P, tol, tol * (1 + static_cast<double>(maxabs(P))), "pseudo-inverse");
    same(a, A, 0, 0, "operand-untouched");
    // Moore-Penrose
    Mat Q = zeros(m, n);
    for (size_t i = 0; i < m; ++i)
        for (size_t j = 0; j < n; ++j) Q[i][j] = p->data[static_cast<long>(i * n + j)];
    Mat AQA = mul(mul(A, Q), A), QAQ = mul(mul(Q, A), Q);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < m; ++j) {
            PBT_CLOSE("moore-penrose", static_cast<double>(AQA[i][j]), static_cast<double>(A[i][j]), 1e-6, 1e-6 * static_cast<double>(1 + maxabs(S) * maxabs(Si) * 1e-3L));
            PBT_CLOSE("moore-penrose", static_cast<double>(QAQ[j][i]), static_cast<double>(Q[j][i]), 1e-6, 1e-6 * static_cast<double>(1 + maxabs(Q)));
        }
    g.note(n, "x", m, "\n");
    g.nontrivial();
}

// storage: sharing, resizing, copying
PBT_FACET(storage, 40000, 300000, "a resize, copy or shared view took place") {
    size_t n = static_cast<size_t>(g.integer(1, 5)), m = static_cast<size_t>(g.integer(1, 5));
    Mat A = genMat(g, n, m);
    auto mat = std::make_shared<xmm::Matrix<double>>(toM<double>(A));
    int what = g.integer(0, 3);
    g.note("storage case ", what, " ", n, "x", m, "\n");
    g.nontrivial();
    if (what == 0) {  // resize, then use every element through the data iterator
        unsigned n2 = static_cast<unsigned>(g.integer(1, 8)), m2 = static_cast<unsigned>(g.integer(1, 8));
        if (n == m && g.coin()) {
            mat->resize(n2);
            m2 = n2;
        } else
            mat->resize(n2, m2);
        PBT_CHECK("resize", mat->nrows == n2 && mat->ncols == m2);
        Mat B = zeros(n2, m2);
        for (unsigned i = 0; i < n2; ++i)
            for (unsigned j = 0; j < m2; ++j) mat->data[i * m2 + j] = static_cast<double>(B[i][j] = i * 10 + j + 1);
        same(*mat, B, 0, 0, "resized");
        std::unique_ptr<xmm::Matrix<double>> t(mat->transpose());
        same(*t, tr(B), 0, 0, "resized-transpose");
    } else if (what == 1) {  // a copy is independent and survives its source
        xmm::Matrix<double> c(*mat);
        mat->data[0] = 99;
        same(c, A, 0, 0, "copy-independent");
        mat.reset();
        same(c, A, 0, 0, "copy-survives");
        c.data[0] = 5;
        A[0][0] = 5;
        std::unique_ptr<xmm::Matrix<double>> t(c.transpose());
        same(*t, tr(A), 0, 0, "copy-usable");
    } else if (what == 2) {
        xmm::Matrix<double> c(2u, 2u);
        c = *mat;
        mat->data[0] = 99;
        mat.reset();
        same(c, A, 0, 0, "assigned-independent");
    } else {  // shared data: the matrix is a view
        auto v = flat(A);
        xmm::Matrix<double> s(static_cast<unsigned>(n), static_cast<unsigned>(m), v.begin());
        same(s, A, 0, 0, "shared-view");
        v[0] = 42;
        A[0][0] = 42;
        same(s, A, 0, 0, "shared-view");
        s.swap_lines(0, static_cast<unsigned>(n) - 1);
        std::swap(A[0], A[n - 1]);
        PBT_CHECK("shared-write", v == flat(A));
        xmm::Matrix<double> s2(s);
        v[0] = 43;
        A[0][0] = 43;
        same(s2, A, 0, 0, "shared-copy-is-a-view");
    }
}
