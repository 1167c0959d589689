// C28: linear algebra, fits, interpolation and quadrature satisfy their defining equations.
//
// Random operands (well conditioned, singular, ill shaped, scaled over many decades) are
// mirrored in long double; results are put back into the defining equations.
#include "ct.h"
#include "cantera/numerics/DenseMatrix.h"
#include "cantera/numerics/BandMatrix.h"
#include "cantera/numerics/polyfit.h"
#include "cantera/numerics/funcs.h"
#include "cantera/numerics/SystemJacobianFactory.h"
#include "cantera/numerics/SystemJacobian.h"
#include "cantera/numerics/AdaptivePreconditioner.h"
#include "cantera/numerics/EigenSparseDirectJacobian.h"
#include "cantera/numerics/eigen_sparse.h"
using namespace vh;
typedef long double ld;
typedef vector<vector<double>> M;

static M rnd(Rng& g, size_t n, size_t m, size_t kl = 999, size_t ku = 999) {
    M a(n, vector<double>(m));
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) if (!(i + ku < j || i > j + kl)) a[i][j] = g.p(0.15) ? 0 : g.uni(-1, 1);
    return a;
}
// rows and columns scaled, diagonal made heavy enough for a modest condition number
static void condition(Rng& g, M& a) {
    size_t n = a.size();
    vector<size_t> perm(n);
    for (size_t i = 0; i < n; i++) perm[i] = i;
    for (size_t i = 0; i < n; i++) { double s = 0; for (double x : a[i]) s += std::fabs(x); a[i][i] += (a[i][i] < 0 ? -1 : 1) * (0.3 + g.u() * s); }
}
static double normRow(const vector<double>& r) { double s = 0; for (double x : r) s += std::fabs(x); return s; }
// |A x - b| against eps |A||x|
static void residual(Run& r, const string& key, const M& a, const double* x, const double* b, const string& d) {
    size_t n = a.size();
    double an = 0, xn = 0;
    for (auto& row : a) an = std::max(an, normRow(row));
    for (size_t j = 0; j < a[0].size(); j++) xn = std::max(xn, std::fabs(x[j]));
    for (size_t i = 0; i < n; i++) {
        ld s = 0;
        for (size_t j = 0; j < a[i].size(); j++) s += ld(a[i][j]) * x[j];
        // backward error with room for pivot growth
        r.near(key, double(s), b[i], 0, 1e-12 * (n + 10) * an * xn + 1e-300, d);
    }
}
static vector<double> vec(Rng& g, size_t n) { vector<double> b(n); double s = g.logu(1e-8, 1e8); for (auto& x : b) x = g.p(0.1) ? 0 : s * g.uni(-1, 1); return b; }
static string throws(std::function<void()> f) {
    try { f(); } catch (CanteraError& e) { return "C"; } catch (std::exception& e) { return string("other ") + e.what(); }
    return "";
}

static void dense(Run& r, Rng& g) {
    size_t n = g.i(1, g.p(0.2) ? 40 : 9), m = g.p(0.5) ? n : g.i(1, 9);
    M a = rnd(g, n, m);
    if (n == m) condition(g, a);
    double sc = g.logu(1e-6, 1e6);
    for (auto& row : a) for (auto& x : row) x *= sc;
    r.describe(cat("dense ", n, "x", m));
    DenseMatrix A(n, m);
    if (g.p(0.3)) { DenseMatrix Z(g.i(0, 5), g.i(0, 5), 7.0); Z.resize(n, m, 3.0); r.check("resize@dense", Z.nRows() == n && Z.nColumns() == m); A = Z; }
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) A(i, j) = a[i][j];
    auto same = [&](const DenseMatrix& B) { if (B.nRows() != n || B.nColumns() != m) return false; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) if (B(i, j) != a[i][j]) return false; return true; };
    DenseMatrix B(A), C;
    C = A;
    r.check("copies@dense", same(A) && same(B) && same(C));
    for (size_t j = 0; j < m; j++) r.check("columns@dense", A.colPts()[j] == A.ptrColumn(j) && A.ptrColumn(j)[n - 1] == a[n - 1][j] && B.colPts()[j] == B.ptrColumn(j) && C.colPts()[j] == C.ptrColumn(j));
    // products
    auto b = vec(g, m), bl = vec(g, n);
    vector<double> p(n, 5e300), q(m, 5e300), inc = vec(g, n), inc0 = inc, p2(n);
    A.mult(b.data(), p.data());
    multiply(A, b.data(), p2.data());
    A.leftMult(bl.data(), q.data());
    increment(A, b.data(), inc.data());
    for (size_t i = 0; i < n; i++) {
        ld s = 0, t = 0;
        for (size_t j = 0; j < m; j++) { s += ld(a[i][j]) * b[j]; t += fabsl(ld(a[i][j]) * b[j]); }
        r.near("mult@dense", p[i], double(s), 0, 4e-15 * (m + 2) * double(t) + 1e-300);
        r.near("multiply@dense", p2[i], double(s), 0, 4e-15 * (m + 2) * double(t) + 1e-300);
        r.near("increment@dense", inc[i], double(s + inc0[i]), 0, 4e-15 * (m + 2) * double(t + fabsl(inc0[i])) + 1e-300);
    }
    for (size_t j = 0; j < m; j++) {
        ld s = 0, t = 0;
        for (size_t i = 0; i < n; i++) { s += ld(a[i][j]) * bl[i]; t += fabsl(ld(a[i][j]) * bl[i]); }
        r.near("leftMult@dense", q[j], double(s), 0, 4e-15 * (n + 2) * double(t) + 1e-300);
    }
    {
        size_t k = g.i(1, 5);
        M c = rnd(g, m, k);
        DenseMatrix X(m, k), P(n, k, 9.0);
        for (size_t i = 0; i < m; i++) for (size_t j = 0; j < k; j++) X(i, j) = c[i][j];
        A.mult(X, P);
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < k; j++) {
            ld s = 0, t = 0;
            for (size_t l = 0; l < m; l++) { s += ld(a[i][l]) * c[l][j]; t += fabsl(ld(a[i][l]) * c[l][j]); }
            r.near("product@dense", P(i, j), double(s), 0, 4e-15 * (m + 2) * double(t) + 1e-300);
        }
        DenseMatrix W(n + 1, k), V(m + 1, k);
        r.check("shape-refused@dense", throws([&] { A.mult(X, W); }) == "C" && throws([&] { DenseMatrix U(n, k); A.mult(V, U); }) == "C");
    }
    r.check("unchanged-by-products@dense", same(A));
    if (n != m) {
        vector<double> x(std::max(n, m), 1.0);
        r.check("non-square-refused@dense", throws([&] { solve(A, x.data()); }) == "C");
        return;
    }
    r.state(vh::hashv(a[0]));
    {
        size_t nrhs = g.i(1, 4), ldb = g.p(0.5) ? 0 : n + g.i(0, 3), L = ldb ? ldb : n;
        vector<double> x, rhs;
        for (size_t k = 0; k < nrhs; k++) { auto v = vec(g, n); rhs.insert(rhs.end(), v.begin(), v.end()); v.resize(L, -77.0); x.insert(x.end(), v.begin(), v.end()); }
        DenseMatrix S(A);
        int info = solve(S, x.data(), nrhs, ldb);
        r.check("solve-info@dense", info == 0);
        for (size_t k = 0; k < nrhs; k++) {
            residual(r, "solve@dense", a, &x[k * L], &rhs[k * n], cat("rhs ", k, " of ", nrhs));
            for (size_t j = n; j < L; j++) r.check("padding-untouched@dense", x[k * L + j] == -77.0);
        }
        DenseMatrix S2(A), X(n, nrhs);
        for (size_t k = 0; k < nrhs; k++) for (size_t i = 0; i < n; i++) X(i, k) = rhs[k * n + i];
        solve(S2, X);
        for (size_t k = 0; k < nrhs; k++) residual(r, "solve-matrix@dense", a, X.ptrColumn(k), &rhs[k * n], "");
    }
    {
        DenseMatrix I(A);
        size_t nn = g.p(0.5) ? npos : size_t(g.i(1, int(n)));
        size_t k = nn == npos ? n : nn;
        invert(I, nn);
        double an = 0, in = 0;
        for (size_t i = 0; i < k; i++) { double s = 0, t = 0; for (size_t j = 0; j < k; j++) { s += std::fabs(a[i][j]); t += std::fabs(I(i, j)); } an = std::max(an, s); in = std::max(in, t); }
        if (an * in < 1e8) for (size_t i = 0; i < k; i++) for (size_t j = 0; j < k; j++) {
            ld s = 0;
            for (size_t l = 0; l < k; l++) s += ld(I(i, l)) * a[l][j];
            r.near("inverse@dense", double(s), i == j, 0, 1e-13 * (k + 10) * an * in, cat("order ", k, " of ", n));
        }
        else r.count("ill-conditioned");
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i >= k || j >= k) r.check("outside-inverse-untouched@dense", I(i, j) == a[i][j]);
    }
    {
        // exactly singular
        DenseMatrix S(A);
        size_t z = g.i(0, int(n) - 1);
        bool col = g.p(0.5);
        for (size_t i = 0; i < n; i++) (col ? S(i, z) : S(z, i)) = 0;
        DenseMatrix S2(S), S3(S), S4(S);
        vector<double> x(n, 1.0);
        r.check("singular-reported@dense", throws([&] { solve(S, x.data()); }) == "C");
        r.check("singular-inverse-reported@dense", throws([&] { invert(S2); }) == "C");
        S3.m_useReturnErrorCode = 1; S4.m_useReturnErrorCode = 1;
        int info = 0, info2 = 0;
        r.check("singular-code@dense", throws([&] { info = solve(S3, x.data()); info2 = invert(S4); }) == "" && info > 0 && info2 > 0, cat(info, " ", info2));
    }
}

static void band(Run& r, Rng& g) {
    size_t n = g.i(1, g.p(0.2) ? 40 : 10), kl = g.i(0, int(std::min<size_t>(n, 5))), ku = g.i(0, int(std::min<size_t>(n, 5)));
    M a = rnd(g, n, n, kl, ku);
    condition(g, a);
    r.describe(cat("band ", n, " ", kl, " ", ku));
    BandMatrix A;
    if (g.p(0.3)) { BandMatrix Z(g.i(1, 6), g.i(0, 2), g.i(0, 2), 4.0); A = Z; if (g.p(0.5)) { vector<double> x(Z.nRows(), 1.0); for (size_t i = 0; i < A.nRows(); i++) A(i, i) = 99; A.solve(x.data()); } }
    A.resize(n, kl, ku, g.p(0.5) ? 0.0 : 0.0);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (!(i + ku < j || i > j + kl)) A(i, j) = a[i][j];
    auto same = [&](const BandMatrix& B) { for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (B(i, j) != a[i][j]) return false; return B.nRows() == n && B.nColumns() == n && B.nSubDiagonals() == kl && B.nSuperDiagonals() == ku; };
    r.check("entries@band", same(A));
    if (kl + 1 < n || ku + 1 < n) {
        // outside of the band reads as zero whatever was assigned there
        BandMatrix Z(A);
        vector<std::pair<size_t, size_t>> out;
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i + ku < j || i > j + kl) out.push_back({i, j});
        if (!out.empty()) {
            auto w = g.pick(out), v = g.pick(out);
            Z(w.first, w.second) = 3.5;
            r.check("outside-band-is-zero@band", Z(v.first, v.second) == 0 && same(Z), cat(w.first, ",", w.second, " ", Z(v.first, v.second)));
        }
    }
    auto b = vec(g, n);
    vector<double> p(n), q(n);
    A.mult(b.data(), p.data());
    A.leftMult(b.data(), q.data());
    double norm1 = 0;
    for (size_t i = 0; i < n; i++) {
        ld s = 0, t = 0, s2 = 0, t2 = 0, c = 0;
        for (size_t j = 0; j < n; j++) { s += ld(a[i][j]) * b[j]; t += fabsl(ld(a[i][j]) * b[j]); s2 += ld(a[j][i]) * b[j]; t2 += fabsl(ld(a[j][i]) * b[j]); c += fabsl(a[j][i]); }
        norm1 = std::max(norm1, double(c));
        r.near("mult@band", p[i], double(s), 0, 4e-15 * (n + 2) * double(t) + 1e-300);
        r.near("leftMult@band", q[i], double(s2), 0, 4e-15 * (n + 2) * double(t2) + 1e-300);
    }
    r.near("oneNorm@band", A.oneNorm(), norm1, 1e-13);
    {
        double v = -1, w = -1;
        size_t ir = A.checkRows(v), jc = A.checkColumns(w);
        auto rmax = [&](size_t i) { double m = 0; for (double x : a[i]) m = std::max(m, std::fabs(x)); return m; };
        auto cmax = [&](size_t j) { double m = 0; for (auto& row : a) m = std::max(m, std::fabs(row[j])); return m; };
        double mr = 1e300, mc = 1e300;
        for (size_t i = 0; i < n; i++) { mr = std::min(mr, rmax(i)); mc = std::min(mc, cmax(i)); }
        r.check("smallest-row@band", ir < n && v == mr && rmax(ir) == mr, cat(ir, " ", v, " ", mr));
        r.check("smallest-column@band", jc < n && w == mc && cmax(jc) == mc, cat(jc, " ", w, " ", mc));
    }
    r.state(vh::hashv(b));
    size_t nrhs = g.i(1, 3), ldb = g.p(0.5) ? 0 : n + g.i(0, 3), L = ldb ? ldb : n;
    vector<double> x, rhs;
    for (size_t k = 0; k < nrhs; k++) { auto v = vec(g, n); rhs.insert(rhs.end(), v.begin(), v.end()); v.resize(L, -77.0); x.insert(x.end(), v.begin(), v.end()); }
    A.solve(x.data(), nrhs, ldb);
    for (size_t k = 0; k < nrhs; k++) {
        residual(r, "solve@band", a, &x[k * L], &rhs[k * n], cat("rhs ", k));
        for (size_t j = n; j < L; j++) r.check("padding-untouched@band", x[k * L + j] == -77.0);
    }
    r.check("unchanged-by-solve@band", same(A));
    vector<double> y(n), b0 = b;
    A.solve(b.data(), y.data());
    residual(r, "solve-again@band", a, y.data(), b.data(), "");
    r.check("rhs-unchanged@band", b == b0);
    {
        // reciprocal condition number (an estimate, exact within a small factor)
        double rc = A.rcond(A.oneNorm());
        DenseMatrix I(n, n);
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) I(i, j) = a[i][j];
        invert(I);
        double in = 0;
        for (size_t j = 0; j < n; j++) { double s = 0; for (size_t i = 0; i < n; i++) s += std::fabs(I(i, j)); in = std::max(in, s); }
        double want = 1 / (in * norm1);
        if (want > 1e-10) r.check("rcond@band", rc > want * 0.9999 && rc < want * 20, cat(rc, " ", want));
    }
    // copies of a factored matrix, then changes
    BandMatrix B(A), C;
    C = A;
    r.check("copies@band", same(B) && same(C));
    for (BandMatrix* Z : {&B, &C, &A}) {
        auto c = vec(g, n);
        vector<double> z(n);
        Z->solve(c.data(), z.data());
        residual(r, "copy-solve@band", a, z.data(), c.data(), "");
    }
    // changing one element must be seen by the next solve
    size_t i = g.i(0, int(n) - 1);
    a[i][i] *= 2;
    for (BandMatrix* Z : {&A, &B}) {
        if (Z == &A) (*Z)(i, i) = a[i][i]; else Z->ptrColumn(i), Z->value(i, i) = a[i][i];
        auto c = vec(g, n);
        vector<double> z(n);
        Z->solve(c.data(), z.data());
        residual(r, "solve-after-change@band", a, z.data(), c.data(), "");
    }
    // ... and the copy made before is not affected
    a[i][i] /= 2;
    r.check("copy-independent@band", same(C));
    // singular
    for (size_t j = 0; j < n; j++) if (!(i + ku < j || i > j + kl)) C(i, j) = 0;
    vector<double> z(n, 1.0);
    r.check("singular-reported@band", throws([&] { C.solve(z.data()); }) == "C");
    C.zero();
    for (size_t k = 0; k < n; k++) for (size_t j = 0; j < n; j++) if (C(k, j) != 0) r.check("zero@band", false);
    C.bfill(1.5);
    r.check("fill@band", C(0, 0) == 1.5 && C(n - 1, n - 1) == 1.5);
}

static void sparse(Run& r, Rng& g) {
    size_t n = g.i(1, 12);
    bool direct = g.p(0.5);
    // Eigen's ILUT keeps at most n/2 entries in each half of a row, so the pattern of the
    // adaptive cases is tridiagonal: its factors stay within that
    if (!direct) n += 6;
    r.describe(cat("sparse ", direct ? "direct " : "adaptive ", n));
    auto J = newSystemJacobian(direct ? "eigen-sparse-direct" : "Adaptive");
    J->initialize(n);
    if (!direct) { // keep every fill-in: the solve is then a complete factorization
        auto A = std::dynamic_pointer_cast<AdaptivePreconditioner>(J);
        A->setIlutFillFactor(1000);
        A->setIlutDropTol(1e-18);
    }
    int rounds = g.i(1, 3);
    for (int round = 0; round < rounds; round++) {
        M a(n, vector<double>(n));
        J->reset();
        // repeated entries add up
        int ne = g.i(int(n), int(3 * n));
        for (size_t i = 0; i < n; i++) { double v = -g.uni(1, 3); a[i][i] += v; J->setValue(i, i, v); }
        for (int k = 0; k < ne; k++) { size_t i = g.i(0, int(n) - 1), j = direct ? g.i(0, int(n) - 1) : std::min(n - 1, i + g.i(0, 1)); if (!direct && g.p(0.5)) std::swap(i, j); double v = g.uni(-1, 1) * 0.3; a[i][j] += v; J->setValue(i, j, v); }
        auto S = std::dynamic_pointer_cast<EigenSparseJacobian>(J);
        Eigen::MatrixXd D = Eigen::MatrixXd(S->jacobian());
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) r.near("entries@sparse", D(i, j), a[i][j], 1e-14, 1e-15);
        M sys = a;
        if (g.p(0.5)) {
            double gam = g.logu(1e-6, 10);
            J->setGamma(gam);
            if (!direct && g.p(0.5)) std::dynamic_pointer_cast<AdaptivePreconditioner>(J)->setThreshold(0.0);
            else if (!direct) std::dynamic_pointer_cast<AdaptivePreconditioner>(J)->setThreshold(0.0);
            J->updatePreconditioner();
            for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) sys[i][j] = (i == j) - gam * a[i][j];
        } else {
            double rdt = g.logu(1e-3, 1e3);
            if (!direct) std::dynamic_pointer_cast<AdaptivePreconditioner>(J)->setThreshold(0.0);
            vector<int> mask(n);
            for (auto& m : mask) m = g.p(0.7);
            J->updateTransient(rdt, mask.data());
            for (size_t i = 0; i < n; i++) sys[i][i] -= rdt * mask[i];
        }
        auto b = vec(g, n), b0 = b;
        vector<double> x(n, 9.0);
        // a matrix with a tiny pivot would be ill conditioned
        try { J->solve(n, b.data(), x.data()); } catch (CanteraError&) { r.count("sparse-refused"); continue; }
        double big = 0, bn = 0;
        for (double v : x) big = std::max(big, std::fabs(v));
        for (double v : b0) bn = std::max(bn, std::fabs(v));
        if (direct) residual(r, "solve@sparse-direct", sys, x.data(), b0.data(), "");
        else {
            // incomplete factorization with a drop tolerance of 1e-12 and full fill
            for (size_t i = 0; i < n; i++) { ld s = 0; for (size_t j = 0; j < n; j++) s += ld(sys[i][j]) * x[j]; r.near("solve@sparse-adaptive", double(s), b0[i], 0, 1e-8 * (normRow(sys[i]) * big + bn)); }
        }
        r.check("rhs-unchanged@sparse", b == b0);
        r.state(vh::hashv(x));
    }
    r.check("unknown-refused@sparse", throws([] { newSystemJacobian("no-such"); }) == "C");
}

static void fits(Run& r, Rng& g) {
    size_t n = g.i(2, 25), deg = g.i(0, int(std::min<size_t>(n - 1, 6)));
    r.describe(cat("polyfit ", n, " ", deg));
    vector<double> x(n), y(n), w(n), p(deg + 3, -55.0);
    double c0 = g.uni(-2, 2), wd = g.logu(0.1, 2);
    for (size_t i = 0; i < n; i++) x[i] = c0 + wd * (2.0 * i / (n - 1) - 1 + 0.3 / n * g.u());
    bool exact = g.p(0.4), wt = g.p(0.5);
    vector<double> tr(deg + 1);
    for (auto& t : tr) t = g.uni(-2, 2);
    for (size_t i = 0; i < n; i++) { y[i] = 0; for (size_t k = deg + 1; k-- > 0;) y[i] = y[i] * x[i] + tr[k]; if (!exact) y[i] += g.uni(-1, 1); w[i] = wt ? g.logu(0.1, 10) : 1; }
    vector<double> neg(n, -1.0);
    const double* wp = wt ? w.data() : g.p(0.5) ? nullptr : neg.data();
    double rms = polyfit(n, deg, x.data(), y.data(), wp, p.data());
    r.check("beyond-end-untouched@polyfit", p[deg + 1] == -55.0 && p[deg + 2] == -55.0);
    // normal equations: the residual is orthogonal to every power
    vector<double> res(n);
    ld ss = 0, big = 0;
    double pm = 0;
    for (size_t i = 0; i < n; i++) {
        ld s = 0, q = 1, m = 0;
        for (size_t k = 0; k <= deg; k++) { s += p[k] * q; m += fabsl(p[k] * q); q *= x[i]; }
        res[i] = double(s - y[i]); ss += w[i] * res[i] * res[i];
        big = std::max(big, m + fabsl(y[i]));
    }
    for (double v : p) pm = std::max(pm, std::fabs(v));
    r.near("rms@polyfit", rms, double(sqrtl(ss / n)), 1e-6, 1e-10 * double(big));
    for (size_t k = 0; k <= deg; k++) {
        ld s = 0, t = 0;
        for (size_t i = 0; i < n; i++) { ld q = w[i] * powl(x[i], k); s += q * res[i]; t += fabsl(q); }
        r.near("orthogonal@polyfit", double(s), 0, 0, 1e-9 * double(t * big), cat("power ", k));
    }
    if (exact) for (size_t i = 0; i < n; i++) r.near("reproduces@polyfit", res[i], 0, 0, 1e-9 * double(big));
    r.state(vh::hashv(p));
    r.check("degree-refused@polyfit", throws([&] { vector<double> z(n + 5); polyfit(n, n + g.i(0, 3), x.data(), y.data(), wp, z.data()); }) == "C");
}

static void tables(Run& r, Rng& g) {
    size_t n = g.i(2, 14);
    r.describe(cat("table ", n));
    vector<double> x(n), y(n);
    double t = g.uni(-5, 5);
    for (size_t i = 0; i < n; i++) { x[i] = t; t += g.logu(1e-3, 3); y[i] = g.uni(-4, 4); }
    for (int k = 0; k < 10; k++) {
        double z = k == 0 ? x[0] : k == 1 ? x[n - 1] : k == 2 ? x[0] - 1 : k == 3 ? x[n - 1] + 1 : k == 4 ? g.pick(x) : g.uni(x[0], x[n - 1]);
        double want;
        if (z <= x[0]) want = y[0];
        else if (z >= x[n - 1]) want = y[n - 1];
        else { size_t j = 0; while (z > x[j + 1]) j++; ld f = (ld(z) - x[j]) / (ld(x[j + 1]) - x[j]); want = double(y[j] * (1 - f) + y[j + 1] * f); }
        r.near("interpolate@table", linearInterp(z, x, y), want, 0, 1e-12, cat("at ", z));
    }
    Eigen::ArrayXd X(n), Y(n), Q(n);
    double a = g.uni(-1, 1), b = g.uni(-1, 1), c = g.uni(-1, 1);
    for (size_t i = 0; i < n; i++) { X[i] = x[i]; Y[i] = y[i]; Q[i] = a + b * x[i] + c * x[i] * x[i]; }
    ld trap = 0, mag = 0;
    for (size_t i = 0; i + 1 < n; i++) { trap += (ld(y[i]) + y[i + 1]) * (ld(x[i + 1]) - x[i]) / 2; mag += (fabsl(y[i]) + fabsl(y[i + 1])) * (x[i + 1] - x[i]); }
    r.near("trapezoidal@quadrature", trapezoidal(Y, X), double(trap), 0, 1e-13 * double(mag));
    r.near("named-trapezoidal@quadrature", numericalQuadrature("trapezoidal", Y, X), trapezoidal(Y, X), 0);
    r.near("named-simpson@quadrature", numericalQuadrature("simpson", Y, X), simpson(Y, X), 0);
    // Simpson's rule integrates quadratics exactly over pairs of intervals; the last of an
    // odd number of intervals is a trapezoid
    size_t e = n % 2 ? n - 1 : n - 2;
    auto F = [&](ld u) { return a * u + b * u * u / 2 + c * u * u * u / 3; };
    ld S = F(x[e]) - F(x[0]), sm = 0;
    if (n % 2 == 0) S += (ld(Q[n - 1]) + Q[n - 2]) * (ld(x[n - 1]) - x[n - 2]) / 2;
    // weights of very unequal intervals are large
    for (size_t i = 1; i < e; i += 2) { ld h0 = x[i] - x[i - 1], h1 = x[i + 1] - x[i], h = h0 + h1; sm += h / 6 * (fabsl(2 - h1 / h0) * fabsl(Q[i - 1]) + h * h / (h0 * h1) * fabsl(Q[i]) + fabsl(2 - h0 / h1) * fabsl(Q[i + 1])) * (1 + (fabsl(x[i]) + 1) * 1 / std::min(h0, h1)); }
    r.near("simpson@quadrature", simpson(Q, X), double(S), 0, 1e-13 * double(sm + mag) + 1e-12);
    r.state(vh::hashv(y));
    Eigen::ArrayXd X2 = X; X2[g.i(1, int(n) - 1)] = X[0];
    Eigen::ArrayXd L(n + 1); L.setConstant(1.0);
    r.check("not-increasing-refused@quadrature", throws([&] { trapezoidal(Y, X2); }) == "C" && throws([&] { simpson(Y, X2); }) == "C");
    r.check("length-refused@quadrature", throws([&] { trapezoidal(L, X); }) == "C" && throws([&] { simpson(L, X); }) == "C");
    r.check("unknown-refused@quadrature", throws([&] { numericalQuadrature("midpoint", Y, X); }) == "C");
}

int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    return drive(r, [](Run& r, size_t, Rng& g) {
        switch (g.i(0, 6)) {
        case 0: case 1: dense(r, g); break;
        case 2: case 3: band(r, g); break;
        case 4: sparse(r, g); break;
        case 5: fits(r, g); break;
        default: tables(r, g);
        }
    });
}
