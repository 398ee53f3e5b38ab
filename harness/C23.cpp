// UNITS: maths/pca/pca.c
#include "common.h"
#include "maths/Polyfit.h"
extern "C" {
#include "maths/pca/pca.h"
void covcol(double **data, int n, int m, double **symmat);
void tred2(double **a, int n, double *d, double *e);
void tqli(double *d, double *e, int n, double **z);
}
typedef std::vector<DV> Mat;
struct Rows { std::vector<double *> p; Rows(Mat &m) : p(m.size()) { for (size_t i = 0; i < m.size(); ++i) p[i] = m[i].empty() ? 0 : &m[i][0]; } operator double **() { return &p[0]; } };
// solve the least squares problem by modified Gram-Schmidt in long double, basis shifted and scaled; returns fitted values
static std::vector<long double> fitted(const DV &x, const DV &y, int m) {
    int n = x.size(); long double lo = x[0], hi = x[0]; for (int i = 0; i < n; ++i) { if (x[i] < lo) lo = x[i]; if (x[i] > hi) hi = x[i]; }
    std::vector<std::vector<long double> > Q; std::vector<long double> f(n, 0), r(n); for (int i = 0; i < n; ++i) r[i] = y[i];
    for (int j = 0; j < m; ++j) {
        std::vector<long double> v(n); for (int i = 0; i < n; ++i) { long double u = hi > lo ? (2 * (long double)x[i] - lo - hi) / (hi - lo) : 0; v[i] = j == 0 ? 1 : Q[j - 1][i] * u; }
        for (int rep = 0; rep < 2; ++rep) for (int k = 0; k < j; ++k) { long double d = 0; for (int i = 0; i < n; ++i) d += v[i] * Q[k][i]; for (int i = 0; i < n; ++i) v[i] -= d * Q[k][i]; }
        long double s = 0; for (int i = 0; i < n; ++i) s += v[i] * v[i]; s = sqrtl(s); for (int i = 0; i < n; ++i) v[i] /= s; Q.push_back(v);
        long double d = 0; for (int i = 0; i < n; ++i) d += r[i] * v[i]; for (int i = 0; i < n; ++i) { f[i] += d * v[i]; r[i] -= d * v[i]; }
    }
    return f;
}
static void poly() {
    int T = g_thorough() ? 20000 : 3000;
    for (int t = 0; t < T; ++t) {
        int m = rng.range(1, 6), n = std::max(2, rng.range(m, m + (t % 60 == 7 ? 800 : t % 3 ? 12 : 0))), kind = rng.range(0, 4); DV x(n), y(n), c0(m), coef(m, 7.0);
        if (kind == 2 && m > 3) kind = 0; double span = kind == 1 ? 10 : 2, off = kind == 2 ? 3 : kind == 3 ? -1 : 0;
        std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i; for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[rng.range(0, i)]);
        for (int i = 0; i < n; ++i) x[i] = off + span * (perm[i] + 0.3 * rng.uni()) / n;
        if (kind == 4) for (int i = 0; i < n; ++i) x[i] = perm[i] - n / 2;
        bool exact = rng.range(0, 2) == 0; for (int j = 0; j < m; ++j) c0[j] = rng.val() ; for (int j = 0; j < m; ++j) if (fabs(c0[j]) > 10) c0[j] = rng.sym(3);
        for (int i = 0; i < n; ++i) { if (exact) { y[i] = 0; for (int j = m - 1; j >= 0; --j) y[i] = y[i] * x[i] + c0[j]; } else y[i] = rng.sym(3); }
        if (rng.range(0, 9) == 0) for (int i = 0; i < n; ++i) y[i] = 2.5;
        CASE(fmt("polynomial with %d coefficients through x=%s y=%s", m, show(x).c_str(), show(y).c_str()));
        DV x1 = x, y1 = y; double r = TPolyFit::PolyFit2(x1, y1, coef);
        CHECK(x == x1 && y == y1, "input changed");
        if (int(coef.size()) != m) { FAIL("number of coefficients changed"); continue; }
        std::vector<long double> f = fitted(x, y, m); long double srs = 0, sy = 0, sy2 = 0, sc = 1; bool bad = false;
        // conditioning of the normal equations: squares of the powers of x
        double big = 1; for (int i = 0; i < n; ++i) { double p = pow(std::max(1.0, fabs(x[i])), m - 1); if (p > big) big = p; sc = std::max(sc, (long double)fabs(y[i])); }
        for (int i = 0; i < n; ++i) { long double v = 0; for (int j = m - 1; j >= 0; --j) v = v * x[i] + coef[j]; if (!(fabsl(v - f[i]) <= 1e-6L * sc * (kind == 1 || kind == 2 || kind == 4 ? 100 : 1) + 1e-12L * big * big)) { FAIL(fmt("fitted polynomial %s is %.12g at point %d, the least-squares one is %.12g", show(coef).c_str(), (double)v, i, (double)f[i])); bad = true; break; } srs += (f[i] - y[i]) * (f[i] - y[i]); sy += y[i]; sy2 += (long double)y[i] * y[i]; }
        if (bad) continue;
        long double v = sy2 - sy * sy / n, want = fabsl(v) < 1e-9 * (1 + sy2) ? -1 : srs / v >= 1 ? 0 : sqrtl(1 - srs / v);
        if (want >= 0 && fabsl(srs / v - 1) > 1e-3) CHECK(fabs(r - (double)want) < 2e-3, fmt("correlation %.9g, expected %.9g", r, (double)want));
    }
    // error indications leave the input alone
    { DV x(3, 1.0), y(3, 2.0), c(2, 5.0); CASE("one distinct abscissa, two coefficients (no unique fit)"); DV x1 = x, y1 = y; double r = TPolyFit::PolyFit2(x1, y1, c); CHECK(x == x1 && y == y1, "input changed"); (void)r; }
    { DV x(3), y(2, 2.0), c(2, 5.0); CASE("different numbers of x and y"); double r = TPolyFit::PolyFit2(x, y, c); CHECK(r == 0 && c[0] == 5 && c[1] == 5, "result without a fit"); }
    { DV x(1), y(1), c(1, 5.0); CASE("one point"); double r = TPolyFit::PolyFit2(x, y, c); CHECK(r == 0 && c[0] == 5, "result without a fit"); }
    { DV x(3), y(3), c; CASE("no coefficients"); double r = TPolyFit::PolyFit2(x, y, c); CHECK(r == 0 && c.empty(), "result without a fit"); }
}
static Mat table(int n, int m) {
    Mat d(n, DV(m)); int kind = rng.range(0, 4); DV s(m), o(m); int rank = rng.range(1, m);
    for (int j = 0; j < m; ++j) { s[j] = kind == 0 ? 1 : kind == 1 ? pow(10.0, -3.0 * j / m) : kind == 2 ? pow(10.0, -3.0 * (m - 1 - j) / m) : exp(2 * rng.sym(1)); o[j] = rng.sym(5); }
    Mat b(rank, DV(m)); for (int k = 0; k < rank; ++k) for (int j = 0; j < m; ++j) b[k][j] = rng.sym(1);
    for (int i = 0; i < n; ++i) if (kind == 4) { for (int k = 0; k < rank; ++k) { double a = rng.sym(2); for (int j = 0; j < m; ++j) d[i][j] += a * b[k][j]; } for (int j = 0; j < m; ++j) d[i][j] += o[j]; } else for (int j = 0; j < m; ++j) d[i][j] = rng.sym(1) * s[j] + o[j];
    if (rng.range(0, 5) == 0) { int j = rng.range(0, m - 1); for (int i = 0; i < n; ++i) d[i][j] = 1.5; }
    return d;
}
static void pca() {
    int T = g_thorough() ? 6000 : 900;
    for (int t = 0; t < T; ++t) {
        int m = rng.range(1, t % 10 ? 7 : 24), n = t % 50 == 3 ? rng.range(30, 400) : rng.range(1, 30); Mat d = table(n, m), d0 = d, cov(m, DV(m)), ref(m, DV(m)); std::string ds; for (int i = 0; i < n && i < 6; ++i) ds += show(d[i]);
        CASE(fmt("%d x %d data %s", n, m, ds.c_str()));
        DV mean(m); for (int j = 0; j < m; ++j) { for (int i = 0; i < n; ++i) mean[j] += d[i][j]; mean[j] /= n; }
        double sc = 0; for (int a = 0; a < m; ++a) for (int b = 0; b < m; ++b) { for (int i = 0; i < n; ++i) ref[a][b] += (d[i][a] - mean[a]) * (d[i][b] - mean[b]); sc = std::max(sc, fabs(ref[a][b])); }
        { Mat e = d; Rows re(e), rc(cov); covcol(re, n, m, rc); bool ok = true; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) if (!near(e[i][j], d[i][j] - mean[j], 1e-9)) ok = false; CHECK(ok, "covcol: data are not the centred data");
          ok = true; for (int a = 0; a < m; ++a) for (int b = 0; b < m; ++b) if (fabs(cov[a][b] - ref[a][b]) > 1e-9 * (1 + sc)) ok = false; CHECK(ok, "covcol: not the covariance matrix"); }
        // eigen decomposition
        Mat z = cov; DV ev(m), w(m); { Rows rz(z); tred2(rz, m, &ev[0], &w[0]); tqli(&ev[0], &w[0], m, rz); }
        for (int a = 0; a < m; ++a) for (int b = 0; b < m; ++b) { double g = 0, r = 0; for (int k = 0; k < m; ++k) { g += z[k][a] * z[k][b]; r += z[a][k] * ev[k] * z[b][k]; } if (!(fabs(g - (a == b)) < 1e-8)) { FAIL(fmt("eigenvectors %d and %d are not orthonormal (%.9g)", a, b, g)); return; } if (!(fabs(r - cov[a][b]) < 1e-8 * (1 + sc))) { FAIL(fmt("eigen decomposition does not reproduce element %d %d", a, b)); return; } }
        int nc = rng.range(0, m); Rows rd(d); pca_project(rd, n, m, nc);
        // projections: uncorrelated, decreasing variance, equal to the eigenvalues in decreasing order; columns beyond are the centred data
        DV evs = ev; std::sort(evs.rbegin(), evs.rend());
        bool ok = true; for (int i = 0; i < n; ++i) for (int j = nc; j < m; ++j) if (!near(d[i][j], d0[i][j] - mean[j], 1e-9)) ok = false; CHECK(ok, "columns beyond the components are not the centred data");
        for (int a = 0; a < nc; ++a) { double s = 0; for (int i = 0; i < n; ++i) s += d[i][a]; CHECK(fabs(s) < 1e-7 * n * (1 + sqrt(sc)), fmt("component %d has mean %.9g", a, s / n));
            for (int b = 0; b <= a; ++b) { double g = 0; for (int i = 0; i < n; ++i) g += d[i][a] * d[i][b]; if (!(fabs(g - (a == b ? evs[a] : 0)) < 1e-7 * (1 + sc))) { FAIL(fmt("component %d with component %d: %.9g, principal variance is %.9g", a, b, g, a == b ? evs[a] : 0.0)); return; } } }
        // distances between the points are kept when all components are taken
        if (nc == m) for (int i = 1; i < n; ++i) { double p = 0, q = 0; for (int j = 0; j < m; ++j) { p += (d[i][j] - d[0][j]) * (d[i][j] - d[0][j]); q += (d0[i][j] - d0[0][j]) * (d0[i][j] - d0[0][j]); } CHECK(fabs(p - q) < 1e-7 * (1 + q), fmt("distance of points 0 and %d changed from %.9g to %.9g", i, q, p)); }
    }
}
int main() { poly(); pca(); return done("1..6 coefficients, up to 18 points (some 800); data tables up to 30 x 24 (some 400 rows) incl. rank-deficient and constant columns", "random data, oracle by long double orthogonalisation / defining equations of the eigen decomposition"); }
