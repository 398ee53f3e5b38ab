// UNITS: dsp/segmentation/ClusterMeltSegmenter.cpp dsp/segmentation/Segmenter.cpp dsp/segmentation/cluster_segmenter.c dsp/segmentation/cluster_melt.c hmm/hmm.c maths/pca/pca.c dsp/transforms/FFT.cpp dsp/chromagram/ConstantQ.cpp dsp/rateconversion/Decimator.cpp dsp/mfcc/MFCC.cpp maths/MathUtilities.cpp ext/kissfft/kiss_fft.c ext/kissfft/tools/kiss_fftr.c ext/clapack/src/dgetf2.c ext/clapack/src/dgetrf.c ext/clapack/src/dgetri.c ext/clapack/src/dlaswp.c ext/clapack/src/dtrti2.c ext/clapack/src/dtrtri.c ext/clapack/src/exit_.c ext/clapack/src/f77_aloc.c ext/clapack/src/i_nint.c ext/clapack/src/ieeeck.c ext/clapack/src/ilaenv.c ext/clapack/src/iparmq.c ext/clapack/src/pow_di.c ext/clapack/src/s_cat.c ext/clapack/src/s_cmp.c ext/clapack/src/s_copy.c ext/clapack/src/xerbla.c ext/cblas/src/cblas_ddot.c ext/cblas/src/cblas_dgemm.c ext/cblas/src/cblas_globals.c ext/cblas/src/cblas_xerbla.c ext/cblas/src/ddot.c ext/cblas/src/dgemm.c ext/cblas/src/dgemv.c ext/cblas/src/dger.c ext/cblas/src/dlamch.c ext/cblas/src/dscal.c ext/cblas/src/dswap.c ext/cblas/src/dtrmm.c ext/cblas/src/dtrmv.c ext/cblas/src/dtrsm.c ext/cblas/src/idamax.c ext/cblas/src/lsame.c
#define protected public
#define private public
#include "dsp/segmentation/ClusterMeltSegmenter.h"
#undef protected
#undef private
#include "common.h"
extern "C" {
#include "hmm/hmm.h"
#include "dsp/segmentation/cluster_melt.h"
#include "dsp/segmentation/cluster_segmenter.h"
void cq2chroma(double **cq, int nframes, int ncoeff, int bins, double **chroma);
void mpeg7_constq(double **features, int nframes, int ncoeff);
void create_histograms(int *x, int nx, int m, int hlen, double *h);
double kldist(double *a, double *b, int n);
}
extern "C" { int s_wsfe(void *) { return 0; } int do_fio(void *, char *, long) { return 0; } int e_wsfe() { return 0; } }   // f2c runtime, used by a warning only
#include <ctime>
extern "C" time_t time(time_t *t) throw() { static time_t n = 1000 + g_seed(); ++n; if (t) *t = n; return n; }   // hmm_init seeds rand() from it: keep runs reproducible
typedef std::vector<DV> Mat; typedef std::vector<int> IV;
// rows allocated separately so that AddressSanitizer sees any access outside a row
struct Rows { double **p; int n; Rows(const Mat &m) : p((double **)malloc(m.size() * sizeof(double *) + 1)), n(m.size()) { for (int i = 0; i < n; ++i) { p[i] = (double *)malloc(m[i].size() * sizeof(double) + (m[i].empty() ? 1 : 0)); for (size_t j = 0; j < m[i].size(); ++j) p[i][j] = m[i][j]; } }
    ~Rows() { for (int i = 0; i < n; ++i) free(p[i]); free(p); } operator double **() { return p; } private: Rows(const Rows &); };
static Mat mat(int r, int c, double v = 0) { return Mat(r, DV(c, v)); }
static std::string showi(const IV &v) { std::string s = "["; for (size_t i = 0; i < v.size() && i < 60; ++i) s += fmt(i ? ",%d" : "%d", v[i]); return s + "]"; }
static std::string showm(const Mat &m) { std::string s; for (size_t i = 0; i < m.size() && i < 8; ++i) s += show(m[i], 6); return s; }
static void rowsum(const std::string &w, const double *p, int n) {
    double s = 0; for (int i = 0; i < n; ++i) { s += p[i]; if (!(p[i] >= 0)) FAIL(fmt("%s: entry %d is %g", w.c_str(), i, p[i])); } if (!(fabs(s - 1) < 1e-6)) FAIL(fmt("%s sums to %.17g", w.c_str(), s));
}
static void checkSegs(const std::vector<Segment> &s, const int *q, int len, int hop) {
    CHECK(!s.empty(), "no segments"); if (s.empty()) return; CHECK(s[0].start == 0, fmt("first segment starts at %d", s[0].start)); CHECK(s.back().end == len * hop, fmt("last segment ends at %d, not %d", s.back().end, len * hop));
    size_t k = 0;
    for (size_t i = 0; i < s.size(); ++i) {
        CHECK(s[i].start < s[i].end, fmt("segment %d runs from %d to %d", (int)i, s[i].start, s[i].end));
        if (i) { CHECK(s[i].start == s[i - 1].end, fmt("segment %d starts at %d, previous ended at %d", (int)i, s[i].start, s[i - 1].end)); CHECK(s[i].type != s[i - 1].type, fmt("segments %d and %d have the same type", (int)i - 1, (int)i)); }
    }
    if (!q) return;
    for (int f = 0; f < len; ++f) { while (k < s.size() && s[k].end <= f * hop) ++k; if (k < s.size() && s[k].start <= f * hop && s[k].type != q[f]) { FAIL(fmt("frame %d is in a segment of type %d, assignment %d", f, s[k].type, q[f])); return; } }
}
static void segmentation() {
    int T = g_thorough() ? 20000 : 2500;
    for (int t = 0; t < T; ++t) {
        ClusterMeltSegmenterParams P; P.hopSize = t % 3 ? 0.2 : 0.01 * rng.range(1, 100); P.nclusters = rng.range(1, 12); ClusterMeltSegmenter s(P); s.samplerate = t % 2 ? 44100 : rng.range(8000, 96000);
        int reps = rng.range(1, 2);
        for (int r = 0; r < reps; ++r) {
            int len = t % 50 == 7 ? rng.range(200, 3000) : rng.range(1, 40), stay = rng.range(0, 6); IV q(len); for (int i = 0; i < len; ++i) q[i] = i && rng.range(0, 7) < stay ? q[i - 1] : rng.range(1, P.nclusters);
            CASE(fmt("makeSegmentation rate=%d hop=%d q=%s", s.samplerate, s.getHopsize(), showi(q).c_str())); IV q0 = q; int *qq = (int *)malloc(len * sizeof(int)); for (int i = 0; i < len; ++i) qq[i] = q[i];
            s.makeSegmentation(qq, len); for (int i = 0; i < len; ++i) CHECK(qq[i] == q0[i], "assignments modified"); free(qq);
            CHECK(s.getSegmentation().nsegtypes == P.nclusters, "nsegtypes"); CHECK(s.getSegmentation().samplerate == s.samplerate, "samplerate"); checkSegs(s.getSegmentation().segments, &q0[0], len, s.getHopsize());
        }
    }
}
static void chroma() {
    int T = g_thorough() ? 8000 : 1000;
    for (int t = 0; t < T; ++t) {
        int n = rng.range(0, 5), bins = rng.range(1, 12), nc = bins * rng.range(0, 4) + (t % 3 ? 0 : rng.range(0, bins - 1)); Mat x; for (int i = 0; i < n; ++i) x.push_back(rng.vec(nc)); CASE(fmt("cq2chroma nframes=%d ncoeff=%d bins=%d %s", n, nc, bins, showm(x).c_str()));
        Rows X(x), C(mat(n, bins, 5)); cq2chroma(X, n, nc, bins, C);
        for (int i = 0; i < n; ++i) { DV w(bins, 0.0); for (int j = 0; j < nc / bins * bins; ++j) w[j % bins] += fabs(x[i][j]); eqv("chroma", DV(C[i], C[i] + bins), w); }
    }
    for (int t = 0; t < T; ++t) {
        int n = rng.range(1, 6), nc = rng.range(1, 12); Mat x = mat(n, nc + 1, 7); for (int i = 0; i < n; ++i) for (int j = 0; j < nc; ++j) x[i][j] = t % 4 == 0 && rng.range(0, 3) == 0 ? 0 : rng.uni() * pow(10, rng.range(-3, 3)); CASE(fmt("mpeg7_constq nframes=%d ncoeff=%d %s", n, nc, showm(x).c_str()));
        Rows X(x); mpeg7_constq(X, n, nc); Mat w = x; double mx = 0;
        for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < nc; ++j) { w[i][j] = 10 * log10(x[i][j] + 2.220446049250313e-16); s += w[i][j] * w[i][j]; } s = sqrt(s); for (int j = 0; j < nc; ++j) w[i][j] /= s; w[i][nc] = s; if (s > mx) mx = s; }
        for (int i = 0; i < n; ++i) { w[i][nc] /= mx; eqv("normalised", DV(X[i], X[i] + nc + 1), w[i]); }
    }
}
static void hist() {
    int T = g_thorough() ? 20000 : 2500;
    for (int t = 0; t < T; ++t) {
        int hl = 1 + 2 * rng.range(0, t % 40 == 5 ? 60 : 8), nx = hl + (t % 40 == 5 ? rng.range(100, 600) : t % 4 ? rng.range(0, 20) : 0), m = rng.range(1, 8); IV x(nx); int stay = rng.range(0, 6); for (int i = 0; i < nx; ++i) x[i] = i && rng.range(0, 7) < stay ? x[i - 1] : rng.range(0, m - 1);
        CASE(fmt("create_histograms m=%d hlen=%d x=%s", m, hl, showi(x).c_str())); Buf h(nx * m, 9); create_histograms(&x[0], nx, m, hl, h);
        int k = hl / 2;
        for (int i = 0; i < nx; ++i) {
            int c = std::min(std::max(i, k), nx - k - 1); DV w(m, 0.0); for (int u = c - k; u <= c + k; ++u) w[x[u]] += 1; double s = 0; for (int j = 0; j < m; ++j) s += w[j] * w[j]; for (int j = 0; j < m; ++j) w[j] /= s; eqv(fmt("histogram %d", i), DV(h.p + i * m, h.p + i * m + m), w);
        }
    }
    for (int t = 0; t < T; ++t) {
        int n = rng.range(0, 10); DV a(n), b(n); for (int i = 0; i < n; ++i) { a[i] = rng.range(0, 3) ? rng.uni() : 0; b[i] = rng.range(0, 3) ? rng.uni() : 0; if (t % 5 == 0) b[i] = a[i]; } CASE("kldist a=" + show(a) + " b=" + show(b)); Buf A(a), B(b); double g = kldist(A, B, n), w = 0;
        for (int i = 0; i < n; ++i) { double q = (a[i] + b[i]) / 2; if (a[i] > 0) w += a[i] * log(a[i] / q); if (b[i] > 0) w += b[i] * log(b[i] / q); } eq("kldist", g, w); CHECK(kldist(B, A, n) == g || near(kldist(B, A, n), g), "not symmetric"); if (a == b) CHECK(fabs(g) < 1e-9, "distance of a histogram from itself");
    }
}
static void melt() {
    int T = g_thorough() ? 600 : 80;
    for (int t = 0; t < T; ++t) {
        int m = rng.range(1, 8), n = rng.range(1, 40), k = rng.range(1, 6), l = rng.range(-1, 25), ns = rng.range(1, 20); DV h(n * m); int kind = rng.range(0, 2), blk = rng.range(1, 8);
        for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < m; ++j) { h[i * m + j] = kind == 0 ? rng.uni() : kind == 1 ? (j == (i / blk) % m ? 1 : 0) : rng.range(0, 4); s += h[i * m + j] * h[i * m + j]; } for (int j = 0; j < m; ++j) if (s > 0) h[i * m + j] /= s; }
        DV B(ns); B[0] = rng.range(0, 3) ? 100 : 1e5 * rng.uni(); for (int i = 1; i < ns; ++i) B[i] = 0.7 * B[i - 1]; CASE(fmt("cluster_melt m=%d n=%d t=%d k=%d l=%d B0=%g h=%s", m, n, ns, k, l, B[0], show(h, 24).c_str()));
        Buf H(h), S(B); int *c = (int *)malloc(n * sizeof(int)); cluster_melt(H, m, n, S, ns, k, l, c); for (int i = 0; i < n; ++i) if (c[i] < 1 || c[i] > k) { FAIL(fmt("assignment %d is %d of %d clusters", i, c[i], k)); break; } free(c); same("histograms", H.v(), h); same("schedule", S.v(), B);
    }
}
// ---- HMM
static void stochastic(Mat &a, bool zeros) { for (size_t i = 0; i < a.size(); ++i) { double s = 0; for (size_t j = 0; j < a[i].size(); ++j) { a[i][j] = zeros && rng.range(0, 2) == 0 ? 0 : rng.uni() + 1e-3; s += a[i][j]; } if (s == 0) { a[i][rng.range(0, a[i].size() - 1)] = 1; s = 1; } for (size_t j = 0; j < a[i].size(); ++j) a[i][j] /= s; } }
static void fb() {
    int TT = g_thorough() ? 8000 : 1200;
    for (int c = 0; c < TT; ++c) {
        int N = rng.range(1, 4), T = rng.range(1, 6); bool zeros = c % 3 == 0; Mat p = mat(1, N), a = mat(N, N), b = mat(T, N); stochastic(p, zeros); stochastic(a, zeros); double mag = c % 5 == 0 ? 1e-150 : c % 5 == 1 ? 1e100 : 1; for (int t = 0; t < T; ++t) for (int i = 0; i < N; ++i) b[t][i] = mag * (rng.uni() + 1e-6);
        CASE(fmt("forward_backwards N=%d T=%d p0=%s a=%s b=%s", N, T, show(p[0]).c_str(), showm(a).c_str(), showm(b).c_str()));
        Rows P(p), A(a), B(b), G(mat(T, N, 3)); std::vector<Rows *> xs; std::vector<double **> xp; for (int t = 0; t < T; ++t) { xs.push_back(new Rows(mat(N, N, 3))); xp.push_back(*xs.back()); }
        int it = rng.range(1, 3); double ll = 17, l1 = 5, l2 = 6; forward_backwards(&xp[0], G, &ll, &l1, &l2, it, N, T, P[0], A, B);
        // brute force over all state paths
        long np = 1; for (int t = 0; t < T; ++t) np *= N; long double tot = 0; std::vector<std::vector<long double> > g(T, std::vector<long double>(N, 0)); std::vector<std::vector<std::vector<long double> > > x(T, std::vector<std::vector<long double> >(N, std::vector<long double>(N, 0)));
        for (long u = 0; u < np; ++u) { long v = u; IV s(T); for (int t = 0; t < T; ++t) { s[t] = v % N; v /= N; } long double w = p[0][s[0]] * (long double)b[0][s[0]]; for (int t = 1; t < T; ++t) w *= (long double)a[s[t - 1]][s[t]] * b[t][s[t]]; tot += w; for (int t = 0; t < T; ++t) { g[t][s[t]] += w; if (t) x[t - 1][s[t - 1]][s[t]] += w; } }
        eq("log likelihood", ll, logl(tot), 1e-9); eq("previous log likelihood", l1, 17);
        for (int t = 0; t < T; ++t) { DV w(N); for (int i = 0; i < N; ++i) w[i] = g[t][i] / tot; eqv(fmt("gamma[%d]", t), DV(G[t], G[t] + N), w, 1e-8); rowsum(fmt("gamma[%d]", t), G[t], N); }
        for (int t = 0; t + 1 < T; ++t) for (int i = 0; i < N; ++i) { DV w(N); for (int j = 0; j < N; ++j) w[j] = x[t][i][j] / tot; eqv(fmt("xi[%d][%d]", t, i), DV(xp[t][i], xp[t][i] + N), w, 1e-8); }
        for (int i = 0; i < N; ++i) same("transition matrix", DV(A[i], A[i] + N), a[i]);
        // re-estimation keeps probabilities and gives the weighted means and pooled covariance
        int L = rng.range(1, 3); Mat X; for (int t = 0; t < T; ++t) { DV v(L); for (int d = 0; d < L; ++d) v[d] = rng.sym(3); X.push_back(v); } Mat mu0 = mat(N, L); for (int i = 0; i < N; ++i) for (int d = 0; d < L; ++d) mu0[i][d] = rng.sym(2);
        Rows XX(X), MU(mu0), CV(mat(L, L, 4)); Mat Gm = mat(T, N); for (int t = 0; t < T; ++t) for (int i = 0; i < N; ++i) Gm[t][i] = G[t][i];
        CASE(fmt("baum_welch N=%d T=%d L=%d p0=%s a=%s b=%s x=%s", N, T, L, show(p[0]).c_str(), showm(a).c_str(), showm(b).c_str(), showm(X).c_str())); baum_welch(P[0], A, MU, CV, N, T, L, XX, &xp[0], G);
        rowsum("initial distribution", P[0], N); eqv("initial distribution", DV(P[0], P[0] + N), Gm[0]);
        for (int i = 0; i < N; ++i) {
            double s = 0, sg = 0; for (int t = 0; t < T; ++t) sg += Gm[t][i]; for (int t = 0; t + 1 < T; ++t) s += Gm[t][i];
            if (s > 1e-6) { rowsum(fmt("transition row %d", i), A[i], N); DV w(N, 0.0); for (int j = 0; j < N; ++j) { for (int t = 0; t + 1 < T; ++t) w[j] += xp[t][i][j]; w[j] /= s; } eqv(fmt("transition row %d", i), DV(A[i], A[i] + N), w, 1e-8); }
            else if (T > 1 && s == 0) rowsum(fmt("transition row %d (state never occupied)", i), A[i], N);
            if (sg > 1e-6) { DV w(L, 0.0); for (int d = 0; d < L; ++d) { for (int t = 0; t < T; ++t) w[d] += Gm[t][i] * X[t][d]; w[d] /= sg; } eqv(fmt("mean of state %d", i), DV(MU[i], MU[i] + L), w, 1e-8); }
            else for (int d = 0; d < L; ++d) CHECK(MU[i][d] == MU[i][d], fmt("mean of state %d is not a number", i));
        }
        for (int d = 0; d < L; ++d) { DV w(L, 0.0); for (int e = 0; e < L; ++e) { for (int t = 0; t < T; ++t) for (int j = 0; j < N; ++j) w[e] += Gm[t][j] * (X[t][d] - mu0[j][d]) * (X[t][e] - mu0[j][e]); w[e] /= T; } eqv("covariance", DV(CV[d], CV[d] + L), w, 1e-8); }
        for (int t = 0; t < T; ++t) { same("observations", DV(XX[t], XX[t] + L), X[t]); delete xs[t]; }
    }
}
static long double det_inv(Mat c, Mat &inv) {   // Gauss-Jordan in long double
    int n = c.size(); std::vector<std::vector<long double> > m(n, std::vector<long double>(2 * n, 0)); for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) m[i][j] = c[i][j]; m[i][n + i] = 1; } long double det = 1;
    for (int i = 0; i < n; ++i) { int p = i; for (int r = i; r < n; ++r) if (fabsl(m[r][i]) > fabsl(m[p][i])) p = r; if (p != i) { std::swap(m[p], m[i]); det = -det; } long double v = m[i][i]; det *= v; for (int j = 0; j < 2 * n; ++j) m[i][j] /= v; for (int r = 0; r < n; ++r) if (r != i) { long double f = m[r][i]; for (int j = 0; j < 2 * n; ++j) m[r][j] -= f * m[i][j]; } }
    inv = mat(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) inv[i][j] = m[i][n + j]; return det;
}
static void cov(Mat &c, int L) { Mat g = mat(L, L); for (int i = 0; i < L; ++i) for (int j = 0; j < L; ++j) g[i][j] = rng.sym(1); c = mat(L, L); for (int i = 0; i < L; ++i) for (int j = 0; j < L; ++j) { for (int k = 0; k < L; ++k) c[i][j] += g[i][k] * g[j][k]; if (i == j) c[i][j] += 0.3; } }
static void viterbi() {
    int TT = g_thorough() ? 10000 : 1500;
    for (int c = 0; c < TT; ++c) {
        int N = rng.range(1, 4), T = rng.range(1, 6), L = rng.range(1, 3); bool zeros = c % 3 == 0; Mat p = mat(1, N), a = mat(N, N), cv, iv, mu = mat(N, L), x = mat(T, L); stochastic(p, zeros); stochastic(a, zeros); cov(cv, L); long double det = det_inv(cv, iv);
        double far = c % 4 == 1 ? 3000 : 0; for (int i = 0; i < N; ++i) for (int d = 0; d < L; ++d) mu[i][d] = rng.sym(2); for (int t = 0; t < T; ++t) for (int d = 0; d < L; ++d) x[t][d] = far + (c % 7 == 0 ? rng.range(-2, 2) : rng.sym(3));
        Rows P(p), A(a), C(cv), M(mu), X(x), I(mat(L, L, 2)); CASE(fmt("viterbi_decode N=%d T=%d L=%d p0=%s a=%s mu=%s cov=%s x=%s", N, T, L, show(p[0]).c_str(), showm(a).c_str(), showm(mu).c_str(), showm(cv).c_str(), showm(x).c_str()));
        double dc = -1; invert(C, L, I, &dc); eq("determinant", dc, det, 1e-8); for (int i = 0; i < L; ++i) { eqv("inverse covariance", DV(I[i], I[i] + L), iv[i], 1e-7); same("covariance", DV(C[i], C[i] + L), cv[i]); }
        std::vector<std::vector<long double> > lb(T, std::vector<long double>(N)); Buf y(L, 0), z(L, 0);
        for (int t = 0; t < T; ++t) for (int i = 0; i < N; ++i) { long double s = 0; for (int d = 0; d < L; ++d) for (int e = 0; e < L; ++e) s += (long double)(x[t][d] - mu[i][d]) * iv[d][e] * (x[t][e] - mu[i][e]); lb[t][i] = -0.5L * (s + L * logl(2 * M_PIl) + logl(det)); eq("loggauss", loggauss(X[t], L, M[i], I, dc, y, z), lb[t][i], 1e-7); double g = gauss(X[t], L, M[i], I, dc, y, z); if (lb[t][i] > -600) CHECK(fabs(g - expl(lb[t][i])) <= 1e-6 * expl(lb[t][i]), fmt("gauss: got %g, expected %g", g, (double)expl(lb[t][i]))); }
        model_t mod; mod.N = N; mod.L = L; mod.p0 = P[0]; mod.a = A; mod.mu = M; mod.cov = C; int *q = (int *)malloc(T * sizeof(int)); for (int t = 0; t < T; ++t) q[t] = -9; viterbi_decode(X, T, &mod, q);
        bool ok = true; for (int t = 0; t < T; ++t) if (q[t] < 0 || q[t] >= N) { FAIL(fmt("state at %d is %d of %d", t, q[t], N)); ok = false; break; }
        if (ok) {
            long np = 1; for (int t = 0; t < T; ++t) np *= N; long double best = -INFINITY, mine = -INFINITY; IV bs(T), s(T);
            for (long u = 0; u < np; ++u) { long v = u; for (int t = 0; t < T; ++t) { s[t] = v % N; v /= N; } long double w = logl(p[0][s[0]]) + lb[0][s[0]]; for (int t = 1; t < T; ++t) w += logl(a[s[t - 1]][s[t]]) + lb[t][s[t]]; if (w > best) { best = w; bs = s; } bool same = true; for (int t = 0; t < T; ++t) same = same && s[t] == q[t]; if (same) mine = w; }
            if (best > -INFINITY) CHECK(mine >= best - 1e-7 * (1 + fabsl(best)), fmt("decoded path %s has log probability %.15g, path %s has %.15g", showi(IV(q, q + T)).c_str(), (double)mine, showi(bs).c_str(), (double)best));
        }
        free(q); for (int i = 0; i < N; ++i) { same("transition matrix", DV(A[i], A[i] + N), a[i]); same("means", DV(M[i], M[i] + L), mu[i]); } for (int t = 0; t < T; ++t) same("observations", DV(X[t], X[t] + L), x[t]);
    }
}
static Mat features(int T, int L, int kind) {
    Mat x = mat(T, L); int nc = rng.range(1, 4), blk = std::max(1, T / rng.range(1, 5)); Mat ctr = mat(nc, L); for (int k = 0; k < nc; ++k) for (int d = 0; d < L; ++d) ctr[k][d] = rng.sym(kind == 2 ? 50 : 2); double noise = kind == 0 ? 1 : kind == 1 ? 0.1 : kind == 2 ? 0.01 : 0;
    for (int t = 0; t < T; ++t) for (int d = 0; d < L; ++d) x[t][d] = ctr[(t / blk) % nc][d] + noise * rng.sym(1) ; return x;
}
static void train() {
    int TT = g_thorough() ? 800 : 120;
    for (int c = 0; c < TT; ++c) {
        int N = rng.range(1, 6), T = rng.range(2, 40), L = rng.range(1, 4), kind = rng.range(0, 3); Mat x = features(T, L, kind); CASE(fmt("hmm_init/train N=%d T=%d L=%d kind=%d x=%s", N, T, L, kind, showm(x).c_str())); Rows X(x);
        model_t *m = hmm_init(X, T, L, N); CHECK(m->N == N && m->L == L, "model size"); rowsum("initial distribution after init", m->p0, N); for (int i = 0; i < N; ++i) rowsum(fmt("initial transition row %d", i), m->a[i], N);
        for (int d = 0; d < L; ++d) { double mean = 0, v = 0; for (int t = 0; t < T; ++t) mean += x[t][d]; mean /= T; for (int t = 0; t < T; ++t) v += (x[t][d] - mean) * (x[t][d] - mean); v /= T - 1; for (int e = 0; e < L; ++e) CHECK(fabs(m->cov[d][e] - (e == d ? v : 0)) <= 1e-9 * (1 + v), "initial covariance"); for (int i = 0; i < N; ++i) CHECK(fabs(m->mu[i][d] - mean) <= 0.25 * sqrt(v) + 1e-9 * (1 + fabs(mean)), "initial mean"); }
        hmm_train(X, T, m); rowsum("initial distribution after training", m->p0, N); for (int i = 0; i < N; ++i) rowsum(fmt("transition row %d after training", i), m->a[i], N);
        int *q = (int *)malloc(T * sizeof(int)); viterbi_decode(X, T, m, q); for (int t = 0; t < T; ++t) if (q[t] < 0 || q[t] >= N) { FAIL(fmt("state at %d is %d of %d", t, q[t], N)); break; } free(q); for (int t = 0; t < T; ++t) same("observations", DV(X[t], X[t] + L), x[t]); free(m->p0); hmm_close(m);
    }
}
static void endtoend() {
    int TT = g_thorough() ? 150 : 25;
    for (int c = 0; c < TT; ++c) {
        ClusterMeltSegmenterParams P; P.nHMMStates = rng.range(2, 8); P.nclusters = rng.range(1, 5); P.histogramLength = 1 + 2 * rng.range(0, 5); P.neighbourhoodLimit = rng.range(0, 20); P.featureType = c % 3 == 0 ? FEATURE_TYPE_CHROMA : c % 3 == 1 ? FEATURE_TYPE_CONSTQ : FEATURE_TYPE_UNKNOWN; P.nbins = 8;
        int n = std::max(2, P.histogramLength + rng.range(0, 40)), L = rng.range(1, 5); if (c % 3 != 2) L = 8 * rng.range(3, 5); Mat x = features(n, L, rng.range(0, 2)); if (c % 3 != 2) for (int i = 0; i < n; ++i) for (int j = 0; j < L; ++j) x[i][j] = fabs(x[i][j]);
        ClusterMeltSegmenter s(P); s.samplerate = 11025; s.q = 0; CASE(fmt("segment() type=%d frames=%d length=%d states=%d clusters=%d hlen=%d limit=%d", P.featureType, n, L, P.nHMMStates, P.nclusters, P.histogramLength, P.neighbourhoodLimit));
        if (c % 3 == 2) s.setFeatures(x); else { s.features = x; s.ncoeff = L; } int m = P.nclusters; if (c % 2) { m = rng.range(1, 5); s.segment(m); } else s.segment();
        const Segmentation &g = s.getSegmentation(); CHECK(g.nsegtypes == m && s.getNSegmentTypes() == m, "requested number of segment types"); checkSegs(g.segments, 0, n, s.getHopsize()); for (size_t i = 0; i < g.segments.size(); ++i) if (g.segments[i].type < 1 || g.segments[i].type > m) { FAIL(fmt("segment %d has type %d of %d", (int)i, g.segments[i].type, m)); break; } CHECK(s.features.empty(), "features not cleared");
    }
    if (g_fails) return;
    for (int c = 0; c < (g_thorough() ? 9 : 3); ++c) {   // from audio
        ClusterMeltSegmenterParams P; P.nHMMStates = 5; P.nclusters = 3; P.histogramLength = 5; P.featureType = c % 3 == 0 ? FEATURE_TYPE_CONSTQ : c % 3 == 1 ? FEATURE_TYPE_CHROMA : FEATURE_TYPE_MFCC; int fs = c < 3 ? 11025 : 44100; ClusterMeltSegmenter s(P); s.initialise(fs); int w = s.getWindowsize(), hop = s.getHopsize(), nb = 12; CASE(fmt("audio segmentation type=%d rate=%d", P.featureType, fs)); DV a(w + hop * nb); for (size_t i = 0; i < a.size(); ++i) a[i] = sin(i * (i < a.size() / 2 ? 0.1 : 0.23)) + 0.1 * rng.sym(1);
        for (int b = 0; b < nb; ++b) { Buf f(DV(a.begin() + b * hop, a.begin() + b * hop + w)); s.extractFeatures(f, w); } CHECK((int)s.features.size() == nb, "one feature per block"); s.segment(); checkSegs(s.getSegmentation().segments, 0, nb, hop); for (size_t i = 0; i < s.getSegmentation().segments.size(); ++i) CHECK(s.getSegmentation().segments[i].type >= 1 && s.getSegmentation().segments[i].type <= 3, "segment type");
    }
}
static void longer() {   // long sequences against scaled recursions in long double
    typedef std::vector<std::vector<long double> > LM; int TT = g_thorough() ? 200 : 30;
    for (int c = 0; c < TT; ++c) {
        int N = rng.range(2, 12), T = c % 5 == 0 ? rng.range(1000, 2500) : rng.range(7, 400), L = rng.range(1, 4); Mat p = mat(1, N), a = mat(N, N), b = mat(T, N); stochastic(p, false); stochastic(a, c % 3 == 0); for (int t = 0; t < T; ++t) for (int i = 0; i < N; ++i) b[t][i] = pow(10.0, rng.sym(3)) * (rng.uni() + 1e-3);
        CASE(fmt("forward_backwards, long: N=%d T=%d p0=%s a=%s", N, T, show(p[0]).c_str(), showm(a).c_str()));
        { Rows P(p), A(a), B(b), G(mat(T, N, 3)); std::vector<Rows *> xs; std::vector<double **> xp; for (int t = 0; t < T; ++t) { xs.push_back(new Rows(mat(N, N, 3))); xp.push_back(*xs.back()); } double ll = 17, l1 = 5, l2 = 6; forward_backwards(&xp[0], G, &ll, &l1, &l2, 1, N, T, P[0], A, B);
          LM al(T, std::vector<long double>(N)), be(al); std::vector<long double> sc(T); long double lt = 0;
          for (int t = 0; t < T; ++t) { for (int j = 0; j < N; ++j) { long double v = t ? 0 : (long double)p[0][j]; if (t) for (int i = 0; i < N; ++i) v += al[t-1][i] * a[i][j]; al[t][j] = v * b[t][j]; sc[t] += al[t][j]; } for (int j = 0; j < N; ++j) al[t][j] /= sc[t]; lt += logl(sc[t]); }
          for (int t = T - 1; t >= 0; --t) for (int i = 0; i < N; ++i) { if (t == T - 1) { be[t][i] = 1; continue; } be[t][i] = 0; for (int j = 0; j < N; ++j) be[t][i] += a[i][j] * (long double)b[t+1][j] * be[t+1][j] / sc[t+1]; }
          eq("log likelihood", ll, lt, 1e-9);
          for (int t = 0; t < T; ++t) { DV w(N); for (int i = 0; i < N; ++i) w[i] = al[t][i] * be[t][i]; eqv(fmt("gamma[%d]", t), DV(G[t], G[t] + N), w, 1e-8); if (t + 1 < T) for (int i = 0; i < N; ++i) { for (int j = 0; j < N; ++j) w[j] = al[t][i] * a[i][j] * b[t+1][j] * be[t+1][j] / sc[t+1]; eqv(fmt("xi[%d][%d]", t, i), DV(xp[t][i], xp[t][i] + N), w, 1e-8); } }
          for (int t = 0; t < T; ++t) delete xs[t]; }
        Mat cv, iv, mu = mat(N, L), x = mat(T, L); cov(cv, L); long double det = det_inv(cv, iv); for (int i = 0; i < N; ++i) for (int d = 0; d < L; ++d) mu[i][d] = rng.sym(2); for (int t = 0; t < T; ++t) for (int d = 0; d < L; ++d) x[t][d] = rng.sym(4);
        CASE(fmt("viterbi_decode, long: N=%d T=%d L=%d a=%s mu=%s cov=%s x=%s", N, T, L, showm(a).c_str(), showm(mu).c_str(), showm(cv).c_str(), showm(x).c_str()));
        { Rows P(p), A(a), C(cv), M(mu), X(x); model_t mod; mod.N = N; mod.L = L; mod.p0 = P[0]; mod.a = A; mod.mu = M; mod.cov = C; int *q = (int *)malloc(T * sizeof(int)); viterbi_decode(X, T, &mod, q);
          std::vector<long double> d(N), e(N); long double mine = 0; bool ok = true;
          for (int t = 0; t < T && ok; ++t) { if (q[t] < 0 || q[t] >= N) { FAIL(fmt("state at %d is %d of %d", t, q[t], N)); ok = false; break; }
            for (int j = 0; j < N; ++j) { long double s = 0; for (int k = 0; k < L; ++k) for (int m = 0; m < L; ++m) s += (long double)(x[t][k] - mu[j][k]) * iv[k][m] * (x[t][m] - mu[j][m]); long double lb = -0.5L * (s + L * logl(2 * M_PIl) + logl(det)), best = -INFINITY; if (t == 0) best = logl(p[0][j]); else for (int i = 0; i < N; ++i) best = std::max(best, d[i] + logl(a[i][j])); e[j] = best + lb; if (q[t] == j) mine += (t == 0 ? logl(p[0][j]) : logl(a[q[t-1]][j])) + lb; } d = e; }
          if (ok) { long double best = -INFINITY; for (int j = 0; j < N; ++j) best = std::max(best, d[j]); if (best > -INFINITY) CHECK(mine >= best - 1e-7 * (1 + fabsl(best)), fmt("decoded path has log probability %.15g, the best one %.15g", (double)mine, (double)best)); } free(q); }
    }
    for (int c = 0; c < (g_thorough() ? 40 : 8); ++c) {   // more histograms and clusters
        int m = rng.range(2, 40), n = rng.range(100, 300), k = rng.range(5, 15), l = rng.range(0, 60), ns = rng.range(3, 20), blk = rng.range(3, 30); DV h(n * m);
        for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < m; ++j) { h[i * m + j] = 0.05 * rng.uni() + (j == (i / blk) % m); s += h[i * m + j] * h[i * m + j]; } for (int j = 0; j < m; ++j) h[i * m + j] /= s; }
        DV B(ns); B[0] = 100; for (int i = 1; i < ns; ++i) B[i] = 0.7 * B[i - 1]; CASE(fmt("cluster_melt m=%d n=%d t=%d k=%d l=%d blocks of %d", m, n, ns, k, l, blk));
        Buf H(h), S(B); int *q = (int *)malloc(n * sizeof(int)); cluster_melt(H, m, n, S, ns, k, l, q); for (int i = 0; i < n; ++i) if (q[i] < 1 || q[i] > k) { FAIL(fmt("assignment %d is %d of %d clusters", i, q[i], k)); break; } free(q); same("histograms", H.v(), h);
    }
}
int main() {
    longer(); segmentation(); chroma(); hist(); melt(); fb(); viterbi(); train(); endtoend();
    return done("segmentations of up to 40 frames; histograms of odd length up to 17 over up to 8 states; HMMs of up to 4 states, 6 observations of up to 3 dimensions for the posteriors (against enumeration of every path), 6 states and 40 observations for training; clustering of up to 40 histograms into up to 6 clusters; whole segmentations of up to 51 frames from features and a few from audio", "segments compared with the assignment sequence, HMM results with enumeration of every state path in long double");
}
