// UNITS: maths/CosineDistance.cpp maths/KLDivergence.cpp maths/Correlation.cpp dsp/rhythm/BeatSpectrum.cpp
#include "common.h"
#include "maths/CosineDistance.h"
#include "maths/KLDivergence.h"
#include "maths/Correlation.h"
#include "dsp/rhythm/BeatSpectrum.h"
static double cosd(const DV &a, const DV &b) {
    if (a.size() != b.size()) return 1;
    double d = 0, x = 0, y = 0; for (size_t i = 0; i < a.size(); ++i) { d += a[i] * b[i]; x += a[i] * a[i]; y += b[i] * b[i]; }
    return 1 - d / (sqrt(x * y) + 1e-20);
}
static double klg(const DV &m1, const DV &v1, const DV &m2, const DV &v2) {
    double d = 0; for (size_t k = 0; k < m1.size(); ++k) { double m = m1[k] - m2[k]; d += v1[k] / v2[k] + v2[k] / v1[k] - 2 + m * m * (1 / v1[k] + 1 / v2[k]); }
    return d / 2;
}
static double kld(const DV &a, const DV &b) { double d = 0; for (size_t i = 0; i < a.size(); ++i) d += a[i] * log10((a[i] + 1e-20) / (b[i] + 1e-20)); return d; }
static DV pos(int n, bool zeros) { DV v(n); for (int i = 0; i < n; ++i) v[i] = zeros && rng.range(0, 3) == 0 ? 0 : rng.uni() + 1e-3; return v; }
int main() {
    CosineDistance cd; KLDivergence kl; Correlation co; BeatSpectrum bs;
    int N = g_thorough() ? 40 : 4;
    for (int r = 0; r < N; ++r) for (int n_ = 0; n_ <= 48; ++n_) {
        int n = n_ <= 40 ? n_ : n_ <= 44 ? rng.range(41, 600) : rng.range(600, 2500);
        DV a = rng.vec(n), b = rng.vec(n), a0(a), b0(b);
        CASE("cosine " + show(a, 6) + show(b, 6));
        eq("cosine distance", cd.distance(a, b), cosd(a, b)); same("first", a, a0); same("second", b, b0);
        DV c = rng.vec(n + 1 + rng.range(0, 3)); CHECK(cd.distance(a, c) == 1 && cd.distance(c, a) == 1, "vectors of different length must be at distance 1");
        eq("cosine distance after another call", cd.distance(b, a), cosd(a, b));
        DV m1 = rng.vec(n), m2 = rng.vec(n), v1 = pos(n, false), v2 = pos(n, false);
        CASE("KL gaussian " + show(m1, 5) + show(v1, 5) + show(m2, 5) + show(v2, 5));
        eq("gaussian divergence", kl.distanceGaussian(m1, v1, m2, v2), klg(m1, v1, m2, v2), 1e-7);
        eq("gaussian divergence with itself", kl.distanceGaussian(m1, v1, m1, v1), 0, 1e-9);
        DV p = pos(n, true), q = pos(n, true);
        CASE("KL distribution " + show(p, 6) + show(q, 6));
        eq("one-sided", kl.distanceDistribution(p, q, false), kld(p, q)); eq("symmetrised", kl.distanceDistribution(p, q, true), kld(p, q) + kld(q, p));
        { DV l = q; l.push_back(3.5); eq("one-sided against a longer vector", kl.distanceDistribution(p, l, false), kld(p, q)); }
        DV s = rng.vec(n); Buf src(s), dst(n, -3); CASE("autocorrelation " + show(s, 12));
        co.doAutoUnBiased(src, dst, n); same("source", src.v(), s);
        for (int i = 0; i < n; ++i) { double t = 0; for (int j = i; j < n; ++j) t += s[j - i] * s[j]; t /= n - i; eq(fmt("autocorrelation[%d]", i), dst[i], t > 0 ? t : 2.2204e-16); }
    }
    for (int r = 0; r < N; ++r) for (int n_ = 0; n_ <= 28; ++n_) {
        int n = n_ <= 24 ? n_ : n_ <= 27 ? rng.range(25, 90) : rng.range(200, 320);
        std::vector<DV> m(n); int w = rng.range(1, 5); for (int i = 0; i < n; ++i) { m[i] = rng.vec(w); if (r % 3 == 2 && i) m[i] = m[0]; if (r % 4 == 1 && i) { m[i] = m[0]; for (int j = 0; j < w; ++j) m[i][j] += 1e-3 * rng.sym(1); } if (r % 4 == 3 && rng.range(0, 5) == 0) m[i].push_back(1); }
        std::vector<DV> m0(m);
        CASE(fmt("beat spectrum of %d frames of %d values: ", n, w) + (n ? show(m[0]) : ""));
        DV o = bs.process(m); CHECK(m == m0, "input modified");
        int sz = n / 2; DV v(sz, 0.0); double mx = 0;
        for (int k = 0; k < sz; ++k) { for (int i = 0; i < sz; ++i) v[k] += cosd(m[i], m[i + k + 1]); if (v[k] > mx) mx = v[k]; }
        if (mx > 1e-9) { for (int k = 0; k < sz; ++k) v[k] /= mx; eqv("beat spectrum", o, v, 1e-9 + 1e-14 * sz / mx); } else CHECK((int)o.size() == sz, "wrong size");
    }
    return done("vectors of length 0..40 (some to 2500), beat spectra of 0..24 frames (some to 320)", "distinct inputs");
}
