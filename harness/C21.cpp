// UNITS: dsp/tonal/TonalEstimator.cpp dsp/tonal/ChangeDetectionFunction.cpp dsp/tonal/TCSgram.cpp
#include "common.h"
#include "dsp/tonal/TonalEstimator.h"
#include "dsp/tonal/TCSgram.h"
#include "dsp/tonal/ChangeDetectionFunction.h"
static DV centroid(const DV &c) {
    static const double f[3] = { 7.0 / 6, 2.0 / 3, 3.0 / 2 }, r[3] = { 1, 0.6, 1.1 }; DV o(6);
    for (int i = 0; i < 3; ++i) for (int p = 0; p < 12; ++p) { o[2 * i] += r[i] * sin(f[i] * p * M_PI) * c[p]; o[2 * i + 1] += r[i] * cos(f[i] * p * M_PI) * c[p]; }
    return o;
}
static DV chroma(int kind) { DV c(12); for (int p = 0; p < 12; ++p) c[p] = kind == 0 ? 0 : kind == 1 ? (p == rng.range(0, 11)) : kind == 2 ? rng.uni() * pow(10., -3 - 3 * rng.range(0, 2)) : kind == 3 ? rng.sym(5) : rng.uni(); return c; }
int main() {
    int N = g_thorough() ? 20000 : 2000; TonalEstimator te;
    for (int t = 0; t < N; ++t) {
        DV c = t < 12 ? DV(12) : chroma(rng.range(0, 5)); if (t < 12) c[t] = 1;
        CASE("chroma " + show(c));
        ChromaVector v; CHECK(v.size() == 12, "size"); for (int i = 0; i < 12; ++i) { eq("initially zero", v[i], 0, 0); v[i] = c[i]; }
        TCSVector s = te.transform2TCS(v), s2 = te.transform2TCS(v); CHECK(s.size() == 6, "six coordinates");
        DV w = centroid(c); double m = 0; for (int i = 0; i < 6; ++i) { eq(fmt("centroid[%d]", i), s[i], w[i], 1e-10); eq("repeated", s2[i], s[i], 0); m += w[i] * w[i]; }
        eq("magnitude", s.magnitude(), sqrt(m), 1e-10);
        for (int i = 0; i < 12; ++i) eq("chroma unchanged", v[i], c[i], 0);
        double sum = 0; for (int i = 0; i < 12; ++i) sum += fabs(c[i]);
        v.normalizeL1(); for (int i = 0; i < 12; ++i) eq("normalised", v[i], sum > 0.0000001 ? c[i] / sum : 0, 1e-12);
        v.clear(); for (int i = 0; i < 12; ++i) eq("cleared", v[i], 0, 0);
    }
    for (int t = 0; t < (g_thorough() ? 3000 : 400); ++t) {
        int n = t < 40 ? t % 10 : t % 40 ? rng.range(0, 60) : rng.range(100, 900), width = t % 6 == 0 ? rng.range(0, 80) : rng.range(0, 8); bool dur = rng.range(0, 1); double ms = rng.uni() * 100;
        CASE(fmt("harmonic change of %d frames, smoothing %d, case %d", n, width, t));
        std::vector<DV> x; TCSGram g; if (dur) g.setFrameDuration(ms); if (rng.range(0, 1)) g.reserve(n); if (rng.range(0, 3) == 0) { g.addTCSVector(TCSVector()); g.clear(); }
        for (int i = 0; i < n; ++i) { DV c = centroid(chroma(rng.range(0, 5))); TCSVector v; for (int j = 0; j < 6; ++j) v[j] = c[j]; g.addTCSVector(v); x.push_back(c); }
        CHECK(g.getSize() == n, "size");
        for (int i = -3; i < n + 3; ++i) { TCSVector v; v[0] = 99; g.getTCSVector(i, v); for (int j = 0; j < 6; ++j) eq("stored vector", v[j], i >= 0 && i < n ? x[i][j] : 0, 0); }
        for (int i = 0; i < n; ++i) CHECK(g.getTime(i) == (dur ? long(i * ms) : 0), "frame time"); CHECK(g.getDuration() == (dur ? long(n * ms) : 0), "duration");
        int w = 2 * width + 1; double sg = w / (2 * 2.3548); std::vector<DV> sm(n, DV(6));
        for (int i = 0; i < n; ++i) for (int k = -width; k <= width; ++k) if (i + k >= 0 && i + k < n) for (int j = 0; j < 6; ++j) sm[i][j] += x[i + k][j] * exp(-double(k) * k / (2 * sg * sg)) / (sg * sqrt(2 * M_PI));
        ChangeDFConfig cfg; cfg.smoothingWidth = width; ChangeDetectionFunction f(cfg);
        for (int rep = 0; rep < 2; ++rep) {
            ChangeDistance d = f.process(g); CHECK((int)d.size() == n, "one value per frame");
            for (int i = 0; i < n && i < (int)d.size(); ++i) { double e = 0; for (int j = 0; j < 6; ++j) { double q = (i + 1 < n ? sm[i + 1][j] : 0) - (i ? sm[i - 1][j] : 0); e += q * q; } eq(fmt("change[%d]", i), d[i], sqrt(e), 1e-9); }
        }
        CHECK(g.getSize() == n, "input unchanged"); for (int i = 0; i < n; ++i) { TCSVector v; g.getTCSVector(i, v); for (int j = 0; j < 6; ++j) eq("input unchanged", v[j], x[i][j], 0); }
    }
    return done("chroma vectors of all signs and scales, sequences of 0..60 frames (some to 900), smoothing widths 0..80", "centroid sums, Gaussian smoothing over the frames present and neighbour distances written independently; distinct inputs");
}
