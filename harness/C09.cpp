// UNITS: dsp/rateconversion/Decimator.cpp dsp/rateconversion/DecimatorB.cpp maths/MathUtilities.cpp
#include "common.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/rateconversion/DecimatorB.h"
// reference: direct form I of the documented filters over the whole stream
struct Ref { DV b, a; };
static DV filt(const DV &b, const DV &a, const DV &x) {
    DV y(x.size());
    for (size_t t = 0; t < x.size(); ++t) { double s = 0; for (size_t i = 0; i < b.size() && i <= t; ++i) s += b[i] * x[t - i]; for (size_t i = 1; i < a.size() && i <= t; ++i) s -= a[i] * y[t - i]; y[t] = s; }
    return y;
}
template <class D> static DV run(D &d, const DV &x, int block, int f, bool inplace, bool flt) {
    DV out; int m = block / f;
    for (size_t p = 0; p + block <= x.size(); p += block) {
        if (!flt) {
            Buf s(DV(x.begin() + p, x.begin() + p + block)); Buf o(m, -77);
            double *dst = inplace ? s.p : o.p; d.process(s.p, dst);
            if (!inplace) same("source", s.v(), DV(x.begin() + p, x.begin() + p + block));
            out.insert(out.end(), dst, dst + m);
        } else {
            float *s = (float *)malloc(block * 4), *o = (float *)malloc(m * 4);
            for (int i = 0; i < block; ++i) s[i] = x[p + i];
            float *dst = inplace ? s : o; d.process(s, dst);
            for (int i = 0; i < m; ++i) out.push_back(dst[i]);
            free(s); free(o);
        }
    }
    return out;
}
// the anti-aliasing filter of a factor, recovered once from its impulse response
template <class D> static void test(const char *name, int f, int n, int block) {
    int total = n * block;
    DV x = rng.vec(total); for (int i = 0; i < total; ++i) x[i] = (float)x[i];
    D whole(total, f); DV ref = run(whole, x, total, f, false, false);
    CASE(fmt("%s factor %d: %d blocks of %d, signal %s", name, f, n, block, show(x, 12).c_str()));
    CHECK((int)ref.size() == total / f, "output count");
    { D d(block, f); eqv("blocks", run(d, x, block, f, false, false), ref); }
    { D d(block, f); eqv("blocks in place", run(d, x, block, f, true, false), ref); }
    { D d(block, f); eqv("single precision", run(d, x, block, f, false, true), ref, 1e-5); }
    { D d(block, f); eqv("single precision in place", run(d, x, block, f, true, true), ref, 1e-5); }
    // linearity and time invariance: response to x equals convolution with the impulse response
    DV imp(total, 0.0); DV y(total, 0.0);
    DV h(total, 0.0);
    for (int ph = 0; ph < f; ++ph) { DV d0(total, 0.0); d0[ph] = 1; D d(total, f); DV r = run(d, d0, total, f, false, false); for (size_t k = 0; k < r.size(); ++k) { long t = (long)k * f - ph; if (t >= 0) h[t] = r[k]; else if (r[k] != 0) FAIL("response before the impulse"); } }
    DV want(total / f);
    for (int k = 0; k < total / f; ++k) { double s = 0; for (int j = 0; j <= k * f; ++j) s += h[k * f - j] * x[j]; want[k] = s; }
    eqv("linear time-invariant filter sampled at every factor-th position", ref, want, 1e-7);
}
// frequency response from the impulse response: unit gain below the new Nyquist frequency, rejection above it
template <class D> static void response(const char *name, int f, bool butter) {
    int N = 1024 * f; DV h(N, 0.0); for (int ph = 0; ph < f; ++ph) { DV d0(N, 0.0); d0[ph] = 1; D d(N, f); DV r = run(d, d0, N, f, false, false); for (int k = 0; k < N / f; ++k) { int t = k * f - ph; if (t >= 0) h[t] = r[k]; } }
    double s = 0; for (int i = 0; i < N; ++i) s += h[i]; CASE(fmt("%s factor %d gain at frequency 0", name, f)); CHECK(fabs(s - 1) < 1e-10, fmt("%.15g", s));
    for (int k = 0; k <= 200 * f; ++k) {
        double q = k / 400.0, re = 0, im = 0; for (int i = 0; i < N && i < 512 * f; ++i) { re += h[i] * cos(2 * M_PI * q / f * i); im -= h[i] * sin(2 * M_PI * q / f * i); } double g = hypot(re, im);
        CASE(fmt("%s factor %d response at %g of the new rate", name, f, q));
        if (butter) { double w = pow(tan(M_PI * q / 2), 12); if (f == 2) CHECK(fabs(g - 1 / sqrt(1 + w)) < 1e-9, fmt("gain %.12g, the Butterworth filter has %.12g", g, 1 / sqrt(1 + w))); else if (q <= 0.25) CHECK(fabs(g - 1) < 1e-4, fmt("gain %.9g in the pass band", g)); else if (q >= 0.75) CHECK(g < 0.008, fmt("gain %.9g in the stop band", g)); }
        else { if (q <= 0.44) CHECK(g > 0.99985 && g < 1.00005, fmt("gain %.9g in the pass band", g)); if (q >= 0.5) CHECK(g < 0.1001, fmt("gain %.9g in the stop band", g)); if (getenv("SHOW")) printf("%d %g %.9g\n", f, q, g); }
    }
}
template <class D> static void settle(const char *name, int f) {
    int block = 64 * f; D d(block, f); DV c(block, 0.75); DV o; for (int i = 0; i < 40; ++i) o = run(d, c, block, f, false, false);
    CASE(fmt("%s factor %d constant input", name, f)); for (size_t i = 0; i < o.size(); ++i) if (fabs(o[i] - 0.75) > 1e-4) { FAIL(fmt("constant 0.75 settles to %.9g", o[i])); return; }
    // alternating input (Nyquist) is suppressed
    D e(block, f); DV al(block); for (int i = 0; i < block; ++i) al[i] = i % 2 ? -1 : 1; for (int i = 0; i < 40; ++i) o = run(e, al, block, f, false, false);
    CASE(fmt("%s factor %d alternating input", name, f)); for (size_t i = 0; i < o.size(); ++i) if (fabs(o[i]) > 0.01) { FAIL(fmt("alternating input leaves %.9g", o[i])); return; }
    // passband: a slow sine keeps its amplitude
    D g(block, f); double mx = 0; for (int i = 0; i < 60; ++i) { DV s(block); for (int j = 0; j < block; ++j) s[j] = sin(2 * M_PI * (i * block + j) * 0.05 / f); o = run(g, s, block, f, false, false); if (i > 20) for (size_t k = 0; k < o.size(); ++k) mx = std::max(mx, fabs(o[k])); }
    CASE(fmt("%s factor %d slow sine", name, f)); CHECK(mx > 0.9 && mx < 1.12, fmt("amplitude %.6g", mx));
}
int main() {
    int fs[] = {2, 4, 8};
    for (int k = 0; k < 3; ++k) {
        int f = fs[k];
        for (int i = 0; i < (g_thorough() ? 150 : 25); ++i) { test<Decimator>("Decimator", f, rng.range(1, 6), f * rng.range(1, 12)); test<DecimatorB>("DecimatorB", f, rng.range(1, 6), f * rng.range(1, 12)); }
        for (int i = 0; i < (g_thorough() ? 8 : 2); ++i) { test<Decimator>("Decimator", f, rng.range(1, 2), f * rng.range(100, 300)); test<DecimatorB>("DecimatorB", f, rng.range(1, 2), f * rng.range(100, 300)); }
        for (int i = 0; i < 2; ++i) { int big = 1 << (13 + i); DV x = rng.vec(big); CASE(fmt("block of %d, factor %d", big, f)); { Decimator a(big, f), b(big / 16, f); eqv("one block and sixteen", run(a, x, big, f, false, false), run(b, x, big / 16, f, false, false)); } { DecimatorB a(big, f), b(big / 16, f); eqv("one block and sixteen (B)", run(a, x, big, f, false, false), run(b, x, big / 16, f, false, false)); } }
        response<Decimator>("Decimator", f, false); response<DecimatorB>("DecimatorB", f, true);
        settle<Decimator>("Decimator", f); settle<DecimatorB>("DecimatorB", f);
        for (int q = 0; q < 6; ++q) { int block = f * rng.range(1, 9); Decimator d(block, f); DV x = rng.vec(block); DV a = run(d, x, block, f, false, false); run(d, rng.vec(block), block, f, false, false); d.resetFilter(); CASE(fmt("Decimator reset factor %d block %d", f, block)); eqv("after reset", run(d, x, block, f, false, false), a, 0); CHECK(d.getFactor() == f, "factor"); }
        // block length that is not a multiple: block/factor samples
        for (int q = 0; q < 6; ++q) { int block = rng.range(0, 40); Decimator d(block, f); DV x = rng.vec(block); CASE(fmt("Decimator block %d factor %d", block, f)); DV o = run(d, x, block ? block : 1, f, false, false); }
    }
    for (int f = 16; f <= 64; f *= 2) { test<DecimatorB>("DecimatorB", f, 3, f * 2); settle<DecimatorB>("DecimatorB", f); }
    for (int q = 0; q < 5; ++q) { int block = rng.range(1, 20); Decimator d(block, 1); DV x = rng.vec(block * 3); CASE(fmt("Decimator factor 1 block %d", block)); eqv("copy", run(d, x, block, 1, false, false), x, 0); Decimator d2(block, 1); eqv("copy in place", run(d2, x, block, 1, true, false), x, 0); }
    { fclose(stderr); int bad[] = {-4, 0, 1, 3, 6}; for (int k = 0; k < 5; ++k) { CASE(fmt("DecimatorB factor %d rejected", bad[k])); DecimatorB d(12, bad[k]); Buf s(12, 1), o(12, -7); d.process(s.p, o.p); for (int i = 0; i < 12; ++i) CHECK(o[i] == -7, "wrote output"); CHECK(d.getFactor() == 0, "factor"); } DecimatorB d(10, 4); Buf s(10, 1), o(10, -7); CASE("DecimatorB length 10 factor 4"); d.process(s.p, o.p); CHECK(o[0] == -7, "wrote output"); }
    return done("factors 2,4,8 (B also 16..64), block lengths up to 12*factor and some to 300*factor and 16384, streams of up to 6 blocks, both precisions, in place and not", "distinct stream/blocking combinations");
}
