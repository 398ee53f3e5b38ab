// UNITS: maths/MathUtilities.cpp
#include "common.h"
#include "maths/MedianFilter.h"
static int rankof(int n, float p) { int i = int((n * p) / 100.f); if (i >= n) i = n - 1; if (i < 0) i = 0; return i; }
static DV lastn(const DV &hist, int n) { DV w; for (int k = 0; k < n; ++k) { int i = int(hist.size()) - n + k; w.push_back(i >= 0 ? hist[i] : 0); } std::sort(w.begin(), w.end()); return w; }
int main() {
    int cases = g_thorough() ? 30000 : 4000;
    for (int it = 0; it < cases; ++it) {
        int n = it < 80 ? it / 4 + 1 : rng.range(0, 99) ? rng.range(1, 60) : rng.range(61, 400);
        float p = it % 3 == 0 ? 50.f : it % 3 == 1 ? float(rng.range(-5, 110)) : float(rng.uni() * 100);
        int len = rng.range(0, 3 * n + 5); DV x = rng.vec(len); int kind = rng.range(0, 4);
        for (int i = 0; i < len; ++i) { if (kind == 1) x[i] = i; if (kind == 2) x[i] = -i; if (kind == 3) x[i] = rng.range(-1, 1) * 5; if (kind == 4) x[i] = fabs(x[i]) + 1; }
        CASE(fmt("size %d percentile %g values %s", n, double(p), show(x).c_str()));
        MedianFilter<double> f(n, p); DV hist;
        CHECK(f.getSize() == n, "size");
        eq("initial value", f.get(), 0, 0);
        for (int i = 0; i < len; ++i) {
            f.push(x[i]); hist.push_back(x[i]); DV w = lastn(hist, n);
            eq(fmt("get after %d values", i + 1), f.get(), w[rankof(n, p)], 0);
            float q = float(rng.range(0, 3) == 0 ? rng.range(-10, 120) : rng.uni() * 100);
            eq(fmt("getAt(%g) after %d values", double(q), i + 1), f.getAt(q), w[rankof(n, q)], 0);
            eq("get unaffected by getAt", f.get(), w[rankof(n, p)], 0);
            if (rng.range(0, 9) == 0) { p = float(rng.range(0, 100)); f.setPercentile(p); eq(fmt("get after setPercentile(%g)", double(p)), f.get(), w[rankof(n, p)], 0); }
            if (rng.range(0, 40) == 0) { f.reset(); hist.clear(); eq("after reset", f.get(), 0, 0); for (int k = 0; k <= 100; k += 25) eq("getAt after reset", f.getAt(float(k)), 0, 0); }
            if (rng.range(0, 60) == 0) { std::streambuf *o = std::cerr.rdbuf(0); f.push(NAN); std::cerr.rdbuf(o); std::cerr.clear(); hist.push_back(0); eq("a NaN counts as zero", f.get(), lastn(hist, n)[rankof(n, p)], 0); }
        }
        // the static form: one output per input, windows centred on it, zeros beyond the ends
        DV y = MedianFilter<double>::filter(n, x), want;
        int need = std::max(len, 0);
        { DV h; int k = 0; for (int i = 0; i < len; ++i) { h.push_back(x[i]); DV w = lastn(h, n); if (i >= n / 2) { want.push_back(w[rankof(n, 50.f)]); } }
          while (int(want.size()) < need) { h.push_back(0); want.push_back(lastn(h, n)[rankof(n, 50.f)]); ++k; } }
        eqv("filter()", y, want, 0);
        CHECK(int(y.size()) == len, "filter() output size");
        if (len >= n / 2) for (int i = 0; i < len; ++i) {   // centred, independent statement
            DV w; for (int k = 0; k < n; ++k) { int j = i + n / 2 - k; w.push_back(j >= 0 && j < len ? x[j] : 0); } std::sort(w.begin(), w.end());
            eq(fmt("filter() centred value %d", i), y[i], w[rankof(n, 50.f)], 0);
        }
    }
    for (int n = 1; n <= 300; ++n) { CASE(fmt("ranks of every whole percentile, size %d", n)); MedianFilter<double> f(n); for (int i = 0; i < n; ++i) f.push(i);
        for (int p = 0; p <= 101; ++p) { int k = n * p / 100; if (k >= n) k = n - 1; f.setPercentile(float(p)); eq(fmt("size %d getAt(%d)", n, p), f.getAt(float(p)), k, 0); eq(fmt("size %d get at %d", n, p), f.get(), k, 0); MedianFilter<double> g(n, float(p)); if (p % 7 == 0) { for (int i = n; i > 0; --i) g.push(i - 1); eq(fmt("size %d constructed with %d", n, p), g.get(), k, 0); } } }
    for (int n = 2; n < 8; ++n) { CASE(fmt("nearly equal values, size %d", n)); for (int r = 0; r < 200; ++r) { MedianFilter<double> f(n, 0.f); DV h; for (int i = 0; i < 3 * n; ++i) { double v = (rng.range(0, 1) ? 1 : -1) * (1 + rng.range(-3, 3) * 2.220446049250313e-16 * 2) * (r % 2 ? 1 : 1e-300); f.push(v); h.push_back(v); DV w = lastn(h, n); for (int k = 0; k < n; ++k) if (f.getAt(float(100. * (k + .5) / n)) != w[rankof(n, float(100. * (k + .5) / n))]) { FAIL("window of nearly equal values"); k = n; } } } }
    for (int n = 1; n < 20; ++n) { CASE(fmt("int filter %d", n)); MedianFilter<int> f(n); std::vector<int> h; for (int i = 0; i < 40; ++i) { int v = rng.range(-5, 5); f.push(v); h.push_back(v); std::vector<int> w; for (int k = 0; k < n; ++k) { int j = int(h.size()) - 1 - k; w.push_back(j >= 0 ? h[j] : 0); } std::sort(w.begin(), w.end()); CHECK(f.get() == w[rankof(n, 50.f)], "median of ints"); } }
    return done("sizes 1..60 (some to 400), up to 3*size+5 values, percentiles -10..120, random resets and percentile changes", "random values with ties, monotone and shifted sequences; distinct by content");
}
