// UNITS: dsp/signalconditioning/Filter.cpp
#include "common.h"
#include "dsp/signalconditioning/Filter.h"
static DV ref(const DV &b, const DV &a, const DV &x) {
    DV y(x.size());
    for (size_t t = 0; t < x.size(); ++t) { double s = 0; for (size_t i = 0; i < b.size() && i <= t; ++i) s += b[i] * x[t - i]; for (size_t i = 1; i < a.size() && i <= t; ++i) s -= a[i] * y[t - i]; y[t] = s; }
    return y;
}
static DV go(Filter &f, const DV &x, size_t p, size_t q) {
    Buf in(DV(x.begin() + p, x.begin() + q)), out(int(q - p), -99);
    f.process(in, out, int(q - p));
    same("input", in.v(), DV(x.begin() + p, x.begin() + q));
    return out.v();
}
int main() {
    int cases = g_thorough() ? 20000 : 2500;
    for (int it = 0; it < cases; ++it) {
        int sz = it < 60 ? it / 2 + 1 : rng.range(0, 60) ? rng.range(1, 45) : rng.range(46, 300);
        bool fir = rng.range(0, 2) == 0;
        DV b = rng.vec(sz), a = fir ? DV() : rng.vec(sz); { double sa = 1; for (size_t i = 1; i < a.size(); ++i) sa += fabs(a[i]); for (size_t i = 0; i < a.size(); ++i) a[i] *= 0.9 / sa; double sb = 1; for (size_t i = 0; i < b.size(); ++i) sb += fabs(b[i]); for (size_t i = 0; i < b.size(); ++i) b[i] *= 4 / sb; } if (!fir) a[0] = rng.range(0, 1) ? 1 : 0.5;
        int n = rng.range(0, 10) ? rng.range(0, 120) : rng.range(0, 5) ? rng.range(100, 700) : rng.range(1000, 5000); DV x = rng.vec(n);
        CASE(fmt("order %d %s b=%s a=%s x=%s", sz - 1, fir ? "FIR" : "IIR", show(b).c_str(), show(a).c_str(), show(x, 12).c_str()));
        Filter::Parameters P; P.a = a; P.b = b;
        Filter f(P); CHECK(f.getOrder() == sz - 1, "order");
        DV want = ref(b, a, x);
        eqv("one block", go(f, x, 0, n), want, 1e-8);
        f.reset(); eqv("after reset", go(f, x, 0, n), want, 1e-8);
        f.reset(); DV got; int p = 0; int style = rng.range(0, 3);
        while (p < n) { int m = style == 0 ? 1 : style == 1 ? rng.range(0, 3) : style == 2 ? rng.range(0, 40) : rng.range(18, 23); m = std::min(m, n - p); DV y = go(f, x, p, p + m); got.insert(got.end(), y.begin(), y.end()); p += m; }
        eqv("split into blocks", got, want, 1e-8);
        // a reset in the middle
        int k = rng.range(0, n); f.reset(); go(f, x, 0, k); f.reset(); DV r = go(f, x, k, n); eqv("reset mid-stream", r, ref(b, a, DV(x.begin() + k, x.end())), 1e-8);
        // two filters do not share state
        if (it % 8 == 0) { Filter g(P), h(P); DV o1, o2; for (int i = 0; i < n; ++i) { DV u = go(g, x, i, i + 1); o1.push_back(u[0]); DV z(1, -x[i]); u = go(h, z, 0, 1); o2.push_back(-u[0]); } eqv("interleaved filters", o1, want, 1e-8); eqv("interleaved filters (2)", o2, want, 1e-8); }
    }
    for (int na = 0; na < 6; ++na) for (int nb = 0; nb < 6; ++nb) {
        CASE(fmt("constructor with %d denominators, %d numerators", na, nb));
        Filter::Parameters P; P.a = DV(na, 1); P.b = DV(nb, 1); bool threw = false;
        try { Filter f(P); } catch (...) { threw = true; }
        CHECK(threw == (na == 0 ? nb == 0 : na != nb), threw ? "rejected" : "accepted");
    }
    return done("orders 0..44 (some to 299), streams of 0..700 samples (some to 5000), random splits and resets", "random coefficients and signals; distinct by content");
}
