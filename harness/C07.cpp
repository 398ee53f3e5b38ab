// UNITS: dsp/signalconditioning/Filter.cpp dsp/signalconditioning/FiltFilt.cpp
#include "common.h"
#include "dsp/signalconditioning/FiltFilt.h"
static DV filt(const DV &b, const DV &a, const DV &x) {
    DV y(x.size());
    for (size_t t = 0; t < x.size(); ++t) { double s = 0; for (size_t i = 0; i < b.size() && i <= t; ++i) s += b[i] * x[t - i]; for (size_t i = 1; i < a.size() && i <= t; ++i) s -= a[i] * y[t - i]; y[t] = s; }
    return y;
}
static DV ref(const DV &b, const DV &a, const DV &x) {
    int n = x.size(), E = 3 * (int(b.size()) - 1); DV e(n + 2 * E, 0.0);
    for (int t = 0; t < E; ++t) { int k = E - t; if (k < n) e[t] = 2 * x[0] - x[k]; k = t + 1; if (k < n) e[E + n + t] = 2 * x[n - 1] - x[n - 1 - k]; }
    for (int t = 0; t < n; ++t) e[E + t] = x[t];
    DV f = filt(b, a, e); std::reverse(f.begin(), f.end()); f = filt(b, a, f); std::reverse(f.begin(), f.end());
    return DV(f.begin() + E, f.begin() + E + n);
}
int main() {
    int cases = g_thorough() ? 20000 : 2500;
    for (int it = 0; it < cases; ++it) {
        int sz = it < 60 ? it / 6 + 1 : rng.range(0, 15) ? rng.range(1, 16) : rng.range(17, 70); bool fir = rng.range(0, 2) == 0;
        DV b = rng.vec(sz), a = fir ? DV() : rng.vec(sz); { double sa = 1; for (size_t i = 1; i < a.size(); ++i) sa += fabs(a[i]); for (size_t i = 0; i < a.size(); ++i) a[i] *= 0.9 / sa; double sb = 1; for (size_t i = 0; i < b.size(); ++i) sb += fabs(b[i]); for (size_t i = 0; i < b.size(); ++i) b[i] *= 4 / sb; } if (!fir) a[0] = 1;
        Filter::Parameters P; P.a = a; P.b = b; FiltFilt f(P);
        int calls = rng.range(1, 4);
        for (int c = 0; c < calls; ++c) {
            int n = rng.range(0, 2) == 0 ? rng.range(0, 8) : rng.range(0, 40) ? rng.range(0, 150) : rng.range(151, 4500); DV x = rng.vec(n);
            CASE(fmt("call %d order %d b=%s a=%s x=%s", c, sz - 1, show(b).c_str(), show(a).c_str(), show(x, 12).c_str()));
            Buf in(x), out(n, -99); f.process(in, out, n); same("input", in.v(), x);
            eqv("result", out.v(), ref(b, a, x), 1e-8);
        }
    }
    return done("orders 0..15 (some to 69), inputs of 0..149 samples (some to 4500), up to 4 calls per object", "random coefficients and signals; distinct by content");
}
