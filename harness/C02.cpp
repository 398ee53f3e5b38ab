// UNITS: dsp/transforms/DCT.cpp dsp/transforms/FFT.cpp ext/kissfft/kiss_fft.c ext/kissfft/tools/kiss_fftr.c
// OPT: -O2
#include "common.h"
#include "dsp/transforms/DCT.h"
static DV dct2(const DV &x, bool unit) {
    int n = x.size(); DV y(n); static DV tab; if ((int)tab.size() != 4 * n) { tab.resize(4 * n); for (int i = 0; i < 4 * n; ++i) tab[i] = cos(M_PI * i / (2.0 * n)); }
    for (int k = 0; k < n; ++k) { double s = 0; for (int j = 0; j < n; ++j) s += x[j] * tab[(long long)k * (2 * j + 1) % (4 * n)]; y[k] = 2 * s; if (unit) y[k] *= (k ? sqrt(1.0 / (2 * n)) : sqrt(1.0 / (4 * n))); }
    return y;
}
static double amp(const DV &x) { double m = 1e-300; for (size_t i = 0; i < x.size(); ++i) m += fabs(x[i]); return m; }
static void close(const char *what, const DV &g, const DV &w, double sc) { for (size_t i = 0; i < w.size(); ++i) if (!(fabs(g[i] - w[i]) <= 1e-11 * sc)) { FAIL(fmt("%s[%d]: got %.17g, contract says %.17g", what, (int)i, g[i], w[i])); return; } }
int main() {
    int top = g_thorough() ? 400 : 130;
    static const int more[] = { 200, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 1500, 2048, 2049 };
    for (int ni = 1; ni <= top + int(sizeof more / sizeof more[0]); ++ni) {
        int n = ni <= top ? ni : more[ni - top - 1];
        DCT d(n); int calls = n < 40 ? 14 : 5; std::string hist;
        for (int c = 0; c < calls; ++c) {
            DV x = rng.vec(n); double m = rng.range(0, 3) == 0 ? pow(10.0, rng.range(-6, 12)) : 1; for (int i = 0; i < n; ++i) x[i] *= m;
            int what = rng.range(0, 3); hist += "fuiv"[what];
            CASE(fmt("n %d calls so far %s (f/u forward/unitary, i/v inverse/unitary) x=%s", n, hist.c_str(), show(x, 6).c_str()));
            Buf in(x), out(n, -7); bool unit = what == 1 || what == 3;
            if (what < 2) { unit ? d.forwardUnitary(in, out) : d.forward(in, out); close("forward", out.v(), dct2(x, unit), amp(x)); }
            else { DV y = dct2(x, unit); Buf iy(y); unit ? d.inverseUnitary(iy, out) : d.inverse(iy, out); close("inverse", out.v(), x, amp(x)); same("input", iy.v(), y); }
            same("input", in.v(), x);
        }
    }
    return done(fmt("lengths 1..%d and some up to 2049, 5 to 14 calls of all four kinds per object, magnitudes 1e-6..1e12", top), "every length, random data; distinct by content");
}
