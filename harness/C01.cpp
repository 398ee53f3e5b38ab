// UNITS: dsp/transforms/FFT.cpp ext/kissfft/kiss_fft.c ext/kissfft/tools/kiss_fftr.c
// OPT: -O2
#include "common.h"
#include "dsp/transforms/FFT.h"
#include <stdexcept>
static std::vector<double> cs, sn; static int tn = 0;
static void table(int n) { if (n == tn) return; tn = n; cs.resize(n); sn.resize(n); for (int i = 0; i < n; ++i) { cs[i] = cos(2 * M_PI * i / n); sn[i] = sin(2 * M_PI * i / n); } }
static void dft(const DV &r, const DV &i, DV &R, DV &I, int s) {
    int n = r.size(); table(n); R.assign(n, 0); I.assign(n, 0);
    for (int k = 0; k < n; ++k) { double a = 0, b = 0; for (int j = 0; j < n; ++j) { int m = int((long long)j * k % n); a += r[j] * cs[m] + s * i[j] * sn[m]; b += i[j] * cs[m] - s * r[j] * sn[m]; } R[k] = a; I[k] = b; }
}
static double scale(const DV &a, const DV &b) { double m = 1e-300; for (size_t i = 0; i < a.size(); ++i) m += fabs(a[i]) + fabs(b[i]); return m; }
static void close(const char *what, const DV &g, const DV &w, double sc) {
    for (size_t i = 0; i < w.size(); ++i) if (!(fabs(g[i] - w[i]) <= 1e-11 * sc)) { FAIL(fmt("%s[%d]: got %.17g, contract says %.17g", what, (int)i, g[i], w[i])); return; }
}
static void one(int n, int calls) {
    FFT f(n); FFTReal *fr = n % 2 == 0 ? new FFTReal(n) : 0;
    for (int c = 0; c < calls; ++c) {
        int k = rng.range(0, 9); DV r = rng.vec(n), i = rng.vec(n); DV R, I;
        if (k == 0) { std::fill(r.begin(), r.end(), 0.0); r[rng.range(0, n - 1)] = 1; }
        bool nul = rng.range(0, 3) == 0; bool inv = rng.range(0, 1); DV z(n, 0.0);
        CASE(fmt("FFT length %d call %d inverse %d null imaginary %d re=%s im=%s", n, c, inv, nul, show(r, 5).c_str(), nul ? "0" : show(i, 5).c_str()));
        { Buf br(r), bi(i), o1(n, -7), o2(n, -7); f.process(inv, br, nul ? 0 : (double *)bi, o1, o2); same("real input", br.v(), r); same("imaginary input", bi.v(), i);
          dft(r, nul ? z : i, R, I, inv ? -1 : 1); double sc = scale(r, i); if (inv) { for (int q = 0; q < n; ++q) R[q] /= n, I[q] /= n; sc /= n; }
          close("real output", o1.v(), R, sc); close("imaginary output", o2.v(), I, sc);
          Buf b1(n, -7), b2(n, -7); f.process(!inv, o1, o2, b1, b2); close("inverse after forward, real", b1.v(), r, scale(r, i)); close("inverse after forward, imaginary", b2.v(), nul ? z : i, scale(r, i)); }
        if (fr) {
            int what = rng.range(0, 2);
            CASE(fmt("FFTReal length %d call %d kind %d x=%s", n, c, what, show(r, 6).c_str()));
            dft(r, z, R, I, 1); double sc = scale(r, z); Buf br(r);
            if (what == 0) { Buf o1(n, -7), o2(n, -7); fr->forward(br, o1, o2); close("real part", o1.v(), R, sc); close("imaginary part", o2.v(), I, sc);
                Buf back(n, -7); Buf h1(n / 2 + 1), h2(n / 2 + 1); for (int q = 0; q <= n / 2; ++q) { h1[q] = o1[q]; h2[q] = o2[q]; } DV k1 = h1.v(), k2 = h2.v(); fr->inverse(h1, h2, back); same("spectrum", h1.v(), k1); same("spectrum", h2.v(), k2); close("inverse after forward", back.v(), r, sc); }
            else if (what == 1) { Buf m(n, -7); fr->forwardMagnitude(br, m); DV w(n); for (int q = 0; q < n; ++q) w[q] = sqrt(R[q] * R[q] + I[q] * I[q]); close("magnitude", m.v(), w, sc); }
            else { // arbitrary half spectrum
                DV re = rng.vec(n / 2 + 1), im = rng.vec(n / 2 + 1); im[0] = im[n / 2] = 0; DV fr1(n, 0.0), fi1(n, 0.0); for (int q = 0; q <= n / 2; ++q) { fr1[q] = re[q]; fi1[q] = im[q]; } for (int q = 1; q < n / 2; ++q) { fr1[n - q] = re[q]; fi1[n - q] = -im[q]; }
                dft(fr1, fi1, R, I, -1); for (int q = 0; q < n; ++q) R[q] /= n; Buf a(re), b(im), o(n, -7); fr->inverse(a, b, o); close("inverse", o.v(), R, scale(fr1, fi1) / n); }
            same("input", br.v(), r);
        }
    }
    delete fr;
}
// a few impulses: the defining sum stays cheap for very long transforms
static void sparse(int n) {
    table(n); int m = rng.range(2, 6); std::vector<int> at; DV r(n, 0.0), i(n, 0.0); for (int q = 0; q < m; ++q) { at.push_back(q == 0 ? n - 1 : q == 1 ? 1 % n : rng.range(0, n - 1)); r[at[q]] = rng.sym(1); i[at[q]] = rng.sym(1); }
    std::sort(at.begin(), at.end()); at.erase(std::unique(at.begin(), at.end()), at.end());
    for (int kind = 0; kind < 3; ++kind) {
        if (kind == 2 && n % 2) break;
        CASE(fmt("length %d, %d impulses, kind %d (0 forward, 1 inverse, 2 real)", n, (int)at.size(), kind)); int s = kind == 1 ? -1 : 1; DV R(n), I(n); DV im = kind == 2 ? DV(n, 0.0) : i;
        for (int k = 0; k < n; ++k) { double a = 0, b = 0; for (size_t q = 0; q < at.size(); ++q) { int j = at[q], x = int((long long)j * k % n); a += r[j] * cs[x] + s * im[j] * sn[x]; b += im[j] * cs[x] - s * r[j] * sn[x]; } R[k] = a; I[k] = b; }
        if (kind == 1) for (int k = 0; k < n; ++k) R[k] /= n, I[k] /= n;
        double sc = scale(r, i) / (kind == 1 ? n : 1); Buf br(r), bi(im), o1(n, -7), o2(n, -7);
        if (kind < 2) { FFT f(n); f.process(kind == 1, br, bi, o1, o2); } else { FFTReal f(n); f.forward(br, o1, o2); }
        close("real output", o1.v(), R, sc); close("imaginary output", o2.v(), I, sc);
        if (kind == 2) { FFTReal f(n); Buf b(n, -7); f.inverse(o1, o2, b); close("inverse after forward", b.v(), r, scale(r, im)); }
    }
}
int main() {
    static const int big[] = { 4096, 6561, 19683, 65536, 59049, 78125, 117649, 131072, 2 * 177147, 1001, 2 * 1009, 3 * 5 * 7 * 11 * 13, 30030, 44100, 48000, 262144, 524288, 3001 };
    for (size_t i = 0; i < sizeof big / sizeof big[0]; ++i) sparse(big[i]);
    int top = g_thorough() ? 700 : 260;
    for (int n = 1; n <= top; ++n) one(n, n <= 64 ? 8 : 3);
    int more[] = { 512, 1000, 1024, 1331, 1536, 2025, 2048, 2310 }; for (int i = 0; i < (g_thorough() ? 8 : 5); ++i) one(more[i], 3);
    for (int n = 1; n < 20; n += 2) { CASE(fmt("FFTReal of odd length %d", n)); bool t = false; try { FFTReal f(n); } catch (const std::invalid_argument &) { t = true; } CHECK(t, "an odd length must be rejected"); }
    return done(fmt("lengths 1..%d and some up to 2310 (up to 524288 with a few impulses), several calls per object", top), "every length, random data; distinct by content");
}
