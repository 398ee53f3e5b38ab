// UNITS: dsp/phasevocoder/PhaseVocoder.cpp maths/MathUtilities.cpp dsp/transforms/FFT.cpp ext/kissfft/kiss_fft.c ext/kissfft/tools/kiss_fftr.c
#include "common.h"
#include "dsp/phasevocoder/PhaseVocoder.h"
static double wrap(double x) { return x - 2 * M_PI * floor((x + M_PI) / (2 * M_PI)); }
struct Ref { int n, hop; DV th, un; Ref(int n_, int h) : n(n_), hop(h) { reset(); } double om(int i) { return 2 * M_PI * hop * i / n; } void reset() { th.assign(n / 2 + 1, 0); for (int i = 0; i <= n / 2; ++i) th[i] = -om(i); un = th; } };
int main() {
    int N = g_thorough() ? 2500 : 300;
    for (int t = 0; t < N; ++t) {
        int n = t < 30 ? 2 * (t / 2 + 1) : 2 * rng.range(1, t % 10 ? 40 : 256), big_ = t % 50 == 31 ? (n = 1024 << rng.range(0, 1)) : 0, hop = t % 5 == 0 ? rng.range(1, 4 * n) : rng.range(1, n), kind = rng.range(0, 4), h = n / 2 + 1;
        double f = rng.uni() * 3.2, amp = kind == 3 ? 1e-6 : kind == 4 ? 1e5 : 1, ph = rng.sym(3);
        CASE(fmt("PhaseVocoder(%d, %d) signal kind %d frequency %g phase %g", n, hop, kind, f, ph));
        PhaseVocoder p(n, hop), q(n, hop); Ref r(n, hop);
        DV ct(n), st(n); for (int j = 0; j < n; ++j) { ct[j] = cos(2 * M_PI * j / n); st[j] = sin(2 * M_PI * j / n); }
        for (int fr = 0; fr < (t % 20 == 3 ? 60 : g_thorough() ? 12 : 6); ++fr) {
            bool silent = kind == 0 && fr % 3 == 1; DV x(n), sh(n), re(h), im(h);
            for (int j = 0; j < n; ++j) x[j] = silent ? 0 : kind == 2 ? rng.sym() : amp * (cos(f * (fr * hop + j) + ph) + rng.sym(1e-3));
            for (int j = 0; j < n; ++j) sh[j] = x[(j + n / 2) % n];
            double big = 1e-300; for (int k = 0; k < h; ++k) { for (int j = 0; j < n; ++j) { int a = (long)j * k % n; re[k] += sh[j] * ct[a]; im[k] -= sh[j] * st[a]; } big = std::max(big, fabs(re[k]) + fabs(im[k])); }
            Buf bx(x), m(h), th(h), un(h), m2(h), th2(h), un2(h), br(re), bi(im);
            p.processTimeDomain(bx, m, th, un); same("frame", bx.v(), x);
            q.processFrequencyDomain(br, bi, m2, th2, un2); same("reals", br.v(), re); same("imags", bi.v(), im);
            for (int k = 0; k < h; ++k) {
                double mm = sqrt(re[k] * re[k] + im[k] * im[k]);
                if (fabs(m[k] - mm) > 1e-10 * n * big) FAIL(fmt("frame %d bin %d magnitude %.17g, contract says %.17g", fr, k, m[k], mm));
                eq("magnitude from spectrum", m2[k], mm, 1e-12); eq("phase from spectrum", th2[k], atan2(im[k], re[k]), 1e-12);
                if (mm > 1e-7 * big) CHECK(fabs(wrap(th[k] - atan2(im[k], re[k]))) < 1e-5, fmt("frame %d bin %d phase %.17g, contract says %.17g", fr, k, th[k], atan2(im[k], re[k])));
                double dev = un[k] - r.un[k] - r.om(k), tol = 1e-9 * (1 + fabs(un[k]) + fabs(r.un[k]));
                CHECK(fabs(dev) <= M_PI + tol, fmt("frame %d bin %d deviation %.17g from the expected advance", fr, k, dev));
                CHECK(fabs(wrap(un[k] - th[k])) < tol, fmt("frame %d bin %d unwrapped phase %.17g not congruent to %.17g", fr, k, un[k], th[k]));
                r.un[k] = un[k]; r.th[k] = th[k];
            }
            // the two interfaces: same recurrence on their own phases
            static DV un2prev; if (fr == 0) { un2prev.assign(h, 0); for (int k = 0; k < h; ++k) un2prev[k] = -r.om(k); }
            for (int k = 0; k < h; ++k) { double dev = un2[k] - un2prev[k] - r.om(k), tol = 1e-9 * (1 + fabs(un2[k])); CHECK(fabs(dev) <= M_PI + tol, fmt("frame %d bin %d deviation %.17g (spectrum input)", fr, k, dev)); CHECK(fabs(wrap(un2[k] - th2[k])) < tol, fmt("frame %d bin %d unwrapped phase %.17g not congruent to %.17g (spectrum input)", fr, k, un2[k], th2[k])); un2prev[k] = un2[k]; }
            if (rng.range(0, 3) == 0) {   // reset: like a new object
                p.reset(); r.reset(); PhaseVocoder z(n, hop); Buf a1(h), a2(h), a3(h), b1(h), b2(h), b3(h);
                p.processTimeDomain(bx, a1, a2, a3); z.processTimeDomain(bx, b1, b2, b3); eqv("after reset: magnitude", a1.v(), b1.v(), 0); eqv("after reset: phase", a2.v(), b2.v(), 0); eqv("after reset: unwrapped", a3.v(), b3.v(), 0);
                r.un = a3.v(); r.th = a2.v();
            }
        }
    }
    return done("even frame lengths 2..80, to 512 and a few to 2048, hops to four frames, up to 60 frames, resets in between", "direct DFT of the rotated frame, congruence and deviation of the unwrapped phase; distinct by signal");
}
