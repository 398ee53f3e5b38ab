// UNITS: dsp/onsets/DetectionFunction.cpp dsp/phasevocoder/PhaseVocoder.cpp maths/MathUtilities.cpp dsp/transforms/FFT.cpp ext/kissfft/kiss_fft.c ext/kissfft/tools/kiss_fftr.c
#include "common.h"
#include "dsp/onsets/DetectionFunction.h"
#include "dsp/transforms/FFT.h"
static double wrap(double x) { double y = x - 2 * M_PI * floor((x + M_PI) / (2 * M_PI)); return y; }
struct Ref {
    DFConfig c; int h; DV M, P, Q, K, mag;
    Ref(const DFConfig &c_) : c(c_), h(c_.frameLength / 2 + 1), M(h), P(h), Q(h), K(h) {}
    double frame(const DV &re, const DV &im, bool &edge) {
        mag.assign(h, 0); DV th(h); double v = 0; edge = false;
        double relax = c.whiteningRelaxCoeff < 0 ? 0.9997 : c.whiteningRelaxCoeff, fl = c.whiteningFloor < 0 ? 0.01 : c.whiteningFloor;
        for (int i = 0; i < h; ++i) {
            mag[i] = sqrt(re[i] * re[i] + im[i] * im[i]); th[i] = atan2(im[i], re[i]);
            if (c.adaptiveWhitening) { double p = mag[i]; if (p < K[i]) p += (K[i] - p) * relax; p = std::max(p, fl); K[i] = p; mag[i] /= p; }
            double d = wrap(th[i] - 2 * P[i] + Q[i]), a = M[i] - mag[i] * cos(d), b = mag[i] * sin(d);
            switch (c.DFType) {
            case DF_HFC: v += mag[i] * (i + 1); break;
            case DF_SPECDIFF: v += sqrt(fabs(mag[i] * mag[i] - M[i] * M[i])); M[i] = mag[i]; break;
            case DF_PHASEDEV: v += fabs(d); Q[i] = P[i]; P[i] = th[i]; break;
            case DF_COMPLEXSD: v += sqrt(a * a + b * b); Q[i] = P[i]; P[i] = th[i]; M[i] = mag[i]; break;
            case DF_BROADBAND: if (M[i] > 0) { double r = 10 * log10(mag[i] * mag[i] / M[i]); if (fabs(r - c.dbRise) < 1e-9 * (1 + fabs(r))) edge = true; if (r > c.dbRise) v += 1; } M[i] = mag[i] * mag[i]; break;
            }
        }
        return v;
    }
};
int main() {
    int N = g_thorough() ? 3000 : 400;
    for (int t = 0; t < N; ++t) {
        DFConfig c; int n = t < 50 ? 2 * (t / 10 + 1) : 2 * rng.range(1, t % 9 ? 40 : 256); if (t % 60 >= 50 && t % 60 < 55) n = 1024 << rng.range(0, 1);
        c.frameLength = n; c.stepSize = rng.range(1, n); c.DFType = 1 + t % 5; c.dbRise = rng.range(0, 2) ? 3 : rng.sym(10); c.adaptiveWhitening = rng.range(0, 1); c.whiteningRelaxCoeff = rng.range(0, 1) ? -1 : rng.range(0, 4) == 0 ? rng.range(0, 1) : rng.uni(); c.whiteningFloor = rng.range(0, 1) ? -1 : rng.range(0, 5) == 0 && t % 13 ? 0 : rng.uni() * 2 + 1e-6;
        double f = rng.uni() * 3, amp = rng.range(0, 3) ? 1 : 1e-3; bool silent = t % 13 == 0;
        CASE(fmt("detection function %d frame %d step %d rise %g whitening %d (%g, %g) frequency %g amplitude %g silent %d", c.DFType, n, c.stepSize, c.dbRise, (int)c.adaptiveWhitening, c.whiteningRelaxCoeff, c.whiteningFloor, f, amp, (int)silent));
        DetectionFunction td(c), fd(c), mx(c); Ref r(c); FFTReal fft(n); int h = n / 2 + 1;
        for (int fr = 0; fr < (t % 30 < 5 ? 60 : g_thorough() ? 15 : 7); ++fr) {
            DV x(n), y(n), re(n), im(n); double g = rng.range(0, 3) == 0 ? 10 * rng.uni() + (c.whiteningFloor == 0 ? 0.1 : 0) : rng.range(0, 5) || c.whiteningFloor == 0 ? 1 : 0;
            for (int j = 0; j < n; ++j) x[j] = silent ? 0 : g * amp * (sin(f * (fr * c.stepSize + j)) + rng.sym(0.2));
            for (int j = 0; j < n; ++j) y[(j + n / 2) % n] = x[j] * (n > 1 ? 0.5 - 0.5 * cos(2 * M_PI * j / n) : 1);
            fft.forward(&y[0], &re[0], &im[0]); re.resize(h); im.resize(h);
            Buf bx(x), br(re), bi(im); double a = td.processTimeDomain(bx), b = fd.processFrequencyDomain(br, bi), m = rng.range(0, 1) ? mx.processTimeDomain(bx) : mx.processFrequencyDomain(br, bi);
            same("frame", bx.v(), x); same("reals", br.v(), re); same("imags", bi.v(), im);
            bool edge; double w = r.frame(re, im, edge); if (edge) break;
            eq(fmt("frame %d from the spectrum", fr), b, w, 1e-9);
            // sub-rounding bins have arbitrary phases in the time domain: compare when no bin is negligible
            bool ok = true; double big = 0; for (int i = 0; i < h; ++i) big = std::max(big, hypot(re[i], im[i])); for (int i = 0; i < h; ++i) if (hypot(re[i], im[i]) < 1e-6 * big) ok = false;
            if (!ok && !silent) break;
            eq(fmt("frame %d from the samples", fr), a, w, 1e-8); eq(fmt("frame %d, either input", fr), m, w, 1e-8);
            CHECK(a >= 0 && b >= 0, "negative"); if (silent) { eq("silence", a, 0, 0); eq("silence", b, 0, 0); }
            for (int i = 0; i < h; ++i) { eq(fmt("magnitude[%d]", i), fd.getSpectrumMagnitude()[i], r.mag[i], 1e-9); eq(fmt("magnitude[%d]", i), td.getSpectrumMagnitude()[i], r.mag[i], 1e-8); }
        }
    }
    return done("even frame lengths 2..80, to 512 and a few to 2048, all five types, with and without whitening, up to 60 frames", "definitions written independently over the spectrum of the Hann-windowed, rotated frame (FFTReal: C01); frames with negligible bins are compared through the spectrum interface only");
}
