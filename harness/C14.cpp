// UNITS: dsp/mfcc/MFCC.cpp dsp/transforms/FFT.cpp ext/kissfft/kiss_fft.c ext/kissfft/tools/kiss_fftr.c
#include "common.h"
#include "dsp/mfcc/MFCC.h"
#include "dsp/transforms/FFT.h"
struct Ref {
    MFCCConfig c; DV e; std::vector<DV> w; bool edge;
    Ref(const MFCCConfig &g) : c(g), e(42), w(40), edge(false) {
        for (int i = 0; i < 42; ++i) e[i] = i < 13 ? 66.6666666 + i * 66.66666666 : (66.6666666 + 12 * 66.66666666) * pow(1.0711703, i - 12);
        for (int i = 0; i < 40; ++i) {
            double h = 2 / (e[i + 2] - e[i]); w[i].assign(c.fftsize / 2, 0);
            for (int j = 0; j < c.fftsize / 2; ++j) {
                double f = double(j) / c.fftsize * c.FS;
                for (int k = 0; k < 3; ++k) if (fabs(f - e[i + k]) < 1e-6 * f) edge = true;
                if (f > e[i] && f <= e[i + 1]) w[i][j] = h * (f - e[i]) / (e[i + 1] - e[i]);
                else if (f > e[i + 1] && f < e[i + 2]) w[i][j] = h * (e[i + 2] - f) / (e[i + 2] - e[i + 1]);
            }
        }
    }
    DV run(const DV &re, const DV &im) {
        DV l(40), out;
        for (int i = 0; i < 40; ++i) {
            double s = 0; for (int j = 0; j < c.fftsize / 2; ++j) s += w[i][j] * sqrt(re[j] * re[j] + im[j] * im[j]);
            l[i] = s > 0 ? log10(s) : 0; if (c.logpower != 1) l[i] = pow(l[i], c.logpower);
        }
        for (int k = c.want_c0 ? 0 : 1; k <= c.nceps; ++k) {
            double s = 0; for (int j = 0; j < 40; ++j) s += l[j] * cos(M_PI * k * (j + 0.5) / 40);
            out.push_back(s * sqrt(2.0 / 40) * (k == 0 ? sqrt(0.5) : 1));
        }
        return out;
    }
};
static double win(WindowType t, int i, int n) {
    double x = 2 * M_PI * i / n; if (n <= 1 && t != RectangularWindow) return 1;
    switch (t) {
    case RectangularWindow: return 0.5;
    case HammingWindow: return 0.54 - 0.46 * cos(x);
    case HanningWindow: return 0.5 - 0.5 * cos(x);
    case BlackmanWindow: return 0.42 - 0.5 * cos(x) + 0.08 * cos(2 * x);
    default: return 0.35875 - 0.48829 * cos(x) + 0.14128 * cos(2 * x) - 0.01168 * cos(3 * x);
    }
}
int main() {
    static const int rates[] = { 8000, 11025, 16000, 22050, 44100, 48000, 96000, 1000 };
    static const WindowType types[] = { RectangularWindow, HammingWindow, HanningWindow, BlackmanWindow, BlackmanHarrisWindow };
    int N = g_thorough() ? 1500 : 250;
    for (int t = 0; t < N; ++t) {
        MFCCConfig c(rates[t % 8] + (t % 5 == 0 ? rng.range(0, 1000) : 0));
        c.fftsize = t % 4 == 0 ? 1 << rng.range(1, 11) : 2 * rng.range(1, 400); c.nceps = t % 7 == 0 ? rng.range(0, 60) : rng.range(1, 40);
        c.want_c0 = rng.range(0, 1); c.window = types[rng.range(0, 4)]; c.logpower = t % 3 ? 1 : rng.range(0, 3);
        Ref r(c); if (r.edge) continue;
        int n = c.fftsize, h = n / 2 + 1, K = c.nceps + (c.want_c0 ? 1 : 0);
        MFCC m(c); MFCCConfig c2 = c; c2.want_c0 = !c.want_c0; MFCC m2(c2); FFTReal F(n);
        eq("getfftlength", m.getfftlength(), n);
        for (int k = 0; k < 3; ++k) {
            DV x(n); double amp = k == 2 && t % 5 == 0 ? 0 : pow(10.0, rng.range(-4, 3)); for (int i = 0; i < n; ++i) x[i] = rng.sym(amp);
            CASE(fmt("rate %d frame %d coefficients %d c0 %d logpower %g window %d frame no %d %s", c.FS, n, c.nceps, int(c.want_c0), c.logpower, int(c.window), k, show(x, 4).c_str()));
            DV y(n), re(n), im(n); for (int i = 0; i < n; ++i) y[i] = x[i] * win(c.window, i, n);
            F.forward(&y[0], &re[0], &im[0]);
            re.resize(h); im.resize(h); DV want = r.run(re, im);
            Buf bx(x), o1(K, 7), bre(re), bim(im), o2(K, 7), o3(c2.nceps + (c2.want_c0 ? 1 : 0), 7);
            eq("return value", m.process(bx, o1), c.nceps); same("frame", bx.v(), x);
            eqv("coefficients (time domain)", o1.v(), want, 1e-6);
            m.process(bre, bim, o2); same("spectrum", bre.v(), re);
            eqv("coefficients (frequency domain)", o2.v(), want, 1e-9);
            m2.process(bre, bim, o3);
            for (int i = 1; i <= c.nceps; ++i) eq(fmt("coefficient %d with and without the zeroth", i), o3.v()[i - (c2.want_c0 ? 0 : 1)], o2.v()[i - (c.want_c0 ? 0 : 1)], 1e-12);
        }
    }
    return done("frame lengths 2..2048 (even), 0..60 coefficients, 5 windows, log powers 0..3, rates 1000..97000, 3 frames per object", "random noise and silent frames; distinct by configuration and content; configurations with a bin on a filter edge skipped");
}
