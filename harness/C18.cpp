// UNITS: dsp/tempotracking/DownBeat.cpp maths/MathUtilities.cpp dsp/rateconversion/Decimator.cpp dsp/transforms/FFT.cpp ext/kissfft/kiss_fft.c ext/kissfft/tools/kiss_fftr.c
// OPT: -O2
#include "common.h"
#include "dsp/tempotracking/DownBeat.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/transforms/FFT.h"
typedef std::vector<float> FV; typedef std::vector<int> IV;
static const double EPS_ = 2.2204e-016;
static DV spectrum(const FV &audio, size_t a, size_t b, int L) {
    DV f(L), re(L), im(L), s(L / 2), r(L / 2); size_t len = b - a;
    for (size_t j = 0; j < len && (int)j < L; ++j) f[j] = audio[a + j] * 0.5 * (1 - cos(2 * M_PI * (double(j) / double(len))));
    FFTReal fft(L); fft.forward(&f[0], &re[0], &im[0]);
    for (int k = 0; k < L / 2; ++k) s[k] = sqrt(re[k] * re[k] + im[k] * im[k]);
    for (int k = 0; k < L / 2; ++k) { int p = std::max(0, k - 8), q = std::min(L / 2 - 1, k + 7); double t = 0; for (int i = p; i <= q; ++i) t += s[i]; r[k] = std::max(0.0, s[k] - t / (q - p + 1)); }
    return r;
}
static double js(const DV &o, const DV &w) {
    int m = std::min(512, int(o.size()) / 4); double so = 0, sw = 0, d = 0;
    for (int i = 0; i < m; ++i) { so += o[i] + EPS_; sw += w[i] + EPS_; }
    for (int i = 0; i < m; ++i) { double p = (o[i] + EPS_) / so, q = (w[i] + EPS_) / sw, h = (p + q) / 2; d += -h * log(h) + p * log(p) / 2 + q * log(q) / 2; }
    return d;
}
static int frameSize(float rate, int factor) { int n = int((rate / factor) * 1.3), p = 1; while (p < n) p *= 2; return std::max(2, p); }
static void reference(const FV &audio, const DV &beats, int inc, int factor, int L, int bpb, DV &sd, IV &db, bool &tie) {
    sd.clear(); db.clear(); tie = false; if (audio.empty()) return;
    DV prev; int nb = beats.size();
    for (int i = 0; i + 1 < nb; ++i) {
        size_t a = (beats[i] * inc) / factor, b = (beats[i + 1] * inc) / factor;
        if (b >= audio.size()) b = audio.size() - 1;
        if (b < a) b = a;
        DV s = spectrum(audio, a, b, L); if (i) sd.push_back(js(prev, s)); prev = s;
    }
    if (bpb == 0) bpb = 4;
    int best = 0; DV mean(bpb);
    for (int ph = 0; ph < bpb; ++ph) {
        double t = 0; int n = 0; for (int e = ph; e - 1 < (int)sd.size(); e += bpb) if (e >= 1) { t += sd[e - 1]; ++n; }
        if (n) mean[ph] = t / n;
        if (mean[ph] > mean[best]) best = ph;
    }
    for (int ph = 0; ph < bpb; ++ph) if (ph != best && mean[best] - mean[ph] < 1e-9 * (1e-6 + fabs(mean[best]))) tie = true;
    if (nb < 3) tie = false;
    for (int k = best; k < nb; k += bpb) db.push_back(k);
}
static void check(DownBeat &d, const float *p, const FV &audio, const DV &beats, int inc, int factor, int L, int bpb) {
    IV got(2, -7); DV sd, w, b0 = beats; IV wd; bool tie;
    d.findDownBeats(p, audio.size(), beats, got); d.getBeatSD(sd);
    reference(audio, beats, inc, factor, L, bpb, w, wd, tie);
    eqv("spectral difference", sd, w, 1e-9);
    CHECK(got.size() >= 2 && got[0] == -7 && got[1] == -7, "earlier contents kept"); got.erase(got.begin(), got.begin() + 2);
    int ts = bpb ? bpb : 4;
    for (size_t i = 0; i < got.size(); ++i) { CHECK(got[i] >= 0 && got[i] < (int)beats.size(), fmt("downbeat %d outside the beats", got[i])); if (i) CHECK(got[i] == got[i-1] + ts, "one downbeat per bar"); }
    if (!tie) { CHECK(got.size() == wd.size(), fmt("%d downbeats, contract says %d", (int)got.size(), (int)wd.size())); for (size_t i = 0; i < got.size() && i < wd.size(); ++i) CHECK(got[i] == wd[i], fmt("downbeat %d at %d, contract says %d", (int)i, got[i], wd[i])); }
    IV again; DV sd2; d.findDownBeats(p, audio.size(), beats, again); d.getBeatSD(sd2); CHECK(again == got, "repeated"); eqv("repeated difference", sd2, sd, 0);
    same("beats", beats, b0);
}
int main() {
    int N = g_thorough() ? 1500 : 220;
    for (int t = 0; t < N; ++t) {   // direct calls
        int factor = 1 << rng.range(0, 6), inc = factor * rng.range(1, 40); bool big = t % 20 == 10; float rate = factor * (big ? rng.range(1600, 6000) : rng.range(2, t % 10 ? 400 : 2800));
        int n = big ? rng.range(12000, 40000) : t % 9 == 0 ? rng.range(0, 3) : rng.range(1, 4000), nb = t % 7 == 0 ? rng.range(0, 3) : rng.range(2, 40), bpb = rng.range(0, 9); bool frac = rng.range(0, 1);
        FV a(n); double f = 0.1; for (int i = 0; i < n; ++i) { if (rng.range(0, 200) == 0) f = rng.uni() * 3; a[i] = float(sin(f * i) + rng.sym(big ? 2 : 0.1)); if (t % 5 == 0 && i % 700 < 300) a[i] = 0; }
        DV beats; double p = rng.uni() * 3; for (int i = 0; i < nb; ++i) { beats.push_back(frac ? p : floor(p)); p += (n * double(factor) / inc) / (nb + 1) * (0.5 + 1.2 * rng.uni()); }
        CASE(fmt("findDownBeats rate %g factor %d increment %d length %d beats %s bpb %d seed case %d", rate, factor, inc, n, show(beats).c_str(), bpb, t));
        DownBeat d(rate, factor, inc); if (bpb || rng.range(0, 1)) d.setBeatsPerBar(bpb);
        FV copy = a; check(d, n ? &a[0] : 0, a, beats, inc, factor, frameSize(rate, factor), bpb); CHECK(a == copy, "audio modified");
    }
    for (int t = 0; t < (g_thorough() ? 400 : 80); ++t) {   // pushed blocks
        int factor = 1 << rng.range(0, 6), inc = factor * 8 * rng.range(1, 12), blocks = rng.range(0, 40); float rate = factor * rng.range(2, 300);
        if (t % 8 == 0) { factor = 64; inc = 64 * rng.range(1, 5) * 8; blocks = 16 * 64 + rng.range(1, 20); }   // growth of the buffer
        CASE(fmt("pushAudioBlock factor %d increment %d blocks %d rate %g", factor, inc, blocks, rate));
        DownBeat d(rate, factor, inc); d.setBeatsPerBar(3); FV want;
        int hi = std::min(factor, (int)Decimator::getHighestSupportedFactor());
        Decimator d1(inc, std::max(2, hi)), d2(std::max(1, inc / hi), std::max(2, factor / hi));
        size_t len; CHECK((d.getBufferedAudio(len), len) == 0, "empty at first");
        for (int b = 0; b < blocks; ++b) {
            float *blk = (float *)malloc(inc * sizeof(float)); for (int i = 0; i < inc; ++i) blk[i] = rng.sym();
            d.pushAudioBlock(blk); FV o1(blk, blk + inc), o2(inc / hi);
            if (factor > 1) { d1.process(&o1[0], &o2[0]); o1 = o2; } if (factor > hi) { o2.assign(inc / factor, 0); d2.process(&o1[0], &o2[0]); o1 = o2; }
            want.insert(want.end(), o1.begin(), o1.begin() + inc / factor); free(blk);
        }
        const float *p = d.getBufferedAudio(len); CHECK(len == want.size(), fmt("%d samples buffered, contract says %d", (int)len, (int)want.size()));
        for (size_t i = 0; i < len && i < want.size(); ++i) if (!near(p[i], want[i], 1e-6)) { FAIL(fmt("buffered sample %d: %g, contract says %g", (int)i, p[i], want[i])); break; }
        DV beats; int nb = rng.range(2, 12); for (int i = 0; i < nb; ++i) beats.push_back(floor(i * double(blocks) / nb));
        check(d, p, want, beats, inc, factor, frameSize(rate, factor), 3);
        d.resetAudioBuffer(); p = d.getBufferedAudio(len); CHECK(len == 0, "reset");
        FV z(inc); d.pushAudioBlock(&z[0]); d.getBufferedAudio(len); CHECK((int)len == inc / factor, "after reset");
    }
    return done("rates giving beat frames of 2 to 8192 points, factors 1..64, increments to 7680, up to 40000 samples, 0..40 beats, bars of 0..9 beats, up to 1100 pushed blocks", "Hann-windowed beat frames, thresholded magnitude spectra, Jensen-Shannon divergence, best phase, written independently; the real Decimator and FFTReal (C09, C01) are used for their part");
}
