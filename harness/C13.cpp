// UNITS: dsp/keydetection/GetKeyMode.cpp dsp/chromagram/ConstantQ.cpp dsp/chromagram/Chromagram.cpp dsp/rateconversion/Decimator.cpp base/Pitch.cpp maths/MathUtilities.cpp dsp/transforms/FFT.cpp ext/kissfft/kiss_fft.c ext/kissfft/tools/kiss_fftr.c
#include "common.h"
#define protected public
#include "dsp/keydetection/GetKeyMode.h"
#undef protected
#include "dsp/chromagram/Chromagram.h"
#include "dsp/rateconversion/Decimator.h"
#include "base/Pitch.h"
static const double MAJ[36] = { .0384, .0629, .0258, .0121, .0146, .0106, .0364, .0610, .0267, .0126, .0121, .0086, .0364, .0623, .0279, .0275, .0414, .0186, .0173, .0248, .0145, .0364, .0631, .0262, .0129, .0150, .0098, .0312, .0521, .0235, .0129, .0142, .0095, .0289, .0478, .0239 };
static const double MIN[36] = { .0375, .0682, .0299, .0119, .0138, .0093, .0296, .0543, .0257, .0292, .0519, .0246, .0159, .0234, .0135, .0291, .0544, .0248, .0137, .0176, .0104, .0352, .0670, .0302, .0222, .0349, .0164, .0174, .0297, .0166, .0222, .0401, .0202, .0175, .0270, .0146 };
static DV centred(const double *p) { double m = 0; for (int i = 0; i < 36; ++i) m += p[i] / 36; DV r(36); for (int i = 0; i < 36; ++i) r[i] = p[i] - m; return r; }
static DV corrs(const DV &d, const DV &p) {
    DV r(36); for (int k = 0; k < 36; ++k) { double n = 0, a = 0, b = 0; for (int i = 0; i < 36; ++i) { double q = p[(i - k + 2 + 72) % 36]; n += d[i] * q; a += d[i] * d[i]; b += q * q; } r[k] = sqrt(a * b) > 0 ? n / sqrt(a * b) : 0; }
    return r;
}
static DV tones(int n, double fs, int kind) {
    DV x(n); int m = kind == 0 ? 0 : rng.range(1, 5);
    for (int t = 0; t < m; ++t) { double f = 130 * exp2(rng.uni() * 3.5), a = rng.uni(), ph = rng.sym(3); for (int i = 0; i < n; ++i) x[i] += a * sin(2 * M_PI * f * i / fs + ph); }
    if (kind != 0) for (int i = 0; i < n; ++i) x[i] += rng.sym(kind == 2 ? 0.5 : 1e-3);
    return x;
}
struct K : GetKeyMode { K(Config c) : GetKeyMode(c) {} };
int main() {
    DV pm = centred(MAJ), pn = centred(MIN);
    // the correlation on arbitrary data
    { GetKeyMode::Config c(500, 440); c.decimationFactor = 1; K g(c);
      for (int t = 0; t < 3000; ++t) {
        int n = rng.range(1, 40), s = rng.range(-n, n); DV d = rng.vec(n), p = rng.vec(n);
        CASE(fmt("correlation, shift %d of %d %s %s", s, n, show(d).c_str(), show(p).c_str()));
        double num = 0, a = 0, b = 0; for (int i = 0; i < n; ++i) { double q = p[((i - s) % n + n) % n]; num += d[i] * q; a += d[i] * d[i]; b += q * q; }
        Buf bd(d), bp(p); eq("correlation", g.krumCorr(bd, bp, s, n), sqrt(a * b) > 0 ? num / sqrt(a * b) : 0, 1e-9); same("data", bd.v(), d); same("profile", bp.v(), p);
      }
      for (int t = 0; t < 300; ++t) {
        for (int i = 0; i < 36; ++i) { g.m_majCorr[i] = t % 3 ? rng.sym(1) : -rng.uni(); g.m_minCorr[i] = t % 5 ? rng.sym(1) : -rng.uni(); }
        CASE(fmt("strengths of random correlations %d", t)); const double *s = g.getKeyStrengths();
        for (int i = 0; i < 12; ++i) { eq(fmt("strength of major key %d", i), s[i], std::max(g.m_majCorr[3 * i], std::max(g.m_majCorr[3 * i + 1], g.m_majCorr[3 * i + 2])), 0); eq(fmt("strength of minor key %d", i), s[12 + i], std::max(g.m_minCorr[3 * i], std::max(g.m_minCorr[3 * i + 1], g.m_minCorr[3 * i + 2])), 0); }
      } }
    int T = g_thorough() ? 120 : 24;
    for (int t = 0; t < T; ++t) {
        static const int dec[] = { 1, 2, 4, 8 };
        GetKeyMode::Config c(1000, t % 3 ? 440 : 415 + rng.range(0, 60)); c.decimationFactor = dec[t % 4];
        c.sampleRate = c.decimationFactor * (t % 6 == 5 ? 2205 : rng.range(200, 900)); c.frameOverlapFactor = t % 2 ? 1 : 1 << rng.range(0, 3);
        double FS = c.sampleRate / c.decimationFactor;
        ChromaConfig g; g.FS = FS; g.min = Pitch::getFrequencyForPitch(48, 0, c.tuningFrequency); g.max = Pitch::getFrequencyForPitch(96, 0, c.tuningFrequency); g.BPO = 36; g.CQThresh = 0.0054; g.normalise = MathUtilities::NormaliseUnitMax;
        Chromagram ch(g); int N = ch.getFrameSize();
        double fl = N / FS; c.hpcpAverage = t % 8 == 3 ? 0 : fl * (rng.range(0, 5) + 0.5); c.medianAverage = t % 8 == 6 ? 0 : fl * (rng.range(0, 8) + 0.5);
        int C = std::max(1, int(ceil(c.hpcpAverage * FS / N))), W = std::max(1, int(ceil(c.medianAverage * FS / N)));
        K a(c), b(c); Decimator d(N * c.decimationFactor, c.decimationFactor); double gain = exp2(rng.range(-12, 12));
        CASE(fmt("rate %g tuning %g decimation %d overlap %d averages %g %g", c.sampleRate, c.tuningFrequency, c.decimationFactor, c.frameOverlapFactor, c.hpcpAverage, c.medianAverage));
        int B = N * c.decimationFactor; eq("getBlockSize", a.getBlockSize(), B); eq("getHopSize", a.getHopSize(), N / c.frameOverlapFactor * c.decimationFactor); if (g_fails) return 1;
        std::vector<DV> hist; std::vector<int> keys; bool sure = true; DV sig = tones(B, c.sampleRate, rng.range(1, 2));
        for (int f = 0; f < 14; ++f) {
            if (rng.range(0, 2) == 0) sig = tones(B, c.sampleRate, t % 5 == 4 && f < 3 ? 0 : rng.range(0, 9) == 0 ? 0 : rng.range(1, 2));
            DV x = sig, y(x); for (int i = 0; i < B; ++i) y[i] = x[i] * gain;
            CASE(fmt("rate %g tuning %g decimation %d overlap %d averages %g %g frame %d %s", c.sampleRate, c.tuningFrequency, c.decimationFactor, c.frameOverlapFactor, c.hpcpAverage, c.medianAverage, f, show(x, 3).c_str()));
            Buf bx(x), by(y); int k = a.process(bx), kb = b.process(by); same("audio", bx.v(), x);
            DV z(N); d.process(&x[0], &z[0]); const double *o = ch.process(&z[0]); hist.push_back(DV(o, o + 36)); if ((int)hist.size() > C) hist.erase(hist.begin());
            DV m(36); double tot = 0; for (int i = 0; i < 36; ++i) { for (size_t q = 0; q < hist.size(); ++q) m[i] += hist[q][i]; m[i] /= hist.size(); tot += m[i] / 36; }
            double mag = 0; for (int i = 0; i < 36; ++i) { m[i] -= tot; mag = std::max(mag, fabs(m[i])); }
            if (mag < 1e-9) std::fill(m.begin(), m.end(), 0.0);
            DV r = corrs(m, pm), s = corrs(m, pn); r.insert(r.end(), s.begin(), s.end());
            const double *ks = a.getKeyStrengths();
            double best = *std::max_element(r.begin(), r.end()); std::set<int> cand; for (int i = 0; i < 72; ++i) if (r[i] > best - 1e-9) cand.insert(i / 3 + 1);
            for (int i = 0; i < 24; ++i) eq(fmt("strength of key %d", i + 1), ks[i], std::max(r[3 * i], std::max(r[3 * i + 1], r[3 * i + 2])), 1e-7);
            CHECK(k >= 1 && k <= 24, fmt("key %d out of range", k));
            CHECK(k == kb, fmt("key %d at gain 1, %d at gain %g", k, kb, gain));
            int now = *cand.begin(); if (cand.size() > 1) { now = a.m_medianFilterBuffer[a.m_medianWinSize - 1]; CHECK(cand.count(now), fmt("recorded key %d is not among the best", now)); }
            keys.push_back(now); if ((int)keys.size() > W) keys.erase(keys.begin());
            std::vector<int> q = keys; std::sort(q.begin(), q.end()); int want = q[(q.size() + 1) / 2 - 1];
            if (k != want) FAIL(fmt("key: got %d, contract says %d", k, want));
            if (g_fails) return 1;
        }
    }
    return done("correlations of length 1..40, 14 frames for 24 configurations (rates 200..17640, decimation 1..8, tunings 415..475, histories of 1..9)", "tones, noise and silence at two levels; distinct by configuration and content; ties may go either way");
}
