// UNITS: dsp/tempotracking/TempoTrackV2.cpp dsp/tempotracking/TempoTrack.cpp dsp/signalconditioning/DFProcess.cpp dsp/signalconditioning/FiltFilt.cpp dsp/signalconditioning/Filter.cpp dsp/signalconditioning/Framer.cpp maths/MathUtilities.cpp maths/Correlation.cpp
// OPT: -O2
#include "common.h"
#include "dsp/tempotracking/TempoTrackV2.h"
#include "dsp/tempotracking/TempoTrack.h"
typedef std::vector<int> IV; typedef std::vector<DV> DM;
static int argmax0(const DV &v) { int b = 0; double m = 0; for (size_t i = 0; i < v.size(); ++i) if (v[i] > m) { m = v[i]; b = i; } return b; }
static double max0(const DV &v) { double m = 0; for (size_t i = 0; i < v.size(); ++i) if (v[i] > m) m = v[i]; return m; }
static double rnd(double x) { return x < 0 ? -floor(-x + 0.5) : floor(x + 0.5); }
static void thresh(DV &d) { DV s(d); int n = d.size(); for (int i = 0; i < n; ++i) { int a = std::max(0, i - 8), b = std::min(n - 1, i + 7); double t = 0; for (int k = a; k <= b; ++k) t += s[k]; d[i] = std::max(0.0, s[i] - t / (b - a + 1)); } }
// ---- beat placement: best path of the dynamic programme
static DV refBeats(const DV &df, const DV &bp, double alpha, double tight, bool &tie) {
    int n = df.size(); DV score(n); IV link(n); tie = false;
    for (int i = 0; i < n; ++i) {
        double mu = bp[i]; double best = 0, second = 0; int bi = int(-2 * mu);
        for (int d = int(-2 * mu); d <= int(rnd(-0.5 * mu)); ++d) {
            int j = i + d; double lag = rnd(2 * mu) - (d - int(-2 * mu));   // lag of the candidate
            double w = exp(-0.5 * pow(tight * log(lag / mu), 2)), s = j >= 0 ? w * score[j] : 0;
            if (s > best) { second = best; best = s; bi = d; } else second = std::max(second, s);
        }
        if (best > 0 && best - second < 1e-9 * best) tie = true;
        score[i] = alpha * best + (1 - alpha) * df[i]; link[i] = i + bi;
    }
    int from = int(n - bp.back()); if (from < 0) from = 0;
    int p = from; double m = 0; for (int i = from; i < n; ++i) { if (score[i] > 0 && fabs(score[i] - m) < 1e-9 * score[i]) tie = true; if (score[i] > m) { m = score[i]; p = i; } }
    if (p >= n) p = n - 1;
    DV r(1, p); while (link[p] > 0) { p = link[p]; r.push_back(p); }
    std::reverse(r.begin(), r.end()); return r;
}
static void beatsCase(const DV &df, const DV &bp, bool defaults, double alpha, double tight) {
    TempoTrackV2 t(44100, 512); DV a, b, d0 = df, p0 = bp;
    if (defaults) { t.calculateBeats(df, bp, a); alpha = 0.9; tight = 4; } else t.calculateBeats(df, bp, a, alpha, tight);
    if (df.empty() || bp.empty()) { CHECK(a.empty(), "beats from nothing"); return; }
    CHECK(!a.empty(), "no beats");
    for (size_t i = 0; i < a.size(); ++i) { CHECK(a[i] >= 0 && a[i] < df.size() && a[i] == floor(a[i]), fmt("beat %g outside the detection function", a[i])); if (i) CHECK(a[i] > a[i-1], fmt("beats %g, %g not increasing", a[i-1], a[i])); }
    bool tie; DV w = refBeats(df, bp, alpha, tight, tie); if (!tie) eqv("beats", a, w, 0);
    if (defaults) t.calculateBeats(df, bp, b); else t.calculateBeats(df, bp, b, alpha, tight); eqv("repeated", b, a, 0);
    DV c(3, -5); t.calculateBeats(df, bp, c, alpha, tight); CHECK(c.size() == a.size() + 3, "appended"); for (size_t i = 0; i < c.size() && c.size() == a.size() + 3; ++i) eq("appended", c[i], i < 3 ? -5 : a[i - 3], 0);
    same("df", df, d0); same("periods", bp, p0);
}
// ---- periods: comb filterbank of the autocorrelation, Viterbi path
static void refPeriod(const DV &df, DV &bp, DV &tempi, double it, bool con, double rate, double inc, bool &tie) {
    const double E = 0.0000008; const int W = 128; tie = false;
    double r = (60 * 44100 / 512) / it; DV wv(W);
    for (int i = 0; i < W; ++i) wv[i] = con ? exp(-(i - r) * (i - r) / (2 * (r / 4) * (r / 4))) : i / (r * r) * exp(-double(i) * i / (2 * r * r));
    DM R;
    for (int s = 0; s + 512 < int(df.size()); s += 128) {
        DV f(df.begin() + s, df.begin() + s + 512); thresh(f);
        DV ac(512); for (int l = 0; l < 512; ++l) { double t = 0; for (int k = 0; k + l < 512; ++k) t += f[k] * f[k + l]; ac[l] = t / (512 - l); }
        DV c(W); for (int i = 2; i < W; ++i) for (int a = 1; a <= 4; ++a) for (int b = 1 - a; b <= a - 1; ++b) c[i-1] += ac[a * i + b - 1] * wv[i-1] / (2 * a - 1.0);
        thresh(c); double sum = 0; for (int i = 0; i < W; ++i) { c[i] += E; sum += c[i]; } for (int i = 0; i < W; ++i) c[i] /= sum + E;
        R.push_back(c);
    }
    int T = R.size(); if (T < 2) return;
    DM D(T, DV(W)); std::vector<IV> P(T, IV(W));
    for (int t = 0; t < T; ++t) {
        for (int j = 0; j < W; ++j) {
            if (t == 0) { D[0][j] = wv[j] * R[0][j]; continue; }
            DV v(W); for (int i = 0; i < W; ++i) v[i] = (i >= 20 && i < W - 20 && j >= 20 && j < W - 20) ? D[t-1][i] * exp(-(i - j) * double(i - j) / 128) : 0;
            P[t][j] = argmax0(v); D[t][j] = max0(v) * R[t][j];
            std::sort(v.begin(), v.end()); if (v[W-1] > 0 && v[W-1] - v[W-2] < 1e-9 * v[W-1]) tie = true;
        }
        double s = 0; for (int j = 0; j < W; ++j) s += D[t][j]; for (int j = 0; j < W; ++j) D[t][j] /= s + E;
    }
    { DV v = D[T-1]; std::sort(v.begin(), v.end()); if (v[W-1] - v[W-2] < 1e-9 * v[W-1]) tie = true; }
    IV path(T); path[T-1] = argmax0(D[T-1]); for (int t = T - 2; t >= 0; --t) path[t] = P[t+1][path[t+1]];
    for (size_t i = 0; i < bp.size(); ++i) bp[i] = path[std::min(int(i) / 128, T - 1)];
    for (size_t i = 0; i < bp.size(); ++i) tempi.push_back((60. * rate / inc) / bp[i]);
}
// ---- TempoTrack
struct Par { int win, lag, alpha, pre, post; DV a, b; };
struct RefTT {
    Par P; DFProcess *df, *rcf; double sigma; double locked;
    static DFProcConfig cfg(Par &p, int len) { DFProcConfig c; c.length = len; c.LPOrd = p.a.size() - 1; c.LPACoeffs = &p.a[0]; c.LPBCoeffs = &p.b[0]; c.winPre = p.pre; c.winPost = p.post; c.AlphaNormParam = p.alpha; c.isMedianPositive = true; return c; }
    RefTT(const Par &p) : P(p) { df = new DFProcess(cfg(P, P.win)); rcf = new DFProcess(cfg(P, P.lag)); }
    ~RefTT() { delete df; delete rcf; }
    double peak(const DV &acf, int idx, int k) { if (k == 1) return idx + 1; int c = k * idx + k - 1; int best = 0, n = 0; double m = 0; for (int i = c - (k - 1); i <= c + (k - 1); ++i, ++n) if (acf[i] > m) { m = acf[i]; best = n; }
        int off = k == 2 ? c - 1 : k == 3 ? c - 3 : c - 8; /* as published: 2x+1-2+1, 3x+2-4+1, 4x+3-9+1 */ return double(best + 1 + off) / k; }
    double tempo(const DV &acf, const DV &w, int sig) {
        int L = P.lag; DV t(L), s(L); int el = sig ? sig : 4;
        for (int i = 1; i < L - 1; ++i) for (int a = 1; a <= el; ++a) for (int b = 1 - a; b < a; ++b) t[i] += acf[a * (i + 1) + b - 1] * (sig ? 1.0 : 1.0 / (2.0 * a - 1)) * w[i];
        rcf->process(&t[0], &s[0]); int ix = 0;
        if (sig) { double m = 0; for (int i = 0; i < L; ++i) if (t[i] > m) { m = t[i]; ix = i; } }
        else {
            double sum = 0; for (int i = 0; i < L; ++i) sum += s[i]; for (int i = 0; i < L; ++i) s[i] /= sum;
            DM M(L, DV(L)); double mx = 0; for (int i = 1; i < L; ++i) for (int j = 1; j < L; ++j) { double lr = log(double(i) / j) / log(2.0); M[i][j] = std::abs(int(1.0 - std::abs(int(lr)))) + 0.01 * (1. / (s[i] + s[j])); if (M[i][j] > mx) mx = M[i][j]; }
            double mn = mx; int pi = 1, pj = 1; for (int i = 1; i < L; ++i) for (int j = 1; j < L; ++j) { double v = i == j ? mx : M[i][j]; if (v < mn) { mn = v; pi = i; pj = j; } }
            ix = s[pi] > s[pj] ? pi : pj;
        }
        double lk = 5168.f / ix; if (lk >= 30 && lk <= 180) locked = lk;
        if (!sig) sig = 4; int k = sig == 4 ? 4 : 3; double s2 = 0; for (int i = 1; i <= k; ++i) s2 += peak(acf, ix, i); return s2 / k;
    }
    void comb(DV &w, double lagv) { for (int i = 0; i < P.lag; ++i) { if (lagv == 0) w[i] = (i + 1) / (43. * 43.) * exp(-double(i + 1) * (i + 1) / (2 * 43. * 43.)); else { double sg = lagv / 4, d = i + 1 - lagv; w[i] = exp(-0.5 * (d / sg) * (d / sg)) / (sqrt(2 * M_PI) * sg); } } }
    int meter(const DV &a, double per) { int p = int(rnd(per)); double e3 = 0, e4 = 0; bool lng = P.win >= 6 * p + 2; for (int d = -2; d <= 2; ++d) { e3 += a[3*p+d]; e4 += a[4*p+d]; if (lng) { e3 += a[6*p+d]; e4 += a[2*p+d]; } } return e3 > e4 ? 3 : 4; }
    void phase(DV &f, double per, int fsp, int last) {
        int p = int(rnd(per)), po = 0; if (last) { po = last + p - fsp; if (po < 0) last = 0; }
        if (!last) { for (int i = 0; i < p; ++i) f[i] = 1; return; }
        DV g(2 * p + 2); double mn = 1e300, mx = -1e300; double sg = p / 8.0; for (int i = 0; i < 2 * p; ++i) { g[i] = exp(-0.5 * pow((i - p) / sg, 2)) / (sqrt(2 * M_PI) * sg); mn = std::min(mn, g[i]); mx = std::max(mx, g[i]); }
        for (int i = 0; i < 2 * p; ++i) g[i] = (g[i] - mn) / mx;
        for (int i = 0; i < p; ++i) f[i] = g[p - po + 1 + i];
    }
    IV run(const DV &DF, DV &tempi) {
        IV beats; locked = 0; int n = DF.size(), F = (n + P.lag - 1) / P.lag; DV RW(P.lag), GW(P.lag), PW(P.lag), pP(F), pG(F); comb(RW, 0); bool haveG = false; int step = 0, sig = 0, last = 0; bool con = false;
        for (int k = 0; k < F; ++k) {
            int fsp = k * P.lag; DV raw(P.win), sm(P.win), ac(P.win); for (int i = 0; i < P.win; ++i) raw[i] = fsp + i < n ? DF[fsp + i] : 0;
            df->process(&raw[0], &sm[0]);
            for (int l = 0; l < P.win; ++l) { double t = 0; for (int j = l; j < P.win; ++j) t += sm[j - l] * sm[j]; t /= P.win - l; ac[l] = t <= 0 ? 2.2204e-016 : t; }
            pP[k] = tempo(ac, RW, 0); pG[k] = haveG ? tempo(ac, GW, sig) : 0;
            if (!step && fabs(pG[k] - pP[k]) > 3.9017) step = 3;
            if (step == 1) { con = fabs(2 * pP[k] - pP[k-1] - pP[k-2]) < 2 * 3.9017; step = 0; } else if (step) --step;
            double per;
            if (con) { sig = meter(ac, pP[k]); comb(GW, pP[k]); haveG = GW[0] != 0; pG[k] = tempo(ac, GW, sig); per = pG[k]; phase(PW, per, fsp, 0); con = false; }
            else if (haveG) { per = pG[k]; phase(PW, per, fsp, last); }
            else { per = pP[k]; phase(PW, per, fsp, 0); }
            int p = int(rnd(per)), al = 0; double m = 0;
            for (int o = 0; o < p; ++o) { double t = 0; for (int i = o; i < P.win; i += p + 1) { double y = double(P.win - i) / P.win; t += raw[i] * (y * y); } t *= PW[o]; if (t > m) { m = t; al = o; } }
            int b = fsp + al; beats.push_back(b); while (b + p < fsp + P.lag) { b += p; beats.push_back(b); } last = b;
            tempi.push_back(locked);
        }
        return beats;
    }
};
static DV signal(int n, int style) {
    DV d(n); int per = rng.range(20, 90), ph = rng.range(0, per - 1); double drift = rng.sym(0.02);
    double pos = ph, pr = per; for (int i = 0; i < n; ++i) d[i] = rng.uni() * (style == 0 ? 1 : 0.2) + 0.01;
    if (style != 0) while (pos < n) { int i = int(pos); d[i] += 4 + rng.uni(); if (i + 1 < n) d[i+1] += 2 + rng.uni(); if (style == 2 && rng.range(0, 3) == 0 && i + pr / 2 < n) d[int(i + pr / 2)] += 2; pos += pr; pr *= 1 + drift * (style == 3); if (pr < 15) pr = 15; if (pr > 100) pr = 100; }
    if (style == 4) for (int i = n / 3; i < n / 2; ++i) d[i] = 0;
    return d;
}
int main() {
    bool T = g_thorough();
    for (int it = 0; it < (T ? 20000 : 3000); ++it) {
        int n = it < 120 ? it / 2 : rng.range(1, it % 20 == 0 ? 1500 : 250); DV df = signal(n, rng.range(0, 4)); if (it % 11 == 0) df = rng.vec(n);
        DV bp(n + rng.range(0, 3) * (n > 0)); int b0 = rng.range(1, 90); bool vary = rng.range(0, 1), frac = rng.range(0, 2) == 0; for (size_t i = 0; i < bp.size(); ++i) { bp[i] = vary && i % 16 == 0 ? b0 = std::max(1, b0 + rng.range(-3, 3)) : b0; if (frac) bp[i] += 0.25; }
        double alpha = rng.range(0, 2) ? 0.9 : rng.uni(), tight = rng.range(0, 2) ? 4 : rng.uni() * 8;
        CASE(fmt("beats: %d steps, period %g..., alpha %g, tightness %g, df %s", n, bp.empty() ? 0 : bp[0], alpha, tight, show(df, 10).c_str()));
        beatsCase(df, bp, it % 4 == 0, alpha, tight);
    }
    for (int it = 0; it < (T ? 400 : 50); ++it) {
        int n = it < 12 ? it * 64 + 1 : rng.range(500, 2500); if (it == 12) n = 640; if (it == 13) n = 641; DV df = signal(n, it % 5), bp(n), wb(n), te, wt; for (int i = 0; i < n; ++i) bp[i] = wb[i] = 7;
        bool con = it % 3 == 1; double tp = it % 3 ? 60 + rng.uni() * 140 : 120; float rate = it % 2 ? 44100 : 48000; int inc = it % 2 ? 512 : 556; DV d0 = df;
        CASE(fmt("periods: %d steps, tempo %g constrained %d rate %g increment %d, df %s", n, tp, con, double(rate), inc, show(df, 10).c_str()));
        TempoTrackV2 t(rate, inc); bool tie; if (it % 3 == 0) { t.calculateBeatPeriod(df, bp, te); refPeriod(df, wb, wt, 120, false, rate, inc, tie); } else { t.calculateBeatPeriod(df, bp, te, tp, con); refPeriod(df, wb, wt, tp, con, rate, inc, tie); }
        if (!tie) { eqv("beat periods", bp, wb, 0); eqv("tempi", te, wt, 1e-9); } else CHECK(te.size() == wt.size(), "number of tempi"); same("df", df, d0);
        DV b2(n, 7), t2; if (it % 3 == 0) t.calculateBeatPeriod(df, b2, t2); else t.calculateBeatPeriod(df, b2, t2, tp, con); eqv("repeated", b2, bp, 0); eqv("repeated tempi", t2, te, 0);
        bool pos = true; for (int i = 0; i < n; ++i) if (bp[i] < 1) pos = false; if (pos) beatsCase(df, bp, true, 0.9, 4);
    }
    double ca[] = {1, -0.5949, 0.2348}, cb[] = {0.16, 0.32, 0.16};
    for (int it = 0; it < (T ? 150 : 24); ++it) {
        Par P; P.lag = it % 3 ? 128 : 96; P.win = 4 * P.lag; P.alpha = it % 4 == 3 ? 2 : 9; P.pre = it % 2 ? 8 : 7; P.post = it % 2 ? 7 : 8; P.a.assign(ca, ca + 3); P.b.assign(cb, cb + 3);
        int n = it < 6 ? 1 + it * 50 : rng.range(200, T ? 3000 : 1600); DV df = signal(n, it % 4);
        CASE(fmt("TempoTrack: window %d lag %d alpha %d, %d steps, df %s", P.win, P.lag, P.alpha, n, show(df, 10).c_str()));
        TTParams tp; tp.winLength = P.win; tp.lagLength = P.lag; tp.alpha = P.alpha; tp.LPOrd = 2; tp.LPACoeffs = &P.a[0]; tp.LPBCoeffs = &P.b[0]; tp.WinT.pre = P.pre; tp.WinT.post = P.post;
        TempoTrack t(tp); DV te, wt, t2; IV g = t.process(df, &te); RefTT r(P); IV w = r.run(df, wt);
        CHECK(g == w, fmt("beats differ from the algorithm: %d beats, contract says %d", int(g.size()), int(w.size()))); eqv("tempi", te, wt, 1e-9);
        IV g2 = t.process(df, &t2); CHECK(g == g2, "repeated run differs"); eqv("repeated tempi", t2, te, 0); IV g3 = t.process(df); CHECK(g3 == g, "without tempi");
        DV d2 = signal(300, 1); t.process(d2); g2 = t.process(df); CHECK(g == g2, "run after another differs");
        for (size_t i = 0; i < g.size(); ++i) CHECK(g[i] >= 0, "beat before the start");
    }
    return done("detection functions up to 2500 steps (exhaustive short lengths), periods 1..90, several tempo constraints; TempoTrack windows 384/512", "random and periodic detection functions; near-ties of the dynamic programme excluded from exact comparison");
}
