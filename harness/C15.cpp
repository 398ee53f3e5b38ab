// UNITS: dsp/signalconditioning/Filter.cpp dsp/signalconditioning/FiltFilt.cpp dsp/signalconditioning/DFProcess.cpp dsp/onsets/PeakPicking.cpp maths/MathUtilities.cpp
#include "common.h"
#include "dsp/signalconditioning/DFProcess.h"
#include "dsp/onsets/PeakPicking.h"
static DV filt(const DV &b, const DV &a, const DV &x) {
    DV y(x.size());
    for (size_t t = 0; t < x.size(); ++t) { double s = 0; for (size_t i = 0; i < b.size() && i <= t; ++i) s += b[i] * x[t - i]; for (size_t i = 1; i < a.size() && i <= t; ++i) s -= a[i] * y[t - i]; y[t] = s; }
    return y;
}
static DV filtfilt(const DV &b, const DV &a, const DV &x) {
    int n = x.size(), E = 3 * (int(b.size()) - 1); DV e(n + 2 * E, 0.0);
    for (int t = 0; t < E; ++t) { int k = E - t; if (k < n) e[t] = 2 * x[0] - x[k]; k = t + 1; if (k < n) e[E + n + t] = 2 * x[n - 1] - x[n - 1 - k]; }
    for (int t = 0; t < n; ++t) e[E + t] = x[t];
    DV f = filt(b, a, e); std::reverse(f.begin(), f.end()); f = filt(b, a, f); std::reverse(f.begin(), f.end());
    return DV(f.begin() + E, f.begin() + E + n);
}
static DV conditioned(const DV &x, const DV &b, const DV &a, int pre, int post, int alpha, bool pos, double delta) {
    int n = x.size(); double mn = x[0], s = 0;
    for (int i = 0; i < n; ++i) { mn = std::min(mn, x[i]); s += pow(fabs(x[i]), alpha); }
    double norm = pow(s / n, 1.0 / alpha); DV y(n);
    for (int i = 0; i < n; ++i) y[i] = (x[i] - mn) / norm;
    y = filtfilt(b, a, y); DV z(n);
    for (int i = 0; i < n; ++i) {
        int lo = std::max(0, i - pre), hi = std::min(n, i + post + 1); DV w(y.begin() + lo, y.begin() + hi); std::sort(w.begin(), w.end()); int m = w.size();
        double med = m % 2 ? w[m / 2] : (w[m / 2] + w[m / 2 - 1]) / 2; z[i] = y[i] - med - delta; if (pos && !(z[i] > 0)) z[i] = 0;
    }
    return z;
}
static void coeffs(DV &b, DV &a) {
    int ord = rng.range(1, 4); b = rng.vec(ord + 1); a = rng.vec(ord + 1);
    double sa = 1; for (int i = 1; i <= ord; ++i) sa += fabs(a[i]); double sb = 1; for (int i = 0; i <= ord; ++i) sb += fabs(b[i]);
    for (int i = 1; i <= ord; ++i) a[i] *= 0.9 / sa; a[0] = 1; for (int i = 0; i <= ord; ++i) b[i] *= 2 / sb;
}
static DV signal(int n) {
    DV x = rng.vec(n); int kind = rng.range(0, 3);
    if (kind == 1) for (int i = 0; i < n; ++i) x[i] = rng.range(0, 4);
    if (kind == 2) for (int i = 0; i < n; ++i) x[i] = exp(-pow((i % 23) - 7.0, 2) / 8) * (1 + i % 5) + 0.01 * rng.uni();
    double m = 0; for (int i = 0; i < n; ++i) m += fabs(x[i]); if (m == 0) x[n / 2] = 1;
    return x;
}
int main() {
    int cases = g_thorough() ? 12000 : 2500;
    for (int it = 0; it < cases; ++it) {
        int n = rng.range(0, 3) == 0 ? rng.range(1, 12) : rng.range(0, 30) ? rng.range(4, 120) : rng.range(120, 2500); DV b, a; coeffs(b, a);
        int wm = it % 25 ? 12 : 60, pre = rng.range(0, wm), post = rng.range(0, wm), alpha = rng.range(1, 10); bool pos = rng.range(0, 1); double delta = float(rng.range(0, 2) ? 0 : rng.uni() * 0.3);
        DV x = signal(n);
        std::string desc = fmt("n %d pre %d post %d alpha %d positive %d delta %g b=%s a=%s x=%s", n, pre, post, alpha, pos, delta, show(b).c_str(), show(a).c_str(), show(x, 14).c_str());
        Buf cb(b), ca(a);
        {
            CASE("DFProcess " + desc);
            DFProcConfig c; c.length = n; c.LPOrd = b.size() - 1; c.LPACoeffs = ca; c.LPBCoeffs = cb; c.winPre = pre; c.winPost = post; c.AlphaNormParam = alpha; c.isMedianPositive = pos; c.delta = delta;
            DFProcess p(c);
            for (int rep = 0; rep < 2; ++rep) {
                DV y = rep ? signal(n) : x; Buf in(y), out(n, -99); p.process(in, out); same("input", in.v(), y);
                eqv("conditioned", out.v(), conditioned(y, b, a, pre, post, alpha, pos, delta), 1e-7);
            }
        }
        {
            CASE("PeakPicking " + desc);
            PPickParams c; c.length = n; c.alpha = alpha; c.LPOrd = b.size() - 1; c.LPACoeffs = ca; c.LPBCoeffs = cb; c.WinT.pre = pre; c.WinT.post = post;
            double qa = rng.range(0, 2) ? rng.uni() * 0.5 : 1e10, qc = rng.uni() * 1.0; c.QuadThresh.a = qa; c.QuadThresh.b = 0; c.QuadThresh.c = qc; c.delta = delta;
            PeakPicking p(c); Buf in(x); std::vector<int> on; int had = rng.range(0, 2); for (int i = 0; i < had; ++i) on.push_back(-7 - i);
            p.process(in, n, on);
            if (n < 4) { same("input", in.v(), x); CHECK((int)on.size() == had, "onsets from a function that is too short"); continue; }
            DV z = conditioned(x, b, a, pre, post, alpha, false, delta); eqv("conditioned function", in.v(), z, 1e-7);
            DV d = in.v(); std::vector<int> want; std::vector<int> unsure;
            for (int i = 0; i < had; ++i) want.push_back(-7 - i);
            for (int i = 2; i < n - 2; ++i) if (d[i] > d[i - 1] && d[i] > d[i + 1] && d[i] > 0) {
                // least squares parabola c0 + c1 t + c2 t^2 on t = -2..2
                double s0 = 0, s2 = 0; for (int t = -2; t <= 2; ++t) { s0 += d[i + t]; s2 += d[i + t] * t * t; }
                double c2 = (5 * s2 - 10 * s0) / 70, c0 = (34 * s0 - 10 * s2) / 70;
                if (fabs(c2 + qa) < 1e-9 || fabs(c0 - qc) < 1e-9) unsure.push_back(i);
                if (c2 < -qa || c0 > qc) want.push_back(i);
            }
            if (unsure.empty()) { CHECK(on == want, fmt("onsets differ: %d found, %d expected", (int)on.size() - had, (int)want.size() - had)); }
        }
    }
    return done("DFProcess and PeakPicking on functions of 1..120 values (some to 2500), median windows 0..12 (some to 60) before and after, alpha 1..10, low-pass orders 1..4", "random coefficients, signals and thresholds; distinct by content");
}
