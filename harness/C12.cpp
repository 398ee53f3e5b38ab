// UNITS: dsp/chromagram/ConstantQ.cpp dsp/chromagram/Chromagram.cpp maths/MathUtilities.cpp dsp/transforms/FFT.cpp ext/kissfft/kiss_fft.c ext/kissfft/tools/kiss_fftr.c
#include "common.h"
#include "dsp/chromagram/ConstantQ.h"
#include "dsp/chromagram/Chromagram.h"
#include "dsp/transforms/FFT.h"
struct Ref {
    int N, K, L; double Q; bool edge; std::vector<DV> re, im;
    static int up(double x, bool &edge) { double r = floor(x + 0.5); if (fabs(x - r) < 1e-9 * (1 + fabs(x))) { if (fabs(x - r) > 0) edge = true; return int(r); } return int(ceil(x)); }
    Ref(const CQConfig &c) : edge(false) {
        Q = 1 / (exp2(1.0 / c.BPO) - 1); K = up(c.BPO * log(c.max / c.min) / log(2.0), edge); L = up(Q * c.FS / c.min, edge);
        N = 1; while (N < L) N *= 2;
    }
    void kernel(const CQConfig &c) {
        DV ct(N), st(N); for (int i = 0; i < N; ++i) { ct[i] = cos(2 * M_PI * i / N); st[i] = sin(2 * M_PI * i / N); }
        re.assign(K, DV(N)); im = re;
        for (int j = 0; j < K; ++j) {
            int wl = up(Q * c.FS / (c.min * exp2(double(j) / c.BPO)), edge), o = N / 2 - wl / 2;
            DV a(N), b(N);
            for (int i = 0; i < wl; ++i) {
                double ph = 2 * M_PI * Q * i / wl, h = wl <= 1 ? 1 : 0.54 - 0.46 * cos(2 * M_PI * i / wl);
                int p = (o + i + N / 2) % N; a[p] = h * cos(ph) / wl; b[p] = h * sin(ph) / wl;
            }
            for (int k = 0; k < N; ++k) {
                double x = 0, y = 0;
                const double *A = &a[0], *B = &b[0], *C = &ct[0], *S = &st[0];
                for (int i = 0; i < wl; ++i) { int p = (o + i + N / 2) & (N - 1), q = (k * p) & (N - 1); x += A[p] * C[q] + B[p] * S[q]; y += B[p] * C[q] - A[p] * S[q]; }
                double m = sqrt(x * x + y * y);
                if (c.CQThresh > 1e-9 && fabs(m - c.CQThresh) < 1e-9) edge = true;
                if (m > c.CQThresh) { re[j][k] = x / N; im[j][k] = -y / N; }
            }
        }
    }
    void run(const DV &fr, const DV &fi, DV &a, DV &b) const {
        a.assign(K, 0); b.assign(K, 0);
        for (int j = 0; j < K; ++j) for (int k = 1; k < N; ++k) { a[j] += re[j][k] * fr[N - k] - im[j][k] * fi[N - k]; b[j] += re[j][k] * fi[N - k] + im[j][k] * fr[N - k]; }
    }
};
static DV norm(DV v, int t) {
    double s = 0, m = 0; for (size_t i = 0; i < v.size(); ++i) { s += v[i]; m = std::max(m, fabs(v[i])); }
    double d = t == 1 ? s : t == 2 ? m : 1; if (d != 0) for (size_t i = 0; i < v.size(); ++i) v[i] /= d;
    return v;
}
static void noise(DV &v, int kind, double amp) { for (size_t i = 0; i < v.size(); ++i) v[i] = kind == 0 ? rng.sym(amp) : kind == 1 ? 0 : kind == 2 ? (rng.range(0, 9) ? 0 : rng.sym(amp)) : amp * cos(0.03 * (1 + rng.range(0, 0)) * i * i / 50.0); }
static double scale(const DV &a, const DV &b) { double s = 1e-300; for (size_t i = 0; i < a.size(); ++i) s = std::max(s, std::max(fabs(a[i]), fabs(b[i]))); return s; }
static void cmp(const std::string &w, const DV &g, const DV &r, double sc) { for (size_t i = 0; i < r.size(); ++i) if (!(fabs(g[i] - r[i]) <= 1e-9 * sc)) { FAIL(fmt("%s[%d]: got %.17g, contract says %.17g", w.c_str(), int(i), g[i], r[i])); return; } }
int main() {
    int T = g_thorough() ? 1000 : 90;
    for (int t = 0; t < T; ++t) {
        CQConfig c; c.BPO = t % 6 == 0 ? rng.range(1, 3) : t % 6 == 1 ? 36 : rng.range(4, 24);
        double Q = 1 / (exp2(1.0 / c.BPO) - 1); int target = t % 30 == 14 ? 1100 : rng.range(8, 300); // longest kernel
        c.FS = t % 3 == 0 ? 8000 : t % 3 == 1 ? 44100 : rng.range(1000, 48000);
        c.min = Q * c.FS / (target - rng.uni()); double oct = rng.uni() * 4 + 0.1;
        if (oct * c.BPO > 70) oct = 70.0 / c.BPO; c.max = c.min * exp2(oct);
        c.CQThresh = t % 4 == 0 ? 0 : t % 4 == 1 ? 0.0054 : t % 4 == 2 ? rng.uni() * 0.3 : pow(10.0, -rng.range(1, 6));
        Ref r(c); if (r.edge || r.N < 2) continue;
        CASE(fmt("FS %.17g min %.17g max %.17g BPO %d threshold %.17g", c.FS, c.min, c.max, c.BPO, c.CQThresh));
        ConstantQ q(c); r.kernel(c); if (r.edge) continue;
        eq("getK", q.getK(), r.K); eq("getFFTLength", q.getFFTLength(), r.N); eq("getHop", q.getHop(), r.N / 8); eq("getQ", q.getQ(), r.Q, 1e-12);
        if (g_fails) return 1;
        q.sparsekernel(); int N = r.N, K = r.K;
        for (int f = 0; f < 4; ++f) {
            DV fr(N), fi(N), z(2 * N); int kind = f == 0 ? 0 : rng.range(0, 3); double amp = pow(10.0, rng.range(-3, 3)); noise(fr, kind, amp); noise(fi, kind, amp);
            if (f == 1) { noise(fr, 1, 0); noise(fi, 1, 0); fr[rng.range(0, N - 1)] = 1; }
            for (int i = 0; i < N; ++i) { z[2 * i] = fr[i]; z[2 * i + 1] = fi[i]; }
            DV a, b; r.run(fr, fi, a, b); double sc = scale(fr, fi);
            Buf bfr(fr), bfi(fi), bz(z), oa(K, 7), ob(K, 7);
            CASE(fmt("%d bins, frame %d, FS %g min %g max %g BPO %d threshold %g, spectrum %s %s", K, f, c.FS, c.min, c.max, c.BPO, c.CQThresh, show(fr, 4).c_str(), show(fi, 4).c_str()));
            q.process(bfr, bfi, oa, ob); same("spectrum", bfr.v(), fr); same("spectrum", bfi.v(), fi); cmp("real part", oa.v(), a, sc); cmp("imaginary part", ob.v(), b, sc);
            const double *o = q.process(bz); same("spectrum", bz.v(), z); DV ia(K), ib(K); for (int i = 0; i < K; ++i) { ia[i] = o[2 * i]; ib[i] = o[2 * i + 1]; }
            cmp("real part (interleaved)", ia, a, sc); cmp("imaginary part (interleaved)", ib, b, sc);
        }
        ChromaConfig g; g.FS = c.FS; g.min = c.min; g.max = c.max; g.BPO = c.BPO; g.CQThresh = c.CQThresh; int nt = t % 3;
        g.normalise = nt == 0 ? MathUtilities::NormaliseNone : nt == 1 ? MathUtilities::NormaliseUnitSum : MathUtilities::NormaliseUnitMax;
        int noct = int(ceil(oct - 1e-12)); if (noct * c.BPO > 80 || fabs(oct - floor(oct + 0.5)) < 1e-9) continue;
        CQConfig e = c; e.max = c.min * exp2(noct); Ref s(e); s.K = noct * c.BPO; s.edge = false; s.kernel(e); if (s.edge) continue;
        Chromagram m(g), m2(g); CHECK(m.getK() == s.K || m.getK() == s.K + 1, fmt("getK %d, contract says %d", m.getK(), s.K)); eq("getFrameSize", m.getFrameSize(), N); eq("getHopSize", m.getHopSize(), N / 8);
        FFTReal F(N);
        for (int f = 0; f < 4; ++f) {
            DV x(N), y(N), fr(N), fi(N); noise(x, f == 0 ? 0 : rng.range(0, 3), pow(10.0, rng.range(-3, 3)));
            for (int i = 0; i < N; ++i) y[(i + N / 2) % N] = x[i] * (0.54 - 0.46 * cos(2 * M_PI * i / N));
            F.forward(&y[0], &fr[0], &fi[0]); DV a, b; s.run(fr, fi, a, b); DV ch(c.BPO, 0);
            for (int v = 0; v < noct; ++v) for (int i = 0; i < c.BPO; ++i) ch[i] += hypot(a[v * c.BPO + i], b[v * c.BPO + i]);
            double sc = scale(fr, fi), tot = 0, mx = 0; for (int i = 0; i < c.BPO; ++i) { tot += ch[i]; mx = std::max(mx, ch[i]); }
            CASE(fmt("chroma: frame %d normalise %d FS %g min %g max %g BPO %d threshold %g: %s", f, nt, c.FS, c.min, c.max, c.BPO, c.CQThresh, show(x, 4).c_str()));
            if (nt && mx < 1e-6 * sc && mx > 0) continue; // normalising rounding noise
            double ts = nt == 0 ? sc : nt == 1 ? (tot > 0 ? 1000 * sc / tot : 1) : (mx > 0 ? 100 * sc / mx : 1); ts = std::max(ts, 1e-300); DV want = norm(ch, nt);
            Buf bx(x); const double *o = (f & 1 ? m2 : m).process(bx); same("frame", bx.v(), x); cmp("chroma (time domain)", DV(o, o + c.BPO), want, ts);
            Buf bfr(fr), bfi(fi); o = (f & 1 ? m : m2).process(bfr, bfi); same("spectrum", bfr.v(), fr); same("spectrum", bfi.v(), fi); cmp("chroma (frequency domain)", DV(o, o + c.BPO), want, ts);
        }
    }
    return done("frame lengths 8..2048, 1..36 bins per octave, up to 80 constant-Q bins, thresholds 0..0.3, 3 normalisations, 4 spectra and 4 frames per object", "random and sparse spectra; distinct by configuration and content; configurations where a ceiling or the threshold is decided by rounding are skipped");
}
