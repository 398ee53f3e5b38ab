// UNITS: base/KaiserWindow.cpp base/SincWindow.cpp maths/MathUtilities.cpp
#include "common.h"
#include "base/Window.h"
#include "base/KaiserWindow.h"
#include "base/SincWindow.h"
static double shape(int ty, int i, int n) {
    double ph = 2 * M_PI * double(i) / n;
    switch (ty) {
    case RectangularWindow: return .5;
    case BartlettWindow: if (n < 2) return 1; if (n == 2) return 0; if (n == 3) return i ? 2. / 3. : 0;
        { int h = n / 2; if (i < h) return double(i) / h; if (i >= n - h) return 1 - double(i - (n - h)) / h; return 1; }
    case HammingWindow: return n > 1 ? .54 - .46 * cos(ph) : 1;
    case HanningWindow: return n > 1 ? .5 - .5 * cos(ph) : 1;
    case BlackmanWindow: return n > 1 ? .42 - .5 * cos(ph) + .08 * cos(2 * ph) : 1;
    default: return n > 1 ? .35875 - .48829 * cos(ph) + .14128 * cos(2 * ph) - .01168 * cos(3 * ph) : 1;
    }
}
template <class T> static void check(const char *what, const Window<T> &w, int ty, int n, double tol) {
    CASE(fmt("%s window type %d length %d (%s)", what, ty, n, sizeof(T) == 4 ? "float" : "double"));
    CHECK(w.getSize() == n && int(w.getType()) == ty, "type or size");
    std::vector<T> d = w.getWindowData(); CHECK((int)d.size() == n, "number of coefficients");
    for (int i = 0; i < n && i < (int)d.size(); ++i) eq(fmt("coefficient %d", i), d[i], shape(ty, i, n), tol);
    T *s = (T *)malloc(n * sizeof(T) + 1), *o = (T *)malloc(n * sizeof(T) + 1), *s0 = (T *)malloc(n * sizeof(T) + 1);
    for (int i = 0; i < n; ++i) { s[i] = s0[i] = rng.sym(10); o[i] = 99; }
    w.cut(s, o); for (int i = 0; i < n; ++i) { eq(fmt("cut %d", i), o[i], s0[i] * shape(ty, i, n), tol * 10); CHECK(s[i] == s0[i], "cut modified the source"); }
    w.cut(s); for (int i = 0; i < n; ++i) eq(fmt("cut in place %d", i), s[i], s0[i] * shape(ty, i, n), tol * 10);
    free(s); free(o); free(s0);
}
static double I0(double x) { double s = 1, t = 1; for (int k = 1; k < 200; ++k) { t *= (x / 2) / k; s += t * t; } return s; }
int main() {
    int maxn = g_thorough() ? 400 : 140;
    for (int ty = 0; ty < 6; ++ty) for (int k = 1; k <= maxn + 14; k += (k < 40 || k > maxn - 7 ? 1 : 7)) {
        static const int BIG[14] = { 255, 256, 257, 511, 512, 513, 1000, 1024, 2047, 2048, 4096, 5001, 8192, 65536 }; int n = k > maxn ? BIG[k - maxn - 1] : k;
        Window<double> w((WindowType)ty, n); check("constructed", w, ty, n, 1e-12);
        Window<float> f((WindowType)ty, n); check("constructed", f, ty, n, 2e-6);
        Window<double> c(w); check("copied", c, ty, n, 1e-12); check("original after copying", w, ty, n, 1e-12);
        Window<double> *q = new Window<double>((WindowType)rng.range(0, 5), rng.range(1, 60));
        *q = w; check("assigned", *q, ty, n, 1e-12); check("original after assignment", w, ty, n, 1e-12);
        Window<double> z((WindowType)rng.range(0, 5), rng.range(1, 60)); z = *q; delete q; check("assigned, source released", z, ty, n, 1e-12);
    }
    for (int k = 2; k < 126; ++k) for (int b = 0; b < 6; ++b) {
        int n = k < 120 ? k : k == 120 ? 257 : k == 121 ? 512 : k == 122 ? 1001 : k == 123 ? 2048 : k == 124 ? 4097 : 10001;
        double beta = b == 0 ? 0 : b * 1.7 + rng.uni();
        KaiserWindow::Parameters P; P.length = n; P.beta = beta; KaiserWindow w(P);
        CASE(fmt("Kaiser length %d beta %.6g", n, beta)); CHECK(w.getLength() == n, "length");
        DV want(n); for (int i = 0; i < n; ++i) { double k = 2. * i / (n - 1) - 1; want[i] = I0(beta * sqrt(std::max(0., 1 - k * k))) / I0(beta); }
        DV got(w.getWindow(), w.getWindow() + n); eqv("coefficients", got, want, 1e-9);
        Buf s(rng.vec(n)), o(n, 5); DV s0 = s.v(); DV c(n); for (int i = 0; i < n; ++i) c[i] = s0[i] * want[i];
        w.cut(s, o); eqv("cut", o.v(), c); same("source", s.v(), s0); w.cut(s); eqv("cut in place", s.v(), c);
        KaiserWindow w2(w); eqv("copy", DV(w2.getWindow(), w2.getWindow() + n), got);
    }
    for (int k = 0; k < 400; ++k) {
        double att = rng.range(0, 3) ? rng.uni() * 120 : rng.range(0, 1) ? 21 : 50, tr = 0.01 + rng.uni(), rate = 8000 + rng.uni() * 40000, bw = tr * rate / (2 * M_PI);
        CASE(fmt("Kaiser parameters attenuation %.17g transition %.17g", att, tr));
        int len = 1 + int(ceil(att > 21 ? (att - 7.95) / (2.285 * tr) : 5.79 / tr));
        double beta = att > 50 ? .1102 * (att - 8.7) : att > 21 ? .5842 * pow(att - 21, .4) + .07886 * (att - 21) : 0;
        KaiserWindow::Parameters p = KaiserWindow::parametersForTransitionWidth(att, tr);
        CHECK(p.length == len, "length"); eq("beta", p.beta, beta);
        p = KaiserWindow::parametersForBandwidth(att, bw, rate); CHECK(abs(p.length - len) <= 1, "length from bandwidth"); eq("beta from bandwidth", p.beta, beta);
        if (len < 3000) { KaiserWindow w = KaiserWindow::byTransitionWidth(att, tr); CHECK(w.getLength() == len, "window length"); }
    }
    for (int k = 0; k < 126; ++k) for (int b = 0; b < 4; ++b) {
        int n = k < 120 ? k : k == 120 ? 257 : k == 121 ? 512 : k == 122 ? 1001 : k == 123 ? 2048 : k == 124 ? 4097 : 10001;
        double p = b == 0 ? 2 : 0.5 + rng.uni() * 40; SincWindow w(n, p);
        CASE(fmt("sinc length %d p %.17g", n, p)); CHECK(w.getLength() == n, "length");
        DV want(n); for (int i = 0; i < n; ++i) { double x = 2 * M_PI * (i - n / 2) / p; want[i] = i == n / 2 ? 1 : sin(x) / x; }
        DV got(w.getWindow(), w.getWindow() + n); eqv("coefficients", got, want, 1e-10);
        Buf s(rng.vec(n)), o(n, 5); DV s0 = s.v(); DV c(n); for (int i = 0; i < n; ++i) c[i] = s0[i] * want[i];
        w.cut(s, o); eqv("cut", o.v(), c); same("source", s.v(), s0); w.cut(s); eqv("cut in place", s.v(), c);
    }
    return done("lengths 1..140 (all below 40) and some to 65536, all types and both precisions; Kaiser and sinc lengths to 119 and some to 10001", "one case per window constructed, copied or assigned");
}
