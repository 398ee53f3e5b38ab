// UNITS: maths/MathUtilities.cpp
#include "common.h"
#include "maths/MathUtilities.h"
typedef MathUtilities M;
static void vectors(int n) {
    DV v = rng.vec(n); int kind = rng.range(0, 29);
    if (kind < 3) v.assign(n, 0.0); if (kind == 3) for (int i = 0; i < n; ++i) v[i] = -fabs(v[i]) - 1; if (kind == 4) for (int i = 0; i < n; ++i) v[i] *= 1e-7; if (kind == 5) for (int i = 0; i < n; ++i) v[i] *= 1e6; if (kind == 6) v.assign(n, rng.sym(3));
    if (kind == 7) for (int i = 0; i < n; ++i) v[i] = i; if (kind == 8) for (int i = 0; i < n; ++i) v[i] = -i;
    CASE("vector functions n=" + fmt("%d ", n) + show(v));
    Buf b(v);
    double s = 0; for (int i = 0; i < n; ++i) s += v[i];
    eq("sum", M::sum(b, n), s);
    eq("mean", M::mean(b, n), n ? s / n : 0);
    DV o(v); std::sort(o.begin(), o.end());
    eq("median", M::median(b, n), n == 0 ? 0 : n % 2 ? o[n/2] : (o[n/2] + o[n/2-1]) / 2, 1e-12);
    same("input of sum/mean/median", b.v(), v);
    int st = n ? rng.range(0, n) : 0, ct = rng.range(0, n - st);
    double sm = 0; for (int i = 0; i < ct; ++i) sm += v[st + i];
    eq(fmt("mean(start=%d,count=%d)", st, ct), M::mean(v, st, ct), ct ? sm / ct : 0);
    double mn, mx; M::getFrameMinMax(b, n, &mn, &mx);
    eq("min", mn, n ? o[0] : 0, 0); eq("max", mx, n ? o[n-1] : 0, 0);
    if (n) {
        int al = rng.range(1, 4); double a = 0; for (int i = 0; i < n; ++i) a += pow(fabs(v[i]), al);
        double r; M::getAlphaNorm(b, n, al, &r);
        eq(fmt("getAlphaNorm(%d)", al), r, pow(a / n, 1.0 / al)); eq("getAlphaNorm(vector)", M::getAlphaNorm(v, al), pow(a / n, 1.0 / al));
        int wi = 0; for (int i = 1; i < n; ++i) if (v[i] > v[wi]) wi = i;
        double m1 = -1, m2 = -1;
        CHECK(M::getMax(b, n, &m1) == wi && m1 == v[wi], fmt("getMax: contract says index %d", wi));
        CHECK(M::getMax(v, &m2) == wi && m2 == v[wi], fmt("getMax(vector): contract says index %d", wi));
        int sh = rng.range(0, 3 * n); Buf c(v); M::circShift(c, n, sh);
        DV w(n); for (int i = 0; i < n; ++i) w[(i + sh) % n] = v[i];
        eqv(fmt("circShift(%d)", sh), c.v(), w, 0);
        int p = rng.range(1, 4); double l = 0; for (int i = 0; i < n; ++i) l += fabs(pow(v[i], p)); l = pow(l, 1.0 / p);
        eq(fmt("getLpNorm(%d)", p), M::getLpNorm(v, p), l);
        double th = rng.range(0, 1) ? 1e-6 : 5; DV u(n); for (int i = 0; i < n; ++i) u[i] = l < th ? 1 / pow(n, 1.0 / p) : v[i] / l;
        DV keep(v); eqv(fmt("normaliseLp(%d,%g)", p, th), M::normaliseLp(v, p, th), u); same("normaliseLp input", v, keep);
        eqv("normaliseLp(0)", M::normaliseLp(v, 0, th), v, 0);
    }
    for (int t = 0; t < 3; ++t) {
        M::NormaliseType nt = t == 0 ? M::NormaliseNone : t == 1 ? M::NormaliseUnitSum : M::NormaliseUnitMax;
        double d = 1; if (t == 1) d = s; if (t == 2) { d = 0; for (int i = 0; i < n; ++i) d = std::max(d, fabs(v[i])); }
        DV w(v); if (d != 0) for (int i = 0; i < n; ++i) w[i] = v[i] / d;
        Buf c(v); M::normalise(c, n, nt); DV x(v); M::normalise(x, nt);
        eqv(fmt("normalise(%d)", t), c.v(), w); eqv(fmt("normalise(vector,%d)", t), x, w);
    }
    DV a(v), w(n); M::adaptiveThreshold(a);
    for (int i = 0; i < n; ++i) {
        int lo = std::max(0, i - 8), hi = std::min(n - 1, i + 7); double m = 0; for (int j = lo; j <= hi; ++j) m += v[j];
        w[i] = std::max(0.0, v[i] - m / (hi - lo + 1));
    }
    eqv("adaptiveThreshold", a, w);
}
static void scalars() {
    double x = rng.range(0, 2) ? rng.sym(50) : rng.range(-40, 40) / 2.0;
    CASE(fmt("scalars x=%.17g", x));
    double r = M::round(x); CHECK(r == (x < 0 ? -floor(-x + 0.5) : floor(x + 0.5)), fmt("round gave %.17g", r));
    double y = rng.range(0, 1) ? rng.sym(7) : rng.range(1, 5); if (y == 0) y = 1;
    double m = M::mod(x, y); eq(fmt("mod(x,%.17g)", y), m, x - y * floor(x / y));
    double p = M::princarg(x);
    CHECK(p >= -M_PI - 1e-9 && p <= M_PI + 1e-9, fmt("princarg gave %.17g outside [-pi,pi]", p));
    CHECK(fabs(sin(p - x)) < 1e-9 && cos(p - x) > 0, fmt("princarg gave %.17g, not congruent", p));
}
static void integers(int x) {
    CASE(fmt("integers x=%d", x));
    bool p2 = x >= 1; for (int q = x; p2 && q > 1; q /= 2) if (q % 2) p2 = false;
    CHECK(M::isPowerOfTwo(x) == p2, "isPowerOfTwo");
    if (x <= (1 << 30) && x > -(1 << 30)) {
        long nx = 1; while (nx < x) nx *= 2; long pv = 1; while (pv * 2 <= x) pv *= 2;
        CHECK(M::nextPowerOfTwo(x) == nx, fmt("nextPowerOfTwo gave %d", M::nextPowerOfTwo(x)));
        CHECK(M::previousPowerOfTwo(x) == pv, fmt("previousPowerOfTwo gave %d", M::previousPowerOfTwo(x)));
        long ne = (x - pv < nx - x) ? pv : nx;
        CHECK(M::nearestPowerOfTwo(x) == ne, fmt("nearestPowerOfTwo gave %d", M::nearestPowerOfTwo(x)));
    }
    if (x <= 170 && x >= -3) { double f = x < 0 ? 0 : 1; for (int i = 2; i <= x; ++i) f *= i; eq("factorial", M::factorial(x), f); }
    if (x > 0) { int y = rng.range(1, 1000); int a = x, b = y; while (b) { int t = a % b; a = b; b = t; } CHECK(M::gcd(x, y) == a, fmt("gcd(x,%d) gave %d", y, M::gcd(x, y))); }
}
int main() {
    int rep = g_thorough() ? 400 : 60;
    for (int n = 0; n <= 40; ++n) for (int k = 0; k < rep; ++k) vectors(n);
    for (int k = 0; k < rep; ++k) vectors(rng.range(41, 400));
    for (int k = 0; k < rep; ++k) vectors(rng.range(401, 6000));
    for (int k = 0; k < 100 * rep; ++k) scalars();
    for (int x = -70; x <= 5000; ++x) integers(x);
    for (int b = 3; b <= 30; ++b) for (int d = -2; d <= 2; ++d) integers((1 << b) + d);
    for (int k = 0; k < 10 * rep; ++k) integers(rng.range(1, (1 << 30)));
    return done("vectors of length 0..40 (and some to 6000), scalars in [-50,50], integers -70..5000, around every power of two and random to 2^30",
                "random vectors mixing small integers, zeros and reals; a case is one vector / scalar / integer pushed through every function; distinct by content");
}
