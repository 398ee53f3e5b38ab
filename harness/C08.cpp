// UNITS: dsp/rateconversion/Resampler.cpp base/KaiserWindow.cpp base/SincWindow.cpp maths/MathUtilities.cpp
#include "common.h"
#include "dsp/rateconversion/Resampler.h"
#include <map>
typedef long long ll;
static int gcd_(int a, int b) { while (b) { int c = a % b; a = b; b = c; } return a; }
static ll cdiv(ll a, ll b) { return a <= 0 ? -((-a) / b) : (a + b - 1) / b; }
// feed x in the given chunks (either form of process), every call checked against the documented bound
static DV feed(Resampler &r, int rs, int rt, const DV &x, const std::vector<int> &chunks, int form) {
    DV out; size_t pos = 0; ll have = 0;
    for (size_t i = 0; i < chunks.size(); ++i) {
        int n = chunks[i]; ll mx = cdiv(ll(n) * rt, rs); DV c(x.begin() + pos, x.begin() + pos + n); Buf in(c); pos += n; have += n;
        if (form == 0 || (form == 2 && rng.range(0, 1))) { Buf o(int(mx), -77); int g = r.process(in, o, n); CHECK(g >= 0 && g <= mx, fmt("call %d wrote %d of at most %lld", (int)i, g, mx)); for (int k = 0; k < g; ++k) out.push_back(o.p[k]); for (int k = g; k < mx; ++k) CHECK(o.p[k] == -77, "written beyond the count returned"); }
        else { DV o = r.process(in, n); CHECK((ll)o.size() <= mx, fmt("call %d returned %d of at most %lld", (int)i, (int)o.size(), mx)); out.insert(out.end(), o.begin(), o.end()); }
        same("input", in.v(), c);
        ll lo = cdiv(have * rt, rs); CHECK((ll)out.size() == lo || (ll)out.size() == lo + 1, fmt("%d outputs after %lld inputs, %lld available", (int)out.size(), have, lo));
    }
    return out;
}
static std::vector<int> split(int n, int kind) {
    std::vector<int> c;
    if (kind == 0) c.push_back(n);
    else if (kind == 1) c.assign(n, 1);
    else if (kind == 2) { int k = rng.range(1, 64); for (int i = 0; i < n; i += k) c.push_back(std::min(k, n - i)); }
    else { int b = rng.range(1, 3) == 1 ? 5 : 200; while (n > 0) { int k = std::min(n, rng.range(0, b)); c.push_back(k); n -= k; } }
    return c;
}
static Resampler *mk(int rs, int rt, double snr, double bw) { return snr > 0 ? new Resampler(rs, rt, snr, bw) : new Resampler(rs, rt); }
static void pair_(int rs, int rt, double snr, double bw) {
    int g = gcd_(rs, rt), P = rt / g, Q = rs / g; double tol = snr > 0 ? 3 * pow(10, -snr / 20) : 4e-5, BW = snr > 0 ? bw : 0.02; std::string id = fmt("%d -> %d snr=%g bandwidth=%g", rs, rt, snr, bw);
    CASE("latency " + id); Resampler *r0 = mk(rs, rt, snr, bw); int lat = r0->getLatency(); delete r0; CHECK(lat >= 0, "negative latency");
    int span = int(cdiv(ll(lat + 1) * rs, rt)) * 2 + 2;            // inputs under the filter (at most)
    if (ll(span) * 3 > 60000) return;
    int n = span + rng.range(1, 400);
    // chunking
    DV x = rng.vec(n), one;
    for (int k = 0; k < 4; ++k) {
        if (k == 1 && n > 4000) continue;
        std::vector<int> c = split(n, k); CASE(fmt("chunks kind %d (%d calls) of %d samples, %s", k, (int)c.size(), n, id.c_str()));
        Resampler *r = mk(rs, rt, snr, bw); DV o = feed(*r, rs, rt, x, c, k % 3); delete r;
        if (k == 0) { one = o; CHECK((ll)o.size() == cdiv(ll(n) * rt, rs), "count of one block"); }
        else { size_t m = std::min(o.size(), one.size()); DV a(o.begin(), o.begin() + m), b(one.begin(), one.begin() + m); for (size_t i = 0; i < m; ++i) if (!near(a[i], b[i], 1e-12)) { FAIL(fmt("output %d is %.17g, in one block %.17g", (int)i, a[i], b[i])); break; } }
    }
    // linear, and the same after a whole number of periods
    { int sh = rng.range(1, 3); DV xs(n + sh * Q, 0.0); std::copy(x.begin(), x.end(), xs.begin() + sh * Q); CASE(fmt("shift by %d input samples, %s", sh * Q, id.c_str())); Resampler *r = mk(rs, rt, snr, bw); DV o = feed(*r, rs, rt, xs, split(n + sh * Q, 2), 0); delete r;
      for (int i = 0; i < sh * P; ++i) CHECK(near(o[i], 0, 1e-12), fmt("output %d is %g before any input", i, o[i])); for (size_t i = 0; i < one.size() && i + sh * P < o.size(); ++i) if (!near(o[i + sh * P], one[i], 1e-9)) { FAIL(fmt("output %d differs after the shift: %.17g, %.17g", (int)i, o[i + sh * P], one[i])); break; } }
    // fidelity in the pass band: output k is the input at (k - latency) * rs / rt
    double lower = std::min(1.0, double(rt) / rs);                 // cycles per input sample of the lower rate
    int N = span * 2 + int(200 / lower);
    for (int k = 0; k < (g_thorough() ? 8 : 4); ++k) {
        double edge = lower * (0.5 - 1.3 * BW); if (edge <= 0) break;
        double nu = k == 0 ? 0 : k == 1 ? edge : edge * rng.uni(), th = k == 0 ? M_PI / 2 : rng.uni() * 6.28; DV s(N); for (int j = 0; j < N; ++j) s[j] = sin(2 * M_PI * nu * j + th);
        CASE(fmt("sine %.12g cycles per sample, phase %.12g, %s", nu, th, id.c_str())); Resampler *r = mk(rs, rt, snr, bw); DV o = feed(*r, rs, rt, s, split(N, k % 4 == 1 ? 3 : 2), 2); delete r; double worst = 0; int at = 0, cnt = 0;
        for (int i = 0; i < (int)o.size(); ++i) { if (i < 2 * lat + P) continue; double w = sin(2 * M_PI * nu * (double(i - lat) * rs / rt) + th), d = fabs(o[i] - w); ++cnt; if (!(d <= worst)) worst = d, at = i; }
        CHECK(cnt > 50, "too few outputs"); if (getenv("SHOW")) printf("%s nu=%g worst %g\n", id.c_str(), nu, worst); CHECK(worst <= tol, fmt("output %d is off by %g", at, worst));
    }
    // nothing of what lies above the lower Nyquist frequency survives
    if (rt < rs) for (int k = 0; k < 2; ++k) {
        double lo = lower * (0.5 + 1.3 * BW), nu = k == 0 ? lo : lo + (0.5 - lo) * rng.uni(); if (lo >= 0.5) break; DV s(N); for (int j = 0; j < N; ++j) s[j] = sin(2 * M_PI * nu * j + 1);
        CASE(fmt("stop band sine %.12g cycles per sample, %s", nu, id.c_str())); Resampler *r = mk(rs, rt, snr, bw); DV o = feed(*r, rs, rt, s, split(N, 2), 0); delete r; double worst = 0; for (int i = 2 * lat + P; i < (int)o.size(); ++i) worst = std::max(worst, fabs(o[i])); if (getenv("SHOW")) printf("%s stop nu=%g worst %g\n", id.c_str(), nu, worst); CHECK(worst <= tol, fmt("%g passes", worst));
    }
    // one-shot form
    if (snr == 0) for (int k = 0; k < 3; ++k) {
        int m = k == 0 ? rng.range(0, 6) : k == 1 ? n : rng.range(1, 300); DV y = rng.vec(m); ll want = cdiv(ll(m) * rt, rs); Buf in(y); CASE(fmt("resample() of %d samples, %s", m, id.c_str())); DV o = Resampler::resample(rs, rt, in, m); same("input", in.v(), y);
        if ((ll)o.size() != want) { FAIL(fmt("%d samples, contract says %lld", (int)o.size(), want)); continue; }
        DV pad(y); pad.resize(m + span, 0.0); Resampler *r = mk(rs, rt, 0, 0); DV q = feed(*r, rs, rt, pad, split(m + span, 2), 0); delete r; DV w(want, 0.0); for (ll i = 0; i < want; ++i) w[i] = q.at(i + lat); eqv("aligned output", o, w, 1e-12);
    }
    // equal rates
    if (rs == rt) { CASE("equal rates " + id); Resampler *r = mk(rs, rt, snr, bw); DV o = feed(*r, rs, rt, x, split(n, 3), 0); delete r; for (size_t i = 0; i < o.size(); ++i) { double w = int(i) < lat ? 0 : x[i - lat]; if (!(fabs(o[i] - w) <= 1e-9 * 1000)) { FAIL(fmt("output %d is %.17g, input was %.17g", (int)i, o[i], w)); break; } } }
}
int main() {
    static const int fixed[][2] = {{44100, 48000}, {48000, 44100}, {22050, 44100}, {44100, 22050}, {44100, 44100}, {1, 1}, {16000, 48000}, {48000, 16000}, {8000, 44100}, {3, 2}, {2, 3}, {1, 20}, {20, 1}, {7, 5}, {5, 7}};
    int nf = sizeof fixed / sizeof fixed[0];
    for (int i = 0; i < nf; ++i) pair_(fixed[i][0], fixed[i][1], 0, 0);
    // one long block: more than 2^31 ticks of the common clock
    static const int lng[][2] = {{44100, 48000}, {48000, 44100}, {96000, 44100}};
    for (int i = 0; i < 3; ++i) { int rs = lng[i][0], rt = lng[i][1], n = 60000 + rng.range(0, 500); DV x = rng.vec(n); CASE(fmt("one block of %d samples, %d -> %d", n, rs, rt)); Resampler *r = mk(rs, rt, 0, 0); DV a = feed(*r, rs, rt, x, split(n, 0), i % 2); delete r; r = mk(rs, rt, 0, 0); DV b = feed(*r, rs, rt, x, split(n, 2), 0); delete r;
        for (size_t k = 0; k < a.size() && k < b.size(); ++k) if (!near(a[k], b[k], 1e-12)) { FAIL(fmt("output %d is %.17g, in small blocks %.17g", (int)k, a[k], b[k])); break; } }
    int cases = g_thorough() ? 400 : 40;
    for (int it = 0; it < cases; ++it) {
        int m = it % 4 == 0 ? 40 : 12, a = rng.range(1, m), b = it % 7 == 0 ? a : rng.range(1, m), k = rng.range(0, 2) ? 1 : rng.range(1, 4000); bool custom = it % 3 == 0;
        pair_(a * k, b * k, custom ? rng.range(40, 110) : 0, custom ? 0.02 + 0.08 * rng.uni() : 0);
    }
    return done("15 fixed and 40 (thorough: 400) random rate pairs up to 40:1, default and custom filters; streams of up to three filter lengths", "outputs compared between chunkings, with sines of known frequency and phase, with the one-shot form");
}
