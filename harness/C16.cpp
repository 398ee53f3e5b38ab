// UNITS: dsp/signalconditioning/Framer.cpp
#include "common.h"
#include "dsp/signalconditioning/Framer.h"
static void use(Framer &f, int len, int L, int hop, int extra) {
    DV v(len); for (int i = 0; i < len; ++i) v[i] = i + 1 + rng.uni();
    Buf src(v);
    f.setSource(src, len);
    int want = (len + hop - 1) / hop;
    CHECK(f.getMaxNoFrames() == want, fmt("getMaxNoFrames %d, contract says %d", f.getMaxNoFrames(), want));
    for (int k = 0; k < want + extra; ++k) {
        if (k == want + extra / 2 && extra > 2) { f.resetCounters(); extra = 0; k = 0; }
        Buf d(L, -7); f.getFrame(d);
        for (int i = 0; i < L; ++i) {
            long t = (long)k * hop + i; double w = t < len ? v[t] : 0;
            if (d[i] != w) { FAIL(fmt("frame %d sample %d is %.17g, contract says %.17g", k, i, d[i], w)); return; }
        }
    }
    same("source", src.v(), v);
}
int main() {
    for (int L = 0; L <= 7; ++L) for (int hop = 1; hop <= 9; ++hop) for (int len = 0; len <= 24; ++len) {
        Framer f; f.configure(L, hop);
        CASE(fmt("frame %d hop %d source %d", L, hop, len)); use(f, len, L, hop, 0);
        int l2 = rng.range(0, 24); CASE(fmt("frame %d hop %d source %d, then source %d on the same framer", L, hop, len, l2)); use(f, l2, L, hop, rng.range(0, 6));
        int L2 = rng.range(0, 9), h2 = rng.range(1, 9); f.configure(L2, h2);
        CASE(fmt("reconfigured to frame %d hop %d source %d", L2, h2, l2)); use(f, l2, L2, h2, 3);
    }
    for (int i = 0; i < (g_thorough() ? 4000 : 300); ++i) {
        int L = rng.range(1, 300), hop = rng.range(1, 300), len = rng.range(0, 3000);
        Framer f; f.configure(L, hop); CASE(fmt("frame %d hop %d source %d", L, hop, len)); use(f, len, L, hop, 2); use(f, rng.range(0, 500), L, hop, 5);
    }
    for (int i = 0; i < 2000; ++i) {   // counts of frames for very long sources (the samples are not touched)
        long long len = (long long)(rng.next() >> rng.range(4, 40)); int hop = 1 << rng.range(0, 20); hop += rng.range(0, hop - 1); double x = 0;
        long long want = len / hop + (len % hop != 0); if (want > 2147483647LL) want = 2147483647LL;
        CASE(fmt("count only: hop %d source %lld", hop, len)); Framer f; f.configure(4, hop); f.setSource(&x, len);
        CHECK(f.getMaxNoFrames() == want, fmt("getMaxNoFrames %d, contract says %lld", f.getMaxNoFrames(), want));
    }
    return done("frame 0..7 x hop 1..9 x source 0..24 exhaustively with reuse, then random up to 300/300/3000", "distinct configurations");
}
