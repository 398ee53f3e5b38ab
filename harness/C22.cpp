// UNITS: base/Pitch.cpp
#include "common.h"
#include "base/Pitch.h"
static void one(double p, float A) {
    // frequency whose pitch is p semitones
    float f = float(A * pow(2.0, (p - 69) / 12));
    CASE(fmt("getPitchForFrequency(%.9g, A=%.9g)", f, A));
    float cents = 12345; int m = Pitch::getPitchForFrequency(f, &cents, A);
    double q = 12 * log2(double(f) / A) + 69;     // exact pitch
    CHECK(cents >= -50.001 && cents <= 50.001, fmt("cents offset %.9g (pitch %d) outside [-50,50]", cents, m));
    CHECK(fabs(m + cents / 100.0 - q) < 1e-4, fmt("pitch %d + %.9g cents, contract says %.9g semitones", m, cents, q));
    CHECK(fabs(m - q) <= 0.5001, fmt("pitch %d is not the nearest semitone to %.9g", m, q));
    CHECK(Pitch::getPitchForFrequency(f, 0, A) == m, "pitch differs when no cents are requested");
    float g = Pitch::getFrequencyForPitch(m, cents, A);
    CHECK(fabs(g / f - 1) < 2e-5, fmt("round trip gives %.9g", g));
}
int main() {
    float As[] = { 440, 415, 432, 466.16f, 220, 27.5f, 1, 10000 };
    for (int a = 0; a < 8; ++a) {
        for (int m = 0; m <= 140; ++m) for (int c = -50; c <= 50; c += (a == 0 ? 5 : 25)) {
            CASE(fmt("getFrequencyForPitch(%d, %d, %.9g)", m, c, As[a]));
            eq("frequency", Pitch::getFrequencyForPitch(m, c, As[a]), As[a] * pow(2.0, (m - 69 + c / 100.0) / 12), 2e-6);
            if (m > 0 || c >= 0) one(m + c / 100.0, As[a]);
        }
        for (int m = 0; m < 130; ++m) { one(m + 0.499, As[a]); one(m + 0.501, As[a]); one(m + 0.9995, As[a]); one(m + 1.0005, As[a]); }
    }
    for (int i = 0; i < (g_thorough() ? 2000000 : 20000); ++i) one(rng.uni() * 139, As[rng.range(0, 7)]);
    for (int i = 0; i < 500; ++i) { int m = rng.range(-200, 300); float c = rng.sym(300); CASE(fmt("getFrequencyForPitch(%d, %.9g)", m, c));
        eq("frequency", Pitch::getFrequencyForPitch(m, c), 440 * pow(2.0, (m - 69 + c / 100.0) / 12), 3e-5); 
        eq("middle C", Pitch::getFrequencyForPitch(60), 261.6255653, 1e-6); }
    return done("MIDI pitches 0..140 at 5..25 cent steps with 8 concert A values, plus random pitches", "distinct argument tuples");
}
