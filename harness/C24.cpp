// UNITS: dsp/wavelet/Wavelet.cpp
#include "common.h"
#include "dsp/wavelet/Wavelet.h"
#include "daub.h"
static const char *NAMES[] = { "Haar", "Daubechies 2", "Daubechies 3", "Daubechies 4", "Daubechies 5", "Daubechies 6", "Daubechies 7", "Daubechies 8", "Daubechies 9", "Daubechies 10", "Daubechies 20", "Daubechies 40",
  "Symlet 2", "Symlet 3", "Symlet 4", "Symlet 5", "Symlet 6", "Symlet 7", "Symlet 8", "Symlet 9", "Symlet 10", "Symlet 20", "Symlet 30", "Coiflet 1", "Coiflet 2", "Coiflet 3", "Coiflet 4", "Coiflet 5",
  "Biorthogonal 1.3", "Biorthogonal 1.5", "Biorthogonal 2.2", "Biorthogonal 2.4", "Biorthogonal 2.6", "Biorthogonal 2.8", "Biorthogonal 3.1", "Biorthogonal 3.3", "Biorthogonal 3.5", "Biorthogonal 3.7", "Biorthogonal 3.9", "Biorthogonal 4.4", "Biorthogonal 5.5", "Biorthogonal 6.8", "Meyer" };
static const int LEN[] = { 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 40, 80, 4, 6, 8, 10, 12, 14, 16, 18, 20, 40, 60, 6, 12, 18, 24, 30, 6, 10, 6, 10, 14, 18, 4, 8, 12, 16, 20, 10, 12, 18, 102 };
static const int VM[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 40, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 30, 2, 4, 6, 8, 10, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 3, 4, 5, 6, 1 };
static double tolerance(const std::string &n) { static const struct { const char *n; double t; } T[] = { { "Daubechies 3", 1e-11 }, { "Daubechies 5", 4e-12 }, { "Daubechies 7", 3e-12 }, { "Daubechies 8", 5e-12 }, { "Daubechies 4", 2e-12 }, { "Daubechies 6", 2e-12 }, { "Daubechies 2", 2e-12 }, { "Daubechies 9", 6e-11 }, { "Daubechies 10", 6e-12 }, { "Daubechies 20", 2e-11 }, { "Daubechies 40", 2e-05 }, { "Symlet 2", 2e-12 }, { "Symlet 3", 1e-11 }, { "Symlet 4", 3e-12 }, { "Symlet 5", 7e-12 }, { "Symlet 6", 6e-12 }, { "Symlet 7", 7e-12 }, { "Symlet 8", 5e-12 }, { "Symlet 20", 2e-11 }, { "Symlet 30", 2e-08 }, { "Coiflet 1", 2e-12 }, { "Coiflet 2", 2e-11 }, { "Coiflet 3", 6e-12 }, { "Coiflet 4", 4e-11 }, { "Coiflet 5", 8e-09 }, { "Biorthogonal 4.4", 3e-12 }, { "Biorthogonal 5.5", 2e-12 }, { "Biorthogonal 6.8", 5e-13 }, { "Meyer", 5e-06 } }; for (size_t i = 0; i < sizeof(T) / sizeof(T[0]); ++i) if (n == T[i].n) return T[i].t; return 2e-13; }
int main() {
    std::set<std::string> seen;
    for (int rep = 0; rep < 3; ++rep)
    for (int t = 0; t <= int(Wavelet::LastType); ++t) {
        std::string nm = Wavelet::getWaveletName(Wavelet::Type(t));
        CASE(fmt("%s (type %d), result vectors of %d elements before", NAMES[t], t, rep * 50));
        CHECK(nm == NAMES[t], fmt("named '%s'", nm.c_str()));
        CHECK(rep || seen.insert(nm).second, "name used twice"); CHECK(!nm.empty(), "empty name");
        DV a = rng.vec(rep * 50), b = rng.vec(rep * 50 + rep);
        Wavelet::createDecompositionFilters(Wavelet::Type(t), a, b);
        int L = LEN[t]; bool bio = nm.substr(0, 3) == "Bio";
        if (int(a.size()) != L || int(b.size()) != L) { FAIL(fmt("lengths %d %d, expected %d", int(a.size()), int(b.size()), L)); continue; }
        double tol = tolerance(nm) + 1e-13;
        double sa = 0, sb = 0, cen = 0; for (int k = 0; k < L; ++k) { sa += a[k]; sb += b[k]; cen += k * a[k] * a[k]; }
        CHECK(fabs(sa - sqrt(2.0)) < tol, fmt("low-pass sums to %.15g", sa)); CHECK(fabs(sb) < tol, fmt("high-pass sums to %.15g", sb));
        if (!bio) {
            for (int s = 0; s < L; s += 2) { double e = 0; for (int k = 0; k + s < L; ++k) e += a[k] * a[k + s]; CHECK(fabs(e - (s == 0)) < tol, fmt("low-pass correlated with its shift by %d: %.12g", s, e)); }
            for (int k = 0; k < L; ++k) CHECK(b[k] == (k % 2 ? 1 : -1) * a[L - 1 - k], fmt("high-pass element %d is %.15g, low-pass element %d is %.15g", k, b[k], L - 1 - k, a[L - 1 - k]));
        } else {
            for (int s = -L; s <= L; s += 2) { double e = 0; for (int k = 0; k < L; ++k) { int q = L - 1 - k - s; if (q >= 0 && q < L) e += a[k] * (q % 2 ? 1 : -1) * b[q]; } CHECK(fabs(e - (s == 0)) < tol, fmt("not biorthogonal at shift %d: %.12g", s, e)); }
        }
        if (bio || nm == "Meyer") for (int w = 0; w < 2; ++w) {
            const DV &v = w ? b : a; int i = 0, j = L - 1; while (i < j && v[i] == 0) ++i; while (i < j && v[j] == 0) --j;
            double e1 = 0, e2 = 0; for (int k = 0; i + k <= j; ++k) { e1 = std::max(e1, fabs(v[i + k] - v[j - k])); e2 = std::max(e2, fabs(v[i + k] + v[j - k])); }
            CHECK(std::min(e1, e2) < tol, fmt("%s-pass filter is neither symmetric nor antisymmetric: off by %g", w ? "high" : "low", std::min(e1, e2)));
        }
        for (int p = 1; p < VM[t]; ++p) { double m = 0; for (int k = 0; k < L; ++k) m += pow((2.0 * k - L + 1) / L, p) * b[k]; CHECK(fabs(m) < tol, fmt("moment %d of the high-pass filter is %.12g", p, m)); }
        if (nm.substr(0, 3) == "Dau") { const double *d = DB(VM[t]); for (int k = 0; k < L; ++k) CHECK(fabs(a[L - 1 - k] - d[k]) < tol, fmt("element %d is %.15g, the Daubechies filter has %.15g", L - 1 - k, a[L - 1 - k], d[k])); }
        if (nm.substr(0, 3) == "Sym" && VM[t] >= 4) CHECK(cen > 0.38 * (L - 1) && cen < 0.62 * (L - 1), "not nearly symmetric");
    }
    return done("all offered wavelets, three earlier contents each", "all types");
}
