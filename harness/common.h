// shared by the bounded stand-ins / replay harnesses: contracts executed on concrete inputs
#ifndef QMV_COMMON_H
#define QMV_COMMON_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <set>
#include <algorithm>
#include <sstream>
#include <iomanip>
typedef std::vector<double> DV;
struct Rng {
    unsigned long long s;
    Rng(unsigned long long x) : s(x * 6364136223846793005ULL + 1442695040888963407ULL) { for (int i = 0; i < 8; ++i) next(); }
    unsigned long long next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    int range(int a, int b) { return a + int(next() % (unsigned long long)(b - a + 1)); }   // inclusive
    double uni() { return double(next() >> 11) / 9007199254740992.0; }
    double sym(double m = 1.0) { return (2 * uni() - 1) * m; }
    // values that exercise equalities, signs and zeros
    double val() {
        switch (range(0, 5)) {
        case 0: return range(-3, 3);
        case 1: return 0;
        case 2: return sym(1e-3);
        case 3: return sym(1000);
        default: return sym(1);
        }
    }
    DV vec(int n) { DV v(n); int k = range(0, 4); for (int i = 0; i < n; ++i) v[i] = (k == 0 ? range(-2, 2) : k == 1 ? val() : sym(1)); return v; }
};
static int g_seed() { const char *s = getenv("VERIF_SEED"); return s ? atoi(s) : 1; }
static bool g_thorough() { const char *s = getenv("VERIF_TIER"); return s && !strcmp(s, "thorough"); }
static Rng rng(g_seed());
static long g_evals = 0; static std::set<std::string> g_distinct; static std::vector<std::string> g_samples; static int g_fails = 0;
static std::string g_case;
static std::string fmt(const char *f, ...) {
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
static std::string show(const DV &v, int maxn = 40) {
    std::ostringstream o; o << std::setprecision(17) << "[";
    for (int i = 0; i < (int)v.size() && i < maxn; ++i) o << (i ? "," : "") << v[i];
    if ((int)v.size() > maxn) o << ",...(" << v.size() << ")";
    o << "]"; return o.str();
}
static std::string jesc(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '"' || s[i] == '\\') r += '\\'; if (s[i] == '\n') { r += "\\n"; continue; } r += s[i]; } return r; }
// announce the case being executed (shown if it crashes); non-trivial cases are counted by their description
static void CASE(const std::string &d) {
    g_case = d; ++g_evals;
    if (g_distinct.insert(d.substr(0, 400)).second && g_samples.size() < 3) g_samples.push_back(d.substr(0, 300));
}
static void FAIL(const std::string &why) {
    printf("FAILCASE %s: %s\n", g_case.c_str(), why.c_str()); fflush(stdout);
    if (++g_fails >= 5) exit(1);
}
#define CHECK(c, why) do { if (!(c)) FAIL(why); } while (0)
static bool near(double a, double b, double tol = 1e-9) {
    if (a != a || b != b) return (a != a) && (b != b);
    return fabs(a - b) <= tol * (1 + std::max(fabs(a), fabs(b)));
}
static void eq(const std::string &what, double got, double want, double tol = 1e-9) {
    if (!near(got, want, tol)) FAIL(fmt("%s: got %.17g, contract says %.17g", what.c_str(), got, want));
}
static void eqv(const std::string &what, const DV &g, const DV &w, double tol = 1e-9) {
    if (g.size() != w.size()) { FAIL(fmt("%s: %d values, contract says %d", what.c_str(), (int)g.size(), (int)w.size())); return; }
    for (size_t i = 0; i < g.size(); ++i) if (!near(g[i], w[i], tol)) { FAIL(fmt("%s[%d]: got %.17g, contract says %.17g", what.c_str(), (int)i, g[i], w[i])); return; }
}
static void same(const std::string &what, const DV &g, const DV &w) {
    if (g != w) FAIL(what + " modified");
}
// exact-size heap copy so that AddressSanitizer sees any access outside it
struct Buf {
    double *p; int n;
    Buf(const DV &v) : p((double *)malloc(v.size() * sizeof(double) + (v.empty() ? 1 : 0))), n(v.size()) { if (n) memcpy(p, &v[0], n * sizeof(double)); }
    Buf(int m, double x = 0) : p((double *)malloc(m * sizeof(double) + (m ? 0 : 1))), n(m) { for (int i = 0; i < n; ++i) p[i] = x; }
    ~Buf() { free(p); }
    operator double *() { return p; }
    DV v() const { return DV(p, p + n); }
private: Buf(const Buf &); Buf &operator=(const Buf &);
};
static int done(const std::string &bounds_, const std::string &rule_) { const char *bounds = bounds_.c_str(), *rule = rule_.c_str();
    std::string s;
    for (size_t i = 0; i < g_samples.size(); ++i) s += (i ? ", \"" : "\"") + jesc(g_samples[i]) + "\"";
    printf("SUMMARY {\"evaluations\": %ld, \"distinct\": %ld, \"bounds\": \"%s\", \"rule\": \"%s\", \"samples\": [%s]}\n", g_evals, (long)g_distinct.size(), jesc(bounds).c_str(), jesc(rule).c_str(), s.c_str());
    return g_fails ? 1 : 0;
}
#endif
