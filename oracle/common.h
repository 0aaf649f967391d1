// Replay harness support: seeded random inputs, one line per failing case, a record of the running case for crashes.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <exception>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <unordered_set>
#include <string>
#include <algorithm>
#include <vector>
#include <functional>
#include <unistd.h>
namespace orc {
inline std::mt19937_64 &rng() { static std::mt19937_64 r; return r; }
inline double U(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng()); }
inline int I(int a, int b) { return std::uniform_int_distribution<int>(a, b)(rng()); }
inline bool B(double p = 0.5) { return U(0, 1) < p; }
inline double N() { return std::normal_distribution<double>()(rng()); }
// values with many coincidences
inline double G(int m = 6) { int k = I(0, 3); if (k == 0) return I(-m, m); if (k == 1) return I(-2 * m, 2 * m) / 2.0; return U(-m, m); }
inline char *lastbuf() { static char b[1 << 15]; return b; }
inline long &cases() { static long c = 0; return c; }
inline long &nontriv() { static long c = 0; return c; }
inline std::map<std::string, int> &fails() { static std::map<std::string, int> f; return f; }
inline int &samples() { static int s = 0; return s; }
inline void CASE(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(lastbuf(), (1 << 15) - 1, fmt, ap); va_end(ap); ++cases();
    for (char *p = lastbuf(); *p; ++p) if (*p == '\n') *p = ' ';
}
inline void CASES(const std::string &s) { CASE("%s", s.c_str()); }
inline void NT() {
    static std::unordered_set<size_t> seen; if (!seen.insert(std::hash<std::string>()(lastbuf())).second) return;
    ++nontriv(); if (samples() < 3 && (nontriv() % 7) == 1) { ++samples(); printf("SAMPLE %s\n", lastbuf()); } }
inline void FAIL(const std::string &key, const char *fmt, ...) {
    int &n = fails()[key];
    if (++n > 3) return;
    char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (char *p = b; *p; ++p) if (*p == '\n') *p = ' ';
    printf("FAIL %s %s || case: %s\n", key.c_str(), b, lastbuf()); fflush(stdout);
}
inline void onsig(int s) {
    char b[64]; int n = snprintf(b, sizeof b, "\nLASTCASE "); (void)!write(1, b, n); (void)!write(1, lastbuf(), strlen(lastbuf())); (void)!write(1, "\n", 1);
    signal(s, SIG_DFL); raise(s);
}
inline bool near(double a, double b, double tol = 1e-7) { return std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
inline std::string S(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
inline std::string S(const std::vector<double> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + S(v[i]); return s + "]"; }
// runs f; any exception is a failure with this key
inline bool guarded(const std::string &key, const std::function<void()> &f) {
    try { f(); return true; } catch (const std::exception &e) { FAIL(key, "exception: %s", e.what()); } catch (...) { FAIL(key, "exception"); }
    return false;
}
struct Clock {
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now(); double lim;
    bool left() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < lim; }
};
}  // namespace orc
using namespace orc;
void run_oracle(double seconds);   // one bounded exploration
int main(int argc, char **argv) {
    unsigned long seed = argc > 1 ? strtoul(argv[1], 0, 10) : 1; double secs = argc > 2 ? atof(argv[2]) : 3;
    rng().seed(seed * 0x9E3779B97F4A7C15ull + 12345); srand(seed);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGTERM}) signal(s, onsig);
    lastbuf()[0] = 0;
    run_oracle(secs);
    printf("CASES %ld %ld\n", cases(), nontriv()); fflush(stdout);
    _exit(fails().empty() ? 0 : 1);
}
