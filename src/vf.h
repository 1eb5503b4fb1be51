#pragma once
// Common parts of the C++ harnesses: arguments, deterministic randomness, report lines, statistics, oracles.
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <numeric>
#include <limits>
#include <mutex>
#include <atomic>
#include <functional>
#include <chrono>
#include <omp.h>

extern "C" {
__attribute__((weak)) void vf_omp_sched(uint64_t);
__attribute__((weak)) void vf_omp_team(int);
__attribute__((weak)) int vf_omp_is_mini();
__attribute__((weak)) void vf_thread_begin(); __attribute__((weak)) void vf_thread_end();
__attribute__((weak)) void vf_join_begin(); __attribute__((weak)) void vf_join_end();
__attribute__((weak)) uint64_t vf_steps(); __attribute__((weak)) void vf_steps_reset(uint64_t); __attribute__((weak)) void vf_delay(uint64_t);
}

namespace vf {

inline uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto c = (const unsigned char*)p; size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t w; memcpy(&w, c + i, 8); h = mix(h ^ w); }
    uint64_t w = 0; memcpy(&w, c + i, n - i); return mix(h ^ w ^ (uint64_t(n) << 56));
}
template<class T> uint64_t hash_vec(const std::vector<T>& v, uint64_t h = 77) { return v.empty() ? mix(h) : hash_bytes(v.data(), v.size() * sizeof(T), h); }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
    Rng(uint64_t a, uint64_t b) : s(mix(mix(a) ^ (b * 0xD1342543DE82EF95ull))) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    double u() { return (next() >> 11) * 0x1.0p-53; }                 // [0,1)
    double u(double a, double b) { return a + (b - a) * u(); }
    double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
    long i(long a, long b) { return a + (long)(next() % (uint64_t)(b - a + 1)); }   // [a,b]
    bool p(double q) { return u() < q; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    double normal() { double a = u(); if (a <= 0) a = 1e-300; return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * u()); }
};

// ---------------------------------------------------------------- arguments and reports
struct Args {
    std::map<std::string, std::string> m;
    Args(int c, char** v) { for (int i = 1; i < c; ++i) { std::string a = v[i]; auto e = a.find('='); if (a.rfind("--", 0) == 0) { if (e == std::string::npos) m[a.substr(2)] = "1"; else m[a.substr(2, e - 2)] = a.substr(e + 1); } } }
    long i(const char* k, long d) const { auto it = m.find(k); return it == m.end() ? d : atol(it->second.c_str()); }
    double f(const char* k, double d) const { auto it = m.find(k); return it == m.end() ? d : atof(it->second.c_str()); }
    std::string s(const char* k, const char* d = "") const { auto it = m.find(k); return it == m.end() ? d : it->second; }
};
inline double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
inline std::string fmt(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

struct Report {
    std::mutex m; std::map<std::string, int> viols; std::map<std::string, long> stats; std::map<std::string, double> maxs;
    std::unordered_set<uint64_t> hashes; std::vector<std::string> samples; long evals = 0;
    int bad = 0;
    void viol(const std::string& key, std::string msg) {
        for (auto& ch : msg) if ((unsigned char)ch < 32) ch = ' ';
        std::lock_guard<std::mutex> l(m); ++bad;
        if (++viols[key] <= 3) { printf("VIOL %s %s\n", key.c_str(), msg.c_str()); fflush(stdout); }
    }
    void stat(const std::string& k, long v = 1) { std::lock_guard<std::mutex> l(m); stats[k] += v; }
    void max(const std::string& k, double v) { std::lock_guard<std::mutex> l(m); auto it = maxs.find(k); if (it == maxs.end()) maxs[k] = v; else it->second = std::max(it->second, v); }
    void seen(uint64_t h) { std::lock_guard<std::mutex> l(m); hashes.insert(h); }
    void eval(long k = 1) { std::lock_guard<std::mutex> l(m); evals += k; }
    void sample(const std::string& s) { std::lock_guard<std::mutex> l(m); if (samples.size() < 4) samples.push_back(s); }
    int done() {
        for (auto& s : stats) printf("STAT %s %ld\n", s.first.c_str(), s.second);
        for (auto& s : maxs) printf("MAX %s %.6g\n", s.first.c_str(), s.second);
        for (auto& s : samples) printf("SAMPLE %s\n", s.c_str());
        int k = 0; for (auto h : hashes) { if (k % 64 == 0) printf("%sH", k ? "\n" : ""); printf(" %llx", (unsigned long long)h); ++k; }
        if (k) printf("\n");
        printf("EVAL %ld\nDONE\n", evals); fflush(stdout);
        return bad ? 1 : 0;
    }
};
inline Report& R() { static Report* r = new Report; return *r; }   // reachable until exit: no leak report

// ---------------------------------------------------------------- statistics: rigorous tail bounds
// ln of an upper bound for P(X >= x) or P(X <= x), X a sum of n independent Bernoulli variables with total mean mu
inline double ln_tail(double x, double mu, double n, double var = -1) {
    if (n <= 0) return 0;
    if (x < 0) x = 0;
    double b = 0;
    double q = mu / n, a = x / n;
    if (q <= 0) b = x > 0 ? -INFINITY : 0;
    else if (q >= 1) b = x < n ? -INFINITY : 0;
    else { double kl = 0; if (a > 0) kl += a * std::log(a / q); if (a < 1) kl += (1 - a) * std::log((1 - a) / (1 - q)); b = -n * std::max(0.0, kl); }
    if (var >= 0) { double t = std::abs(x - mu); if (var + t / 3 > 0) b = std::min(b, -t * t / (2 * (var + t / 3)) + std::log(2)); }
    return b;
}

// ---------------------------------------------------------------- GIRG model (independent reference)
using Pos = std::vector<std::vector<double>>;
using Edges = std::vector<std::pair<int, int>>;
inline double torus(const std::vector<double>& a, const std::vector<double>& b) {
    double r = 0; for (size_t k = 0; k < a.size(); ++k) { double d = std::abs(a[k] - b[k]); d = std::min(d, 1 - d); r = std::max(r, d); } return r;
}
inline long double ipow(long double x, int d) { long double r = 1; while (d--) r *= x; return r; }
inline uint64_t pairkey(int u, int v) { if (u > v) std::swap(u, v); return (uint64_t(uint32_t(u)) << 32) | uint32_t(v); }

// P(u,v) of the GIRG model; alpha = inf: threshold
inline double girg_prob(double wu, double wv, double W, double dist, int d, double alpha) {
    double k = wu * wv / W; double dd = (double)ipow(dist, d);
    if (std::isinf(alpha)) return dd < k ? 1 : 0;
    if (dd <= 0) return 1;
    return std::min(1.0, std::pow(k / dd, alpha));
}

// ---------------------------------------------------------------- HRG model
inline long double hdist_l(long double r1, long double p1, long double r2, long double p2) {
    // cosh d = cosh(r1-r2) + 2 sin^2(dphi/2) sinh r1 sinh r2, evaluated without cancellation
    long double s = std::sin((p1 - p2) / 2), e = std::sinh((r1 - r2) / 2);
    long double x = 2 * e * e + 2 * s * s * std::sinh(r1) * std::sinh(r2);   // cosh d - 1
    return std::log1p(x + std::sqrt(x * (x + 2)));
}
} // namespace vf
