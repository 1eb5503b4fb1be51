#pragma once
// Statistical monitor for independent Bernoulli edges: per-pair counts, joint counts of pairs, aggregated bins.
// Every decision uses a rigorous tail bound (ln_tail); the per-test limit keeps the chance of any false alarm below 1e-7 per run.
#include "vf.h"
namespace vf {
constexpr double LN_LIMIT = -38;          // e^-38 = 3e-17 per test
struct Binom {
    int n; std::string ctx; long N = 0;
    std::vector<double> lo, hi;           // bounds of the pair's probability (allowing for rounding and the 1e-6 rule)
    std::vector<uint32_t> cnt; bool joint; std::vector<uint32_t> jc; size_t M; bool broken = false;
    std::vector<uint32_t> prev; std::vector<uint32_t> lag;   // same pair in consecutive samples
    double total_mu = 0, total_var = 0, total_slack = 0; double chi = 0; 
    Binom(int n, std::string ctx, bool joint) : n(n), ctx(std::move(ctx)), joint(joint), M((size_t)n * (n - 1) / 2) { lo.assign(M, 0); hi.assign(M, 0); cnt.assign(M, 0); lag.assign(M, 0); if (joint) jc.assign(M * (M - 1) / 2 + 1, 0); }
    size_t id(int u, int v) const { if (u > v) std::swap(u, v); return (size_t)v * (v - 1) / 2 + u; }
    void set(int u, int v, double p, double slack) {   // slack: absolute uncertainty of p
        size_t k = id(u, v); lo[k] = std::max(0.0, p - slack - (p < 1e-6 ? p : 0)); hi[k] = std::min(1.0, p + slack);
    }
    std::string pn(size_t k) const { int v = (int)((1 + std::sqrt(1.0 + 8.0 * k)) / 2); while ((size_t)v * (v - 1) / 2 > k) --v; while ((size_t)(v + 1) * v / 2 <= k) ++v; return fmt("(%d,%d)", (int)(k - (size_t)v * (v - 1) / 2), v); }
    void add(const Edges& e) {
        std::vector<uint32_t> ks; ks.reserve(e.size());
        for (auto& p : e) {
            if (p.first < 0 || p.second < 0 || p.first >= n || p.second >= n) { if (!broken) R().viol("endpoint", ctx); broken = true; return; }
            if (p.first == p.second) { if (!broken) R().viol("selfloop", ctx); broken = true; return; }
            ks.push_back((uint32_t)id(p.first, p.second));
        }
        std::sort(ks.begin(), ks.end());
        for (size_t a = 1; a < ks.size(); ++a) if (ks[a] == ks[a - 1]) { if (!broken) R().viol("duplicate", pn(ks[a]) + " twice; " + ctx); broken = true; return; }
        for (auto k : ks) ++cnt[k];
        if (joint) for (size_t a = 0; a < ks.size(); ++a) for (size_t b = 0; b < a; ++b) ++jc[(size_t)ks[a] * (ks[a] - 1) / 2 + ks[b]];
        { size_t a = 0, b = 0; while (a < ks.size() && b < prev.size()) { if (ks[a] < prev[b]) ++a; else if (ks[a] > prev[b]) ++b; else { ++lag[ks[a]]; ++a; ++b; } } }
        prev = std::move(ks); ++N;
    }
    static bool bad(double x, double lo, double hi, double N, double* ln) {
        // x successes of N trials with success probability in [lo,hi]
        if (x < N * lo) *ln = ln_tail(x, N * lo, N); else if (x > N * hi) *ln = ln_tail(x, N * hi, N); else return false;
        return *ln < LN_LIMIT;
    }
    void finish() {
        if (broken || N < 1) return;
        double ln; long tests = 0;
        for (size_t k = 0; k < M; ++k) { ++tests;
            if (bad(cnt[k], lo[k], hi[k], N, &ln)) { R().viol("pair-probability", fmt("pair %s: %u of %ld samples, probability in [%.6g,%.6g] (ln p-value %.1f); %s", pn(k).c_str(), cnt[k], N, lo[k], hi[k], ln, ctx.c_str())); return; }
        }
        // consecutive samples must be independent: joint successes of disjoint sample pairs are covered by comparing with both halves' bound
        for (size_t k = 0; k < M; ++k) { double a = lo[k] * lo[k], b = hi[k] * hi[k]; double x = lag[k] / 2.0; // union over even and odd positions
            if (bad(x, a, b, (N - 1) / 2.0, &ln) && ln < LN_LIMIT - 2) { R().viol("sample-dependence", fmt("pair %s present in %u of %ld consecutive sample pairs, expected %.4g; %s", pn(k).c_str(), lag[k], N - 1, b * (N - 1), ctx.c_str())); return; } }
        if (joint) for (size_t a = 1; a < M; ++a) for (size_t b = 0; b < a; ++b) { ++tests; double x = jc[a * (a - 1) / 2 + b];
            double l = lo[a] * lo[b], h = hi[a] * hi[b], d = x - N * h; if (d <= 0) d = N * l - x; if (d <= 0 || d * d < 70 * (N * l * (1 - h)) - 1 ) continue;  // cheap prefilter: below ~8 sigma
            if (bad(x, l, h, N, &ln)) { R().viol("pair-dependence", fmt("pairs %s and %s together in %.0f of %ld samples, independent would be %.4g (ln p-value %.1f); %s", pn(a).c_str(), pn(b).c_str(), x, N, h * N, ln, ctx.c_str())); return; } }
        R().stat("tests", tests);
    }
};
// dependence of pairs: sums of (X_a - p_a)(X_b - p_b) per category; under independence the terms are uncorrelated with mean 0 and variance v_a v_b
struct Joint {
    struct J { double q = 0, v = 0, n = 0; }; std::map<std::string, J> m;
    template<class F> void add(const Binom& b, F&& cat) { if (!b.joint || b.broken || b.N < 1) return; for (size_t x = 1; x < b.M; ++x) { if (b.hi[x] - b.lo[x] > 1e-6) continue; double px = (b.lo[x] + b.hi[x]) / 2, vx = px * (1 - px); if (vx < 1e-9) continue;
        for (size_t y = 0; y < x; ++y) { if (b.hi[y] - b.lo[y] > 1e-6) continue; double py = (b.lo[y] + b.hi[y]) / 2, vy = py * (1 - py); if (vy < 1e-9) continue; auto k = cat(x, y, px < .2 && py < .2); if (!k) continue;
            auto& j = m[k]; j.q += b.jc[x * (x - 1) / 2 + y] - py * b.cnt[x] - px * b.cnt[y] + b.N * px * py; j.v += b.N * vx * vy; ++j.n; } } }
    void finish(const std::string& ctx) { for (auto& kv : m) { auto& j = kv.second; double z = std::abs(j.q) / (std::sqrt(j.v) + 3); R().max("dependence_most_extreme_sigma", z); R().stat("dependence_terms", (long)j.n); if (z > 12) R().viol("dependence", fmt("pairs of pairs (%s): covariance sum %.1f, standard deviation %.1f, %.0f terms; %s", kv.first.c_str(), j.q, std::sqrt(j.v), j.n, ctx.c_str())); } }
};
// pairs (u,v), (s,t): do they share a node, run in parallel (ends close compared with their length), or neither
template<class D> const char* relation(int u, int v, int s, int t, bool rare, D&& dist) {
    if (u == s || u == t || v == s || v == t) return rare ? "common node, both rare" : "common node"; double len = std::min(dist(u, v), dist(s, t)) / 2;
    if ((dist(u, s) < len && dist(v, t) < len) || (dist(u, t) < len && dist(v, s) < len)) return rare ? "parallel, both rare" : "parallel"; return rare ? "apart, both rare" : "apart"; }
inline std::vector<std::pair<int,int>> pair_table(int n) { std::vector<std::pair<int,int>> r; for (int v = 1; v < n; ++v) for (int u = 0; u < v; ++u) r.emplace_back(u, v); return r; }
// sums of independent Bernoullis over many instances, per bin
struct Bins {
    struct B { double mulo = 0, muhi = 0, x = 0, n = 0, var = 0; };
    std::map<std::string, B> m;
    void add(const std::string& k, double lo, double hi, double x, double N) { auto& b = m[k]; b.mulo += lo * N; b.muhi += hi * N; b.x += x; b.n += N; b.var += N * hi * (1 - std::min(1.0, lo)); }
    void finish(const std::string& ctx) {
        for (auto& kv : m) { auto& b = kv.second; double ln = 0;
            if (b.x < b.mulo) ln = ln_tail(b.x, b.mulo, b.n, b.var); else if (b.x > b.muhi) ln = ln_tail(b.x, b.muhi, b.n, b.var);
            if (ln < LN_LIMIT) R().viol("bin-probability", fmt("bin %s: %.0f edges, expected [%.2f,%.2f] of %.0f pairs (ln p-value %.1f); %s", kv.first.c_str(), b.x, b.mulo, b.muhi, b.n, ln, ctx.c_str()));
            R().stat("bins"); R().stat("bernoulli_trials", (long)b.n); R().max("most_extreme_bin_minus_ln_p", -ln);
        }
    }
};
}
