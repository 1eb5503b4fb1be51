// P04: threshold HRG == pairs with hyperbolic distance < R
#include "hrg_cases.h"
#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>
using namespace vf;
static uint64_t case_hash(const HrgCase& c, int t) { return hash_vec(c.a, hash_vec(c.r, hash_bytes(&c.R, 8, t))); }
static Edges via_tree(const HrgCase& c, double T, int seed, int threads, bool profile) {
    std::vector<Edges> per(threads); auto cb = [&](int u, int v, int t) { if (t < 0 || t >= threads) { R().viol("thread-id", fmt("%d of %d", t, threads)); return; } per[t].emplace_back(u, v); };
    auto tr = hypergirgs::makeHyperbolicTree(c.r, c.a, T, c.R, cb, profile); tr.generate(seed);
    Edges e; for (auto& p : per) e.insert(e.end(), p.begin(), p.end()); return e;
}
static bool keys_of(const Edges& e, int n, std::vector<uint64_t>& keys, const std::string& ctx) {
    keys.clear(); keys.reserve(e.size());
    for (auto& p : e) { if (p.first < 0 || p.second < 0 || p.first >= n || p.second >= n) { R().viol("endpoint", fmt("(%d,%d) %s", p.first, p.second, ctx.c_str())); return false; }
        if (p.first == p.second) { R().viol("selfloop", fmt("(%d,%d) %s", p.first, p.second, ctx.c_str())); return false; } keys.push_back(pairkey(p.first, p.second)); }
    std::sort(keys.begin(), keys.end());
    for (size_t k = 1; k < keys.size(); ++k) if (keys[k] == keys[k - 1]) { R().viol("duplicate", fmt("(%d,%d) %s", int(keys[k] >> 32), int(uint32_t(keys[k])), ctx.c_str())); return false; }
    return true;
}
static void verdict(const HrgCase& c, const Edges& e, const std::string& ctx, int threads = 1) {
    const int n = c.r.size(); std::vector<uint64_t> keys; if (!keys_of(e, n, keys, ctx)) return;
    const long double target = 2 * std::pow(std::sinh((long double)c.R / 2), 2); const double ft = target;
    std::vector<double> sr(n), cr(n); for (int v = 0; v < n; ++v) sr[v] = std::sinh(c.r[v]), cr[v] = std::cosh(c.r[v]); const double coshR = std::cosh(c.R);
    std::atomic<long> ties{0}, pairs{0}; std::atomic<bool> stop{false};
    std::vector<size_t> start(n + 1); for (int u = 0; u <= n; ++u) start[u] = std::lower_bound(keys.begin(), keys.end(), uint64_t(u) << 32) - keys.begin();
    auto row = [&](int u) { size_t pos = start[u]; long tie = 0;
        for (int v = u + 1; v < n; ++v) { uint64_t k = (uint64_t(u) << 32) | v; bool have = pos < keys.size() && keys[pos] == k; if (have) ++pos;
            double s = std::sin((c.a[u] - c.a[v]) / 2), q = (c.r[u] - c.r[v]) / 2, eh = std::abs(q) < 1 ? std::sinh(q) : (std::exp(q) - std::exp(-q)) / 2, x = 2 * eh * eh + 2 * s * s * sr[u] * sr[v];
            double tol = 1.2e-16 * 24 * (cr[u] * cr[v] + coshR); bool want;
            if (std::abs(x - ft) > 4 * tol + 1e-12 * ft) want = x < ft;
            else { long double xl = hcosh1(c.r[u], c.a[u], c.r[v], c.a[v]); if (std::abs(xl - target) <= hcosh_err(c.r[u], c.r[v], c.R)) { ++tie; continue; } want = xl < target; }
            if (want != have && !stop.exchange(true)) R().viol(want ? "missing" : "excess", fmt("pair (%d,%d) r=%.17g,%.17g phi=%.17g,%.17g cosh(d)-1=%.12g cosh(R)-1=%.12g %s; %s", u, v, c.r[u], c.r[v], c.a[u], c.a[v], x, ft, want ? "missing" : "present", ctx.c_str())); }
        ties += tie; pairs += n - 1 - u; };
    if (threads == 1) for (int u = 0; u < n && !stop; ++u) row(u);
    else {
        #pragma omp parallel for schedule(dynamic,16) num_threads(threads)
        for (int u = 0; u < n; ++u) if (!stop) row(u);
    }
    R().stat("pairs_checked", pairs); R().stat("rounding_ties_skipped", ties); R().stat("edges_checked", e.size());
}
static void one(const HrgCase& c0, int threads, int seed, bool lib, double T, const std::string& id, int vth = 1) {
    HrgCase c = c0; omp_set_num_threads(threads); if (vf_omp_sched) vf_omp_sched(mix(seed) | 1);
    Edges e = lib ? hypergirgs::generateEdges(c.r, c.a, T, c.R, seed) : via_tree(c, T, seed, threads, false);
    auto ctx = fmt("%s T=%g threads=%d seed=%d api=%s case=%s", c.desc.c_str(), T, threads, seed, lib ? "generateEdges" : "tree", id.c_str());
    verdict(c0, e, ctx, vth); size_t n = c.r.size();
    R().eval(); if (!e.empty() && e.size() < n * (n - 1) / 2) R().seen(case_hash(c, threads)); else R().stat("trivial_empty_or_complete");
    R().sample(ctx + fmt(" edges=%zu", e.size()));
}
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 200); std::string mode = a.s("mode", "small");
    const std::vector<int> th{1, 2, 3, 4, 5, 7, 8, 16, 32, 6, 12};
    for (long k = from; k < to; ++k) { Rng r(seed * 1000003 + k, mode == "small" ? 41 : mode == "mid" ? 42 : 43); auto id = fmt("%s:%lu:%ld", mode.c_str(), seed, k);
        if (mode == "small") { int n = k % 5 == 0 ? r.i(1, 6) : k % 5 == 1 ? r.i(2, 40) : r.i(20, 200); auto c = hrg_case(r, n); one(c, r.pick(th), r.i(0, 1 << 30), r.p(.5), 0, id); }
        else if (mode == "mid") { auto c = hrg_case(r, r.i(500, 2500), -1, r.p(.6) ? 0 : -1, r.p(.7) ? 0 : -1); one(c, r.pick(th), r.i(0, 1 << 30), r.p(.7), 0, id); }
        else { int n = r.i(12000, a.i("nmax", 25000)); double al = r.u(.6, 1), deg = r.logu(2, 100); auto c = hrg_case(r, n, hypergirgs::calculateRadius(n, al, 0, deg), 99, 0);
            c.r = hypergirgs::sampleRadii(n, al, c.R, k, true); c.desc = fmt("model n=%d alpha=%.2f deg=%.1f R=%.4g", n, al, deg, c.R); one(c, r.pick(th), r.i(0, 1 << 30), true, 0, id, 4); } }
    return R().done();
}
