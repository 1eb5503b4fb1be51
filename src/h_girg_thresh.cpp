// P01: threshold GIRG == brute force definition.  Also watches simplicity of the edge list.
#include "girg_cases.h"
#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>
using namespace vf;
static const double INF = std::numeric_limits<double>::infinity();

static uint64_t case_hash(const GirgCase& c, int threads) { uint64_t h = hash_vec(c.w, threads + 1); for (auto& p : c.x) h = hash_vec(p, h); return h; }

// compare edges with the definition; exact reference in long double, ties only tolerated where doubles round
static void verdict(const GirgCase& c, const Edges& e, const std::string& ctx) {
    const int n = c.w.size(); long double W = 0; for (double w : c.w) W += w;
    std::vector<uint64_t> keys; keys.reserve(e.size());
    for (auto& p : e) {
        if (p.first < 0 || p.second < 0 || p.first >= n || p.second >= n) { R().viol("endpoint", fmt("edge (%d,%d) out of range; %s", p.first, p.second, ctx.c_str())); return; }
        if (p.first == p.second) { R().viol("selfloop", fmt("edge (%d,%d); %s", p.first, p.second, ctx.c_str())); return; }
        keys.push_back(pairkey(p.first, p.second));
    }
    std::sort(keys.begin(), keys.end());
    for (size_t k = 1; k < keys.size(); ++k) if (keys[k] == keys[k - 1]) { R().viol("duplicate", fmt("edge (%d,%d) twice; %s", int(keys[k] >> 32), int(uint32_t(keys[k])), ctx.c_str())); return; }
    size_t pos = 0; long ties = 0;
    for (int u = 0; u < n; ++u) for (int v = u + 1; v < n; ++v) {
        uint64_t k = (uint64_t(u) << 32) | v; bool have = pos < keys.size() && keys[pos] == k; if (have) ++pos;
        long double l = ipow((long double)torus(c.x[u], c.x[v]), c.d) * W, rr = (long double)c.w[u] * c.w[v];
        if (!c.exact && std::abs(l - rr) <= 1e-12L * std::max(l, rr)) { ++ties; continue; }
        bool want = l < rr;
        if (want != have) { R().viol(want ? "missing" : "excess", fmt("pair (%d,%d): dist^d*W=%.17Lg w_u*w_v=%.17Lg %s; %s", u, v, l, rr, want ? "missing" : "present", ctx.c_str())); return; }
    }
    R().stat("edges_checked", e.size()); R().stat("pairs_checked", (long)n * (n - 1) / 2); R().stat("rounding_ties_skipped", ties);
}
template<unsigned D> static Edges tree(const GirgCase& c, int seed, int threads, bool profile) {
    std::vector<Edges> per(threads); 
    auto cb = [&](int u, int v, int t) { per[t].emplace_back(u, v); };
    auto tr = girgs::makeSpatialTree<D>(c.w, c.x, INF, cb, profile); tr.generateEdges(seed);
    Edges e; for (auto& p : per) e.insert(e.end(), p.begin(), p.end()); return e;
}
static Edges via_tree(const GirgCase& c, int seed, int threads) {
    switch (c.d) { case 1: return tree<1>(c, seed, threads, false); case 2: return tree<2>(c, seed, threads, false); case 3: return tree<3>(c, seed, threads, false); case 4: return tree<4>(c, seed, threads, false); default: return tree<5>(c, seed, threads, false); }
}
static void one(GirgCase& c, int threads, int seed, bool lib, const std::string& id) {
    if (c.w.empty()) return;
    omp_set_num_threads(threads);
    if (vf_omp_sched) vf_omp_sched(mix(seed) | 1);
    const auto w0 = c.w; const auto x0 = c.x;
    Edges e = lib ? girgs::generateEdges(c.w, c.x, INF, seed) : via_tree(c, seed, threads);
    auto ctx = fmt("%s threads=%d seed=%d api=%s case=%s", c.desc.c_str(), threads, seed, lib ? "generateEdges" : "tree", id.c_str());
    verdict(c, e, ctx);
    R().eval(); if (!e.empty() && e.size() < c.w.size() * (c.w.size() - 1) / 2) R().seen(case_hash(c, threads)); else R().stat("trivial_empty_or_complete");
    R().sample(ctx + fmt(" edges=%zu", e.size()));
}

// moves some points so that their distance to another point is almost exactly the threshold (relative margin 1e-11 .. 1e-5)
static void near_ties(Rng& r, GirgCase& c) {
    const int n = c.w.size(); if (n < 2) return; double W = c.W(); int k = r.i(1, std::max(1, n / 4)), made = 0; std::set<int> used;
    while (k--) { int u = r.i(0, n - 1), v = r.i(0, n - 1); if (u == v || used.count(u) || used.count(v)) continue; double t = std::pow(c.w[u] * c.w[v] / W, 1.0 / c.d) * (1 + (r.p(.5) ? 1 : -1) * r.logu(1e-11, 1e-5)); if (!(t < .49) || t < 1e-9) continue; used.insert(u); used.insert(v);
        c.x[v] = c.x[u]; for (int q = 0; q < c.d; ++q) { double s = r.p(.4) ? t : t * r.u(); if (q == 0 || r.p(.5)) { double y = c.x[u][q] + (r.p(.5) ? (q ? s : t) : -(q ? s : t)); y -= std::floor(y); if (y >= 1) y = std::nextafter(1.0, 0.0); c.x[v][q] = y; } } ++made; }
    c.desc += fmt(" nearties=%d", made); R().stat("pairs_moved_next_to_the_threshold", made);
}

// large instance, 1-D: exact sweep per weight class; d>=2: full neighbourhoods of sampled nodes plus symmetric degree check on them
static void large(Rng& r, int n, int d, int threads, const std::string& id) {
    GirgCase c; c.d = d; int kind = r.i(0, 3);
    c.w.resize(n); for (auto& w : c.w) w = kind == 0 ? 2.0 : kind == 1 || kind == 3 ? r.u(1, 3) : 1.2 * std::pow(1 - r.u(), -1 / 1.6);
    if (kind == 2) for (auto& w : c.w) w = std::min(w, 2e4);
    std::vector<int> hubs; if (kind == 3) { int h = r.i(1, 6); while (h--) { hubs.push_back(r.i(0, n - 1)); c.w[hubs.back()] = n * r.logu(1e-3, 3); } }   // hubs meet all light nodes at the top levels of a deep index
    c.x = Pos(n, std::vector<double>(d)); for (auto& p : c.x) for (auto& q : p) q = r.u();
    omp_set_num_threads(threads);
    if (vf_omp_sched) vf_omp_sched(mix(n) | 1);
    Edges e = girgs::generateEdges(c.w, c.x, INF, r.i(0, 1 << 30));
    auto ctx = fmt("large n=%d d=%d kind=%d threads=%d case=%s", n, d, kind, threads, id.c_str());
    double W = std::accumulate(c.w.begin(), c.w.end(), 0.0);
    std::vector<uint64_t> keys; keys.reserve(e.size());
    for (auto& p : e) { if (p.first < 0 || p.second < 0 || p.first >= n || p.second >= n || p.first == p.second) { R().viol("endpoint", ctx); return; } keys.push_back(pairkey(p.first, p.second));
        double l = (double)ipow(torus(c.x[p.first], c.x[p.second]), d) * W, rr = c.w[p.first] * c.w[p.second];
        if (l > rr * (1 + 1e-11)) { R().viol("excess", fmt("pair (%d,%d) present but too far; %s", p.first, p.second, ctx.c_str())); return; } }
    std::sort(keys.begin(), keys.end());
    for (size_t k = 1; k < keys.size(); ++k) if (keys[k] == keys[k - 1]) { R().viol("duplicate", ctx); return; }
    // count of true edges: exact via class-wise sorted sweep in the first coordinate
    std::map<int, std::vector<int>> cls; for (int v = 0; v < n; ++v) cls[(int)std::floor(std::log2(c.w[v]))].push_back(v);
    std::vector<std::pair<int, std::vector<int>*>> cl; for (auto& p : cls) { std::sort(p.second.begin(), p.second.end(), [&](int a, int b) { return c.x[a][0] < c.x[b][0]; }); cl.emplace_back(p.first, &p.second); }
    std::atomic<long> missing{0}, total{0}, ties{0};
    std::vector<int> us; if (d == 1) { us.resize(n); std::iota(us.begin(), us.end(), 0); } else for (int k = 0; k < 3000; ++k) us.push_back(r.i(0, n - 1));
    if (d > 1) for (int u : hubs) us.push_back(u);
    #pragma omp parallel for schedule(static) num_threads(4)
    for (int q = 0; q < (int)us.size(); ++q) { int u = us[q];
        for (auto& p : cl) { double rad = std::pow(c.w[u] * std::ldexp(1.0, p.first + 1) / W, 1.0 / d); auto& L = *p.second;
            auto scan = [&](double lo, double hi) { auto it = std::lower_bound(L.begin(), L.end(), lo, [&](int a, double x) { return c.x[a][0] < x; });
                for (; it != L.end() && c.x[*it][0] <= hi; ++it) { int v = *it; if (v == u || (d == 1 && v < u)) continue;
                    double l = (double)ipow(torus(c.x[u], c.x[v]), d) * W, rr = c.w[u] * c.w[v]; if (std::abs(l - rr) <= 1e-11 * rr) { ++ties; continue; }
                    if (l < rr) { ++total; if (!std::binary_search(keys.begin(), keys.end(), pairkey(u, v))) { if (missing++ == 0) R().viol("missing", fmt("pair (%d,%d) missing; %s", u, v, ctx.c_str())); } } } };
            double x = c.x[u][0]; if (rad >= .5) scan(0, 1); else { scan(x - rad, x + rad); if (x - rad < 0) scan(x - rad + 1, 1); if (x + rad > 1) scan(0, x + rad - 1); } } }
    if (d == 1 && std::abs((long)keys.size() - total.load()) > ties.load()) R().viol("count", fmt("edges %zu expected %ld; %s", keys.size(), total.load(), ctx.c_str()));
    R().eval(); R().seen(mix(hash_vec(keys))); R().stat("edges_checked", keys.size()); R().stat("large_true_edges_confirmed", total.load());
    R().sample(ctx + fmt(" edges=%zu", keys.size()));
}
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 200); std::string mode = a.s("mode", "small");
    const std::vector<int> th{1, 2, 3, 4, 5, 7, 8, 16, 32, 6, 12, 64};
    for (long k = from; k < to; ++k) {
        Rng r(seed * 1000003 + k, mode == "small" ? 11 : mode == "exact" ? 12 : mode == "mid" ? 13 : mode == "deep" ? 15 : 14); auto id = fmt("%s:%lu:%ld", mode.c_str(), seed, k);
        if (mode == "small") { int n = k % 5 == 0 ? r.i(1, 6) : k % 5 == 1 ? r.i(2, 40) : r.i(20, 260); auto c = girg_case(r, n, 1 + k % 5); if (r.p(.4)) near_ties(r, c); int t = th[r.i(0, th.size() - 1)]; one(c, t, r.i(0, 1 << 30), r.p(.5), id); }
        else if (mode == "exact") { auto c = girg_exact_case(r, 1 + k % 5); one(c, r.p(.5) ? 1 : th[r.i(0, 8)], r.i(0, 1 << 30), r.p(.5), id); }
        else if (mode == "mid") { auto c = girg_case(r, r.i(800, 2500), 1 + k % 5, -1, r.p(.6) ? 0 : -1); if (r.p(.4)) near_ties(r, c); one(c, th[r.i(0, th.size() - 1)], r.i(0, 1 << 30), true, id); }
        else if (mode == "deep") { int d = 1 + k % 4; auto c = girg_deep_case(r, r.i(4096, 7000), d); one(c, th[r.i(0, th.size() - 1)], r.i(0, 1 << 30), r.p(.5), id); R().stat("deep_indices"); }
        else { large(r, r.i(140000, 300000), 1 + k % 5, th[r.i(0, 8)], id); }
    }
    return R().done();
}
