// P03: every reported graph is simple; every pair is decided exactly once (complete graphs are complete)
#include "girg_cases.h"
#include "hrg_cases.h"
#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>
#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>
using namespace vf;
static const double INF = std::numeric_limits<double>::infinity();
static void simple(const Edges& e, int n, bool complete, const std::string& ctx, uint64_t h) {
    std::vector<uint64_t> k; k.reserve(e.size());
    for (auto& p : e) { if (p.first < 0 || p.second < 0 || p.first >= n || p.second >= n) { R().viol("endpoint", fmt("(%d,%d) n=%d; %s", p.first, p.second, n, ctx.c_str())); return; }
        if (p.first == p.second) { R().viol("selfloop", fmt("node %d; %s", p.first, ctx.c_str())); return; } k.push_back(pairkey(p.first, p.second)); }
    std::sort(k.begin(), k.end());
    for (size_t i = 1; i < k.size(); ++i) if (k[i] == k[i - 1]) { R().viol("duplicate", fmt("(%d,%d); %s", int(k[i] >> 32), int(uint32_t(k[i])), ctx.c_str())); return; }
    size_t all = (size_t)n * (n - 1) / 2;
    if (complete && k.size() != all) { R().viol("incomplete", fmt("%zu of %zu pairs; %s", k.size(), all, ctx.c_str())); return; }
    R().eval(); R().stat("edges", e.size()); if (complete) R().stat("complete_graphs"); if (!e.empty()) R().seen(mix(h ^ hash_vec(k))); R().sample(ctx + fmt(" edges=%zu", e.size()));
}
template<unsigned D> static Edges tree(const GirgCase& c, double alpha, int seed, int threads) {
    std::vector<Edges> per(threads); auto cb = [&](int u, int v, int t) { per[t].emplace_back(u, v); };
    auto tr = girgs::makeSpatialTree<D>(c.w, c.x, alpha, cb, false); tr.generateEdges(seed); Edges e; for (auto& p : per) e.insert(e.end(), p.begin(), p.end()); return e;
}
static Edges girg(const GirgCase& c, double alpha, int seed, int threads, bool lib) {
    if (lib) return girgs::generateEdges(c.w, c.x, alpha, seed);
    switch (c.d) { case 1: return tree<1>(c, alpha, seed, threads); case 2: return tree<2>(c, alpha, seed, threads); case 3: return tree<3>(c, alpha, seed, threads); case 4: return tree<4>(c, alpha, seed, threads); default: return tree<5>(c, alpha, seed, threads); }
}
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 100); int nmax = a.i("nmax", 1500); cell_budget() = a.f("cells", 3e5);
    const std::vector<int> th{1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 32};
    for (long k = from; k < to; ++k) { Rng r(seed * 104729 + k, 31); int t = r.pick(th), sd = r.i(0, 1 << 30); omp_set_num_threads(t); if (vf_omp_sched) vf_omp_sched(mix(k) | 1);
        int n = r.p(.3) ? r.i(1, 10) : r.p(.7) ? r.i(10, 250) : r.i(250, nmax); bool lib = r.p(.6); auto id = fmt("%lu:%ld", seed, k);
        switch (k % 5) {
            case 0: { n = std::min(n, 700); auto c = girg_case(r, n); auto e = girg(c, 0.0, sd, t, lib); simple(e, n, true, fmt("GIRG alpha=0 %s threads=%d seed=%d lib=%d case=%s", c.desc.c_str(), t, sd, lib, id.c_str()), hash_vec(c.w)); break; }
            case 1: case 2: { auto c = girg_case(r, n); double al = r.p(.2) ? INF : r.p(.5) ? r.u(.1, 2) : r.u(1, 30); auto e = girg(c, al, sd, t, lib); simple(e, n, false, fmt("GIRG alpha=%g %s threads=%d seed=%d lib=%d case=%s", al, c.desc.c_str(), t, sd, lib, id.c_str()), hash_vec(c.w)); break; }
            default: { auto c = hrg_case(r, n); double T = r.p(.25) ? 0 : r.p(.2) ? r.logu(1e-17, 1e-2) : r.u(.01, .999); bool complete = false;
                if (k % 5 == 3 && r.p(.5)) { // everybody within R/2 of the center: all pairs
                    n = std::min(n, 600); c = hrg_case(r, n, r.p(.5) ? r.u(.1, 12) : -1, -1, -1); T = r.p(.7) ? 0 : 1e-17; for (auto& x : c.r) x *= .4999; complete = true; }
                Edges e; if (lib) e = hypergirgs::generateEdges(c.r, c.a, T, c.R, sd);
                else { std::vector<Edges> per(t); auto cb = [&](int u, int v, int i) { per[i].emplace_back(u, v); }; auto tr = hypergirgs::makeHyperbolicTree(c.r, c.a, T, c.R, cb); tr.generate(sd); for (auto& p : per) e.insert(e.end(), p.begin(), p.end()); }
                simple(e, n, complete, fmt("HRG T=%g %s threads=%d seed=%d lib=%d case=%s", T, c.desc.c_str(), t, sd, lib, id.c_str()), hash_vec(c.r)); } } }
    return R().done();
}
