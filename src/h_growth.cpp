// P29: executed basic blocks of every stage along doubling series of n
#include "girg_cases.h"
#include "hrg_cases.h"
#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>
#include <unistd.h>
#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>
using namespace vf;
static const double INF = std::numeric_limits<double>::infinity();
static std::string g_tmp; static int g_dot = 0;
struct alignas(128) Cnt { long k = 0; };
// while the large instance runs, a stage that exceeds its limit for sure ends the job at once
static const std::map<std::string, double>* g_small = nullptr; static double g_factor = 1;
template<class F> static double steps(const char* nm, F f) { double lim = 0; if (g_small && g_small->count(nm) && std::string(nm) != "radius" && std::string(nm) != "scaling") lim = 5 * g_factor * (g_small->at(nm) + (std::string(nm) == "list" && g_small->count("dot") ? g_small->at("dot") : 0) + 200 * omp_get_max_threads()) + 1e7; vf_steps_reset((uint64_t)lim); f(); double s = (double)vf_steps(); vf_steps_reset(0); return s; }
static std::map<std::string, double> run(const std::string& what, int n, int t, uint64_t seed, double p1, double p2, int d, double deg) {
    omp_set_num_threads(t); std::map<std::string, double> m; std::vector<Cnt> c(t); auto cb = [&](int, int, int i) { ++c.at(i).k; };
    if (what == "girg") { std::vector<double> w; Pos x;
        m["weights"] = steps("weights", [&] { w = girgs::generateWeights(n, p1, seed); }); m["positions"] = steps("positions", [&] { x = girgs::generatePositions(n, d, seed + 100000); });
        m["scaling"] = steps("scaling", [&] { girgs::scaleWeights(w, deg, d, p2); });
        auto go = [&](auto D) { std::unique_ptr<decltype(girgs::makeSpatialTree<D()>(w, x, p2, cb, false))> tr; m["index"] = steps("index", [&] { tr.reset(new auto(girgs::makeSpatialTree<D()>(w, x, p2, cb, false))); }); m["edges"] = steps("edges", [&] { tr->generateEdges(seed + 200000); }); };
        switch (d) { case 1: go(std::integral_constant<unsigned, 1>()); break; case 2: go(std::integral_constant<unsigned, 2>()); break; case 3: go(std::integral_constant<unsigned, 3>()); break; case 4: go(std::integral_constant<unsigned, 4>()); break; default: go(std::integral_constant<unsigned, 5>()); }
        m["list"] = steps("list", [&] { auto e = girgs::generateEdges(w, x, p2, seed + 200000); m["dot"] = 0; if (n <= g_dot) { auto s0 = vf_steps(); auto f = g_tmp + fmt("/growth%d.dot", (int)getpid()); girgs::saveDot(w, x, e, f); m["dot"] = (double)(vf_steps() - s0); unlink(f.c_str()); } }) - m["dot"]; if (!m["dot"]) m.erase("dot");
        long e = 0; for (auto& q : c) e += q.k; m["size"] = e;
    } else { double R = 0; std::vector<double> r, a; m["radius"] = steps("radius", [&] { R = hypergirgs::calculateRadius(n, p1, p2, deg); }); 
        m["radii"] = steps("radii", [&] { r = hypergirgs::sampleRadii(n, p1, R, seed); }); m["angles"] = steps("angles", [&] { a = hypergirgs::sampleAngles(n, seed + 100000); });
        std::unique_ptr<decltype(hypergirgs::makeHyperbolicTree(r, a, p2, R, cb))> tr; m["index"] = steps("index", [&] { tr.reset(new auto(hypergirgs::makeHyperbolicTree(r, a, p2, R, cb))); }); m["edges"] = steps("edges", [&] { tr->generate(seed + 200000); });
        m["list"] = steps("list", [&] { hypergirgs::generateEdges(r, a, p2, R, seed + 200000); }); long e = 0; for (auto& q : c) e += q.k; m["size"] = e; }
    return m;
}
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 4); int dim = a.i("d", 0); bool hyp = a.i("hrg", 0); long nmax = a.i("nmax", 300000); g_tmp = a.s("tmp", "/tmp"); g_dot = a.i("dot", 0);
    for (long k = from; k < to; ++k) {
        Rng r(seed * 86028157 + k, 29); const std::string what = hyp ? "hrg" : "girg"; double p1, p2, deg; int d = dim ? dim : r.i(1, 2), F = d >= 3 ? 1 << d : 16; const std::vector<int> th{1, 1, 2, 4, 7, 16}; int t = r.pick(th);
        // the largest n is given; F is a whole number of periods in which the depth of the index grows by one level
        int big = (int)(nmax * r.u(.6, 1)), small = std::max(2, big / F); big = small * F;
        if (hyp) { p1 = r.p(.2) ? .52 : r.u(.55, 1); p2 = r.p(.35) ? 0 : r.u(.05, .95); deg = r.u(2, 12); } else { p1 = r.p(.2) ? 9 : d >= 4 ? r.u(5, 9) : r.u(2.2, 3); p2 = r.p(.35) ? INF : d >= 4 ? r.u(8, 20) : d == 3 ? r.u(2, 8) : r.u(1.1, 8); deg = d >= 4 ? 1 : r.u(2, 10); }
        auto ctx = fmt("%s d=%d n=%d..%d %s=%.4g %s=%.4g degree=%.3g threads=%d case %lu:%ld", what.c_str(), d, small, big, hyp ? "alpha" : "ple", p1, hyp ? "T" : "alpha", p2, deg, t, seed, k);
        auto A = run(what, small, t, 1000 * seed + k, p1, p2, d, deg), B = (g_small = &A, g_factor = F, run(what, big, t, 1000 * seed + k, p1, p2, d, deg)); g_small = nullptr;
        for (auto& s : B) { if (!A.count(s.first)) continue; const std::string& nm = s.first; double x = A[nm], y = s.second; R().stat("blocks_" + nm, (long)y);
            if (nm == "size") { R().stat("edges_at_largest_n", (long)y); continue; }
            // allowed growth beyond F: measured headroom of the stages that depend on the heaviest weight or on iterations
            double f = nm == "index" ? 3 : nm == "edges" || nm == "list" ? (hyp ? 1.4 : d <= 2 ? 1.9 : 2.3) : 1.2; if (nm == "scaling") { R().max("scaling_blocks_per_node", y / big); if (y > 3000.0 * big + 100000) R().viol("growth:scaling", ctx + fmt(": %.0f basic blocks per node", y / big)); continue; }   // number of iterations varies
            if (nm == "radius") { if (y > 3 * x + 20000) R().viol("growth:radius", ctx); continue; }
            double q = y / (x + 200.0 * t) / F; R().max("growth_beyond_linear_" + what + "_" + nm, q);
            if (q > f) R().viol("growth:" + nm, ctx + fmt(": %.0f basic blocks for n=%d, %.0f for n=%d: %.2f times as many for %d times the nodes", x, small, y, big, y / x, F)); }
        if (t > 1 && big > 20000) { auto C = run(what, big, 1, 1000 * seed + k, p1, p2, d, deg); for (auto& s : C) { const std::string& nm = s.first; if (nm == "size" || nm == "radius" || nm == "scaling") continue; double q = B[nm] / (s.second + 3000.0 * t); R().max("threads_factor_" + nm, q); if (q > 2.5) R().viol("threads:" + nm, ctx + fmt(": %.0f basic blocks with one thread, %.0f with %d", s.second, B[nm], t)); } R().stat("thread_comparisons"); }
        R().eval(B.size()); R().stat("doubling_series"); R().seen(mix(seed * 1000 + k) ^ (uint64_t)B["edges"]); R().sample(ctx + fmt(" edges %ld", (long)B["size"]));
    }
    return R().done();
}
