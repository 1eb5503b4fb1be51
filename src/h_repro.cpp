// P06: equal inputs, seeds and thread count reproduce the same samples and edge sets; prints RES lines so that runs in different processes and runtimes can be compared
#include "girg_cases.h"
#include "hrg_cases.h"
#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>
#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>
using namespace vf;
static const double INF = std::numeric_limits<double>::infinity();
struct Out { uint64_t set = 0, order = 0; size_t size = 0; };
static Out of(const Edges& e) { Out o; o.size = e.size(); std::vector<uint64_t> k; k.reserve(e.size()); uint64_t h = 5; for (auto& p : e) { k.push_back(pairkey(p.first, p.second)); h = mix(h ^ (uint64_t(uint32_t(p.first)) << 32 | uint32_t(p.second))); } o.order = h; std::sort(k.begin(), k.end()); o.set = hash_vec(k); return o; }
static Out of(const std::vector<double>& v) { Out o; o.size = v.size(); o.set = o.order = hash_vec(v); return o; }
static Out of(const Pos& p) { Out o; uint64_t h = p.size(); for (auto& x : p) h = hash_vec(x, h); o.set = o.order = h; o.size = p.size(); return o; }
using Call = std::function<Out()>;
struct Per { std::vector<Edges> per; Per(int t) : per(t) {} void clear() { for (auto& p : per) p.clear(); } Edges all() { Edges e; for (auto& p : per) e.insert(e.end(), p.begin(), p.end()); return e; } };
// runs a generator object several times: seed, other seed, seed again, fresh object
template<class Mk> static std::vector<Out> object_runs(Mk mk, int seed, int threads) {
    std::vector<Out> r; Per p(threads); auto cb = [&](int u, int v, int t) { p.per.at(t).emplace_back(u, v); };
    { auto tr = mk(cb); auto g = [&](int s) { p.clear(); tr(s); return of(p.all()); }; r.push_back(g(seed)); g(seed + 1000); r.push_back(g(seed)); r.push_back(g(seed)); }
    { auto tr = mk(cb); p.clear(); tr(seed); r.push_back(of(p.all())); } return r;
}
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 40); int reps = a.i("reps", 4); uint64_t sched = a.i("sched", 0); int nbig = a.i("nbig", 30000);
    cell_budget() = 2e5; const std::vector<int> th{1, 2, 3, 4, 5, 7, 8, 12, 16};
    for (long k = from; k < to; ++k) { Rng r(seed * 15485863 + k, 61); int t = r.pick(th), sd = r.p(.2) ? 0 : r.p(.15) ? (r.p(.5) ? 1 : std::numeric_limits<int>::max() - 2000) : r.i(0, 1 << 30), op = k % 12; if ((k / 12) % 3 == 1) sd = 0; std::string desc; bool list = false;
        std::vector<Out> outs; Call call; std::function<std::vector<Out>()> obj;
        int n = r.p(.3) ? r.i(1, 300) : r.i(300, nbig), d = r.i(1, 5); bool par = r.p(.8); if (op < 5 && r.p(.6)) n = r.i(20000, 60000 + 4 * nbig);   // sampled by several threads
        GirgCase g; HrgCase h; double al = 0, T = 0; bool model = r.p(.6);
        if (op >= 5 && op <= 8) { int m = model ? r.i(1000, d > 3 ? 1500 : d == 3 ? 2500 : std::max(1001, nbig / 3)) : r.i(2, 300); if (model && d == 1 && nbig > 20000 && r.p(.5)) m = r.i(135000, 200000);   // multi-threaded sort
             if (model) { g.d = d; g.w = girgs::generateWeights(m, r.u(2.1, 3), k, false); g.x = girgs::generatePositions(m, d, k + 1, false); double f = r.u(3, 12) / (std::pow(2, d) * g.W() / m); for (auto& w : g.w) w *= f; g.desc = fmt("model n=%d d=%d", m, d); } else g = girg_case(r, m, d);
            al = r.p(.3) ? INF : model ? r.u(1.3, 5) : r.u(.3, 5); }
        if (op >= 9) { int m = model ? r.i(1000, nbig / 2) : r.i(2, 300); if (model && nbig > 20000 && r.p(.15)) m = r.i(135000, 160000); T = r.p(.3) ? 0 : r.u(.05, .95); if (model) { double aa = r.u(.6, 1); h.R = hypergirgs::calculateRadius(m, aa, T, r.u(3, 12)); h.r = hypergirgs::sampleRadii(m, aa, h.R, k, false); h.a = hypergirgs::sampleAngles(m, k + 1, false); h.desc = fmt("model n=%d R=%g", m, h.R); } else h = hrg_case(r, m, r.u(1, 12)); }
        omp_set_num_threads(t);
        switch (op) {
            case 0: { double ple = r.u(2.01, 3); int m = std::max(3, n); desc = fmt("generateWeights n=%d ple=%g par=%d", m, ple, par); call = [=] { return of(girgs::generateWeights(m, ple, sd, par)); }; break; }
            case 1: desc = fmt("generatePositions n=%d d=%d par=%d", n, d, par); call = [=] { return of(girgs::generatePositions(n, d, sd, par)); }; break;
            case 2: { double R0 = r.u(1, 25), aa = r.u(.51, 1); desc = fmt("sampleRadii n=%d R=%g par=%d", n, R0, par); call = [=] { return of(hypergirgs::sampleRadii(n, aa, R0, sd, par)); }; break; }
            case 3: desc = fmt("sampleAngles n=%d par=%d", n, par); call = [=] { return of(hypergirgs::sampleAngles(n, sd, par)); }; break;
            case 4: { double R0 = r.u(1, 25), aa = r.u(.51, 1); desc = fmt("sampleRadiiAndAngles n=%d par=%d", n, par); call = [=] { auto q = hypergirgs::sampleRadiiAndAngles(n, aa, R0, sd, par); auto x = of(q.first), y = of(q.second); x.set = x.order = mix(x.set ^ mix(y.set)); return x; }; break; }
            case 5: case 6: desc = fmt("girgs::generateEdges alpha=%g %s", al, g.desc.c_str()); list = true; call = [&] { return of(girgs::generateEdges(g.w, g.x, al, sd)); }; break;
            case 7: case 8: desc = fmt("SpatialTree alpha=%g %s", al, g.desc.c_str()); list = true;
                obj = [&]() -> std::vector<Out> { switch (g.d) {
#define TREE(D) case D: return object_runs([&](auto& cb) { auto tr = std::make_shared<decltype(girgs::makeSpatialTree<D>(g.w, g.x, al, cb, false))>(girgs::makeSpatialTree<D>(g.w, g.x, al, cb, false)); return [tr](int s) { tr->generateEdges(s); }; }, sd, t);
                    TREE(1) TREE(2) TREE(3) TREE(4) TREE(5) } return {}; }; break;
            case 9: case 10: desc = fmt("hypergirgs::generateEdges T=%g %s", T, h.desc.c_str()); list = true; call = [&] { return of(hypergirgs::generateEdges(h.r, h.a, T, h.R, sd)); }; break;
            default: desc = fmt("HyperbolicTree T=%g %s", T, h.desc.c_str()); list = true;
                obj = [&] { return object_runs([&](auto& cb) { auto tr = std::make_shared<decltype(hypergirgs::makeHyperbolicTree(h.r, h.a, T, h.R, cb))>(hypergirgs::makeHyperbolicTree(h.r, h.a, T, h.R, cb)); return [tr](int s) { tr->generate(s); }; }, sd, t); };
        }
        for (int q = 0; q < reps; ++q) { if (vf_omp_sched) vf_omp_sched(sched ? mix(sched + q * 7919 + k) | 1 : 0); if (obj) { auto v = obj(); outs.insert(outs.end(), v.begin(), v.end()); } else outs.push_back(call()); R().eval(); }
        auto ctx = fmt("%s threads=%d seed=%d case=%lu:%ld", desc.c_str(), t, sd, seed, k);
        for (size_t q = 1; q < outs.size(); ++q) {
            if (outs[q].set != outs[0].set || outs[q].size != outs[0].size) { R().viol("not-reproducible", fmt("call %zu of %zu differs (%zu vs %zu entries); %s", q + 1, outs.size(), outs[q].size, outs[0].size, ctx.c_str())); break; }
            if (list && t == 1 && outs[q].order != outs[0].order) { R().viol("order", fmt("single-threaded edge order differs; %s", ctx.c_str())); break; } }
        printf("RES %ld %016lx %016lx %s\n", k, outs[0].set, list && t > 1 ? 0ul : outs[0].order, ctx.c_str());
        R().stat("results_compared", outs.size()); if (t > 1) R().stat("multi_threaded_cases"); if (outs[0].size) R().seen(outs[0].set); R().sample(ctx);
    }
    return R().done();
}
