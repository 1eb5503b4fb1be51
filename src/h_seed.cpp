// P30 (edges): edge sets of different seeds, of repeated negative seeds, and of translated copies inside one graph are independent.
// Monitor: the number of pairs present twice, a sum of independent coins of probability p*p, against rigorous tail bounds.
#include "girg_cases.h"
#include "hrg_cases.h"
#include "binom.h"
#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>
#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>
using namespace vf;
struct Inst { bool hyp; GirgCase g; HrgCase h; double par; int n; std::string desc; };
struct Per { struct alignas(128) S { Edges e; }; std::vector<S> per; Per(int t) : per(t) {} Edges take() { Edges e; for (auto& p : per) { e.insert(e.end(), p.e.begin(), p.e.end()); p.e.clear(); } return e; } };
template<unsigned D> static std::vector<Edges> obj(const Inst& I, int t, const std::vector<int>& seeds) { Per p(t); auto cb = [&](int u, int v, int i) { p.per.at(i).e.emplace_back(u, v); }; auto tr = girgs::makeSpatialTree<D>(I.g.w, I.g.x, I.par, cb, false); std::vector<Edges> r; for (int s : seeds) { tr.generateEdges(s); r.push_back(p.take()); } return r; }
static std::vector<Edges> generate(Inst& I, int t, const std::vector<int>& seeds, bool object) {
    std::vector<Edges> r;
    if (!object) { for (int s : seeds) r.push_back(I.hyp ? hypergirgs::generateEdges(I.h.r, I.h.a, I.par, I.h.R, s) : girgs::generateEdges(I.g.w, I.g.x, I.par, s)); return r; }
    if (I.hyp) { Per p(t); auto cb = [&](int u, int v, int i) { p.per.at(i).e.emplace_back(u, v); }; auto tr = hypergirgs::makeHyperbolicTree(I.h.r, I.h.a, I.par, I.h.R, cb); for (int s : seeds) { tr.generate(s); r.push_back(p.take()); } return r; }
    switch (I.g.d) { case 1: return obj<1>(I, t, seeds); case 2: return obj<2>(I, t, seeds); case 3: return obj<3>(I, t, seeds); case 4: return obj<4>(I, t, seeds); default: return obj<5>(I, t, seeds); }
}
static double prob(const Inst& I, double W, int u, int v) {
    if (!I.hyp) return girg_prob(I.g.w[u], I.g.w[v], W, torus(I.g.x[u], I.g.x[v]), I.g.d, I.par);
    long double d = hdist_l(I.h.r[u], I.h.a[u], I.h.r[v], I.h.a[v]); return (double)(1 / (1 + std::exp((d - I.h.R) / (2 * I.par))));
}
static size_t pid(int u, int v) { if (u > v) std::swap(u, v); return (size_t)v * (v - 1) / 2 + u; }
static std::map<std::string, struct Sum> pool;
struct Sum { double lo = 0, hi = 0, x = 0, n = 0, var = 0; void add(double p, bool both) { double q = std::min(1.0, p * p * (1 + 1e-7)); if (p >= 1 - 1e-9 || p <= 1e-12) return; lo += p < 1e-6 ? 0 : p * p * (1 - 1e-7); hi += q; var += q * (1 - p * p); x += both; ++n; }
    void join(const Sum& o) { lo += o.lo; hi += o.hi; x += o.x; n += o.n; var += o.var; }
    bool bad(double& ln) const { if (n < 1) return false; if (x > hi) ln = ln_tail(x, hi, n, var); else if (x < lo) ln = ln_tail(x, lo, n, var); else return false; return ln < LN_LIMIT; } };
static std::vector<char> bitmap(const Edges& e, int n) { std::vector<char> b((size_t)n * (n - 1) / 2, 0); for (auto& p : e) if (p.first >= 0 && p.second >= 0 && p.first < n && p.second < n && p.first != p.second) b[pid(p.first, p.second)] = 1; return b; }
// negative seeds draw fresh entropy each time: outcomes of many calls hardly ever coincide (2^32 states; three coincidences among 2000 calls have probability < 1e-10)
static void entropy(Rng& r, const std::string& id) {
    Inst I; I.hyp = r.p(.5); const int n = r.i(30, 60), t = r.p(.6) ? 1 : r.i(2, 4); omp_set_num_threads(t); I.n = n; I.par = I.hyp ? r.u(.5, .95) : r.u(1.05, 2.5);
    if (I.hyp) { I.h.R = r.u(3, 7); I.h.r = hypergirgs::sampleRadii(n, r.u(.6, 1), I.h.R, r.i(0, 1 << 30), false); I.h.a = hypergirgs::sampleAngles(n, r.i(0, 1 << 30), false); } else { I.g.d = r.i(1, 5); I.g.w = girgs::generateWeights(n, r.u(2.2, 3), r.i(0, 1 << 30), false); I.g.x = girgs::generatePositions(n, I.g.d, r.i(0, 1 << 30), false); girgs::scaleWeights(I.g.w, 8, I.g.d, I.par); }
    double W = I.hyp ? 0 : I.g.W(), bits = 0; for (int v = 1; v < n; ++v) for (int u = 0; u < v; ++u) { double p = prob(I, W, u, v); if (p > 1e-9 && p < 1 - 1e-9) bits -= std::log2(p * p + (1 - p) * (1 - p)); }
    if (bits < 60) return; const int N = t == 1 ? 2000 : 600; const bool object = r.p(.5); int ns = r.p(.5) ? -1 : r.p(.3) ? std::numeric_limits<int>::min() : -(int)r.i(1, 1 << 30); auto E = generate(I, t, std::vector<int>(N, ns), object);
    std::vector<uint64_t> h; for (auto& e : E) { std::vector<uint64_t> ks; for (auto& p : e) ks.push_back(pairkey(p.first, p.second)); std::sort(ks.begin(), ks.end()); h.push_back(hash_vec(ks)); } std::sort(h.begin(), h.end()); int rep = 0; for (size_t q = 1; q < h.size(); ++q) rep += h[q] == h[q - 1];
    auto ctx = fmt("%s n=%d par=%.4g threads=%d %s seed=%d entropy=%.0f bits case %s", I.hyp ? "hrg" : "girg", n, I.par, t, object ? "object" : "list", ns, bits, id.c_str()); R().stat("entropy_draws", N); R().stat("entropy_repeats", rep); R().eval(N);
    if (rep >= 3) R().viol("negative-seed-repeats", fmt("%d of %d edge sets occur a second time; %s", rep, N, ctx.c_str()));
    // the same for samples (thread 0's stream decides the first value)
    for (int what = 0; what < 4; ++what) { std::vector<double> f; const int K = 2000; for (int q = 0; q < K; ++q) f.push_back(what == 0 ? girgs::generateWeights(3, 2.5, ns, false)[0] : what == 1 ? girgs::generatePositions(1, 2, ns, false)[0][1] : what == 2 ? hypergirgs::sampleRadii(2, .75, 9, ns, false)[0] : hypergirgs::sampleAngles(2, ns, false)[1]); std::sort(f.begin(), f.end()); int c = 0; for (int q = 1; q < K; ++q) c += f[q] == f[q - 1]; R().stat("entropy_draws", K);
        if (c >= 3) R().viol("negative-seed-repeats", fmt("%d of %d first values of %s occur a second time; seed %d case %s", c, K, what == 0 ? "generateWeights" : what == 1 ? "generatePositions" : what == 2 ? "sampleRadii" : "sampleAngles", ns, id.c_str())); }
}
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 40); int nmax = a.i("nmax", 500); cell_budget() = a.f("cells", 1e5); const std::vector<int> th{1, 2, 3, 4, 5, 7, 8, 12, 16};
    for (long k = from; k < to; ++k) {
        Rng r(seed * 817504243 + k, 30); int t = r.pick(th); omp_set_num_threads(t); if (vf_omp_sched) vf_omp_sched(mix(seed * 17 + k) | 1); if (vf_omp_team) vf_omp_team(0);
        Inst I; I.hyp = r.p(.5); bool periodic = r.p(.55), object = r.p(.4); int P = periodic ? 1 << r.i(1, 4) : 1, m; if (periodic && r.p(.15)) P = r.i(2, 12);
        if (!periodic) {
            int n = r.i(60, nmax);
            if (I.hyp) { I.par = r.u(.15, .95); if (r.p(.5)) { double al = r.u(.55, 1); I.h.R = hypergirgs::calculateRadius(n, al, I.par, r.u(5, 30)); I.h.r = hypergirgs::sampleRadii(n, al, I.h.R, k, false); I.h.a = hypergirgs::sampleAngles(n, k + 1, false); I.h.desc = fmt("model n=%d R=%.4g", n, I.h.R); } else I.h = hrg_case(r, n, r.u(2, 14)); }
            else { I.par = r.u(1.05, 4); if (r.p(.5)) { I.g.d = r.i(1, 5); I.g.w = girgs::generateWeights(n, r.u(2.1, 3), k, false); I.g.x = girgs::generatePositions(n, I.g.d, k + 1, false); girgs::scaleWeights(I.g.w, r.u(5, 30), I.g.d, I.par); I.g.desc = fmt("model n=%d d=%d", n, I.g.d); } else I.g = girg_case(r, n); }
            I.n = n; m = n;
        } else { m = std::max(3, (int)r.i(40, nmax) / P); int n = m * P; I.n = n;   // P copies of the same m points, shifted along one axis
            if (I.hyp) { I.par = r.u(.2, .95); double al = r.u(.6, 1); I.h.R = hypergirgs::calculateRadius(std::max(n, 20), al, I.par, r.u(5, 15)); auto rr = hypergirgs::sampleRadii(m, al, I.h.R, k, false); std::vector<double> aa(m); for (auto& x : aa) x = r.u(); for (auto& x : rr) if (x < I.h.R * .3 && r.p(.8)) x = I.h.R * r.u(.6, 1);
                for (int c = 0; c < P; ++c) for (int i = 0; i < m; ++i) { I.h.r.push_back(rr[i]); I.h.a.push_back(clampa((aa[i] + c) / P * TWO_PI)); } I.h.desc = fmt("periodic n=%d copies=%d R=%.4g", n, P, I.h.R); }
            else { I.par = r.u(1.1, 4); I.g.d = r.p(.6) ? 1 : r.i(2, 5); auto w = girgs::generateWeights(m, r.u(2.2, 3), k, false); auto x = girgs::generatePositions(m, I.g.d, k + 1, false); std::vector<double> W; for (int c = 0; c < P; ++c) for (int i = 0; i < m; ++i) { W.push_back(w[i]); auto y = x[i]; y[0] = (y[0] + c) / P; if (y[0] >= 1) y[0] = 0; I.g.x.push_back(y); }
                I.g.w = W; if (n > 12) girgs::scaleWeights(I.g.w, std::min(n / 4.0, r.u(5, 15)), I.g.d, I.par); for (int i = 0; i < n; ++i) I.g.w[i] = I.g.w[i % m]; I.g.desc = fmt("periodic n=%d copies=%d d=%d", n, P, I.g.d); } }
        const int n = I.n; const double W = I.hyp ? 0 : I.g.W(); I.desc = fmt("%s %s par=%.4g threads=%d %s case %lu:%ld", I.hyp ? "hrg" : "girg", I.hyp ? I.h.desc.c_str() : I.g.desc.c_str(), I.par, t, object ? "object" : "list", seed, k);
        std::vector<double> pr((size_t)n * (n - 1) / 2); for (int v = 1; v < n; ++v) for (int u = 0; u < v; ++u) pr[pid(u, v)] = prob(I, W, u, v);
        // seeds: base, relatives at least one team apart (girgs) or any (hypergirgs), negative ones
        std::vector<int> seeds; int base = r.p(.2) ? 0 : r.i(0, 1 << 29); auto rel = [&] { int dlt; switch (r.i(0, 3)) { case 0: dlt = I.hyp ? 1 : t; break; case 1: dlt = 64 * r.i(1, 1000); break; case 2: dlt = 1 << r.i(7, 29); break; default: dlt = r.i(t, 1 << 29); } return base + dlt; };
        seeds.push_back(base); int extra = r.i(1, 3); for (int q = 0; q < extra; ++q) seeds.push_back(rel()); int neg = r.i(1, 3); int ns = r.p(.5) ? -1 : r.p(.5) ? std::numeric_limits<int>::min() : -(int)r.i(1, 1 << 30); for (int q = 0; q < neg; ++q) seeds.push_back(ns);
        auto E = generate(I, t, seeds, object); std::vector<std::vector<char>> B; for (auto& e : E) B.push_back(bitmap(e, n));
        for (size_t x = 0; x < B.size(); ++x) for (size_t y = 0; y < x; ++y) { if (seeds[x] == seeds[y] && seeds[x] >= 0) continue; if (!I.hyp && seeds[x] >= 0 && seeds[y] >= 0 && std::abs((long)seeds[x] - seeds[y]) < t) continue; Sum s; double ln = 0; for (size_t q = 0; q < pr.size(); ++q) s.add(pr[q], B[x][q] && B[y][q]);
            if (s.bad(ln)) R().viol(seeds[x] < 0 && seeds[y] < 0 ? "negative-seed-repeats" : "seeds-dependent", fmt("seeds %d and %d share %.0f edges, independent would be %.2f (ln p-value %.1f); %s", seeds[y], seeds[x], s.x, s.hi, ln, I.desc.c_str())); R().stat("seed_pairs"); R().stat("coins_compared", (long)s.n); if (s.var > 20) R().stat("seed_pairs_with_expected_overlap_above_20"); }
        if (periodic) for (int lag = 1; lag < P; ++lag) for (size_t x = 0; x < B.size(); ++x) { Sum s; double ln = 0; std::vector<char> done(pr.size(), 0); auto sh = [&](int u) { return (u + lag * m) % n; };
            for (int v = 1; v < n; ++v) for (int u = 0; u < v; ++u) { size_t q = pid(u, v); if (done[q]) continue; int a1 = u, b1 = v;   // walk the orbit, matching neighbours
                while (true) { size_t q0 = pid(a1, b1); if (done[q0]) break; int a2 = sh(a1), b2 = sh(b1); size_t q1 = pid(a2, b2); done[q0] = 1; if (done[q1] || q1 == q0) break; done[q1] = 1; s.add(.5 * (pr[q0] + pr[q1]), B[x][q0] && B[x][q1]); a1 = sh(a2); b1 = sh(b2); } }
            if (s.bad(ln)) R().viol("streams-repeat-inside-a-call", fmt("seed %d: copies %d apart share %.0f edges, independent would be %.2f (ln p-value %.1f); %s", seeds[x], lag, s.x, s.hi, ln, I.desc.c_str())); R().stat("copy_pairs"); const char* md = I.hyp ? "hrg" : "girg"; pool[fmt("%s threads=%d lag=%d/%d", md, t, lag, P)].join(s); if (lag == 1 || lag == 2) pool[fmt("%s threads=%d lag=%d", md, t, lag)].join(s); R().stat("coins_compared", (long)s.n); }
        for (auto& e : E) if (!e.empty()) R().seen(hash_vec(e)); R().eval(E.size()); R().sample(I.desc); if (t > 1) R().stat("multi_threaded"); 
        if (k % 6 == 0) { Rng q(seed * 817504243 + k, 31); entropy(q, fmt("%lu:%ld", seed, k)); }
    }
    for (auto& p : pool) { double ln = 0; R().stat("pooled_sums"); if (p.second.bad(ln)) R().viol("streams-repeat-inside-a-call", fmt("pooled over all periodic graphs, %s: %.0f shared edges, independent would be %.2f (ln p-value %.1f)", p.first.c_str(), p.second.x, p.second.hi, ln)); }
    return R().done();
}
