// P02: finite alpha GIRG: per-pair probabilities and independence
#include "girg_cases.h"
#include "binom.h"
#include <array>
#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>
using namespace vf;
static double budget_s = 2; static Joint J;
static std::string pbin(double p) { return p >= 1 ? "p=1" : fmt("p~2^%d/2", (int)std::floor(2 * std::log2(std::max(p, 1e-12)))); }
template<class F> static void marginals(Bins& B, const GirgCase& c, int u, int v, double alpha, int threads, double lo, double hi, double p, double x, double N, double w0, F&& extra) {
    double mx = -1; int ax = 0; bool wrap = false; for (int k = 0; k < c.d; ++k) { double a = std::abs(c.x[u][k] - c.x[v][k]), b = std::min(a, 1 - a); if (b > mx) { mx = b; ax = k; wrap = a > .5; } }
    int iu = std::min(5, (int)std::log2(c.w[u] / w0)), iv = std::min(5, (int)std::log2(c.w[v] / w0)); if (iu > iv) std::swap(iu, iv);
    std::string d = fmt("d%d ", c.d), ac = alpha < 1 ? "a<1 " : alpha < 2 ? "a1-2 " : alpha < 6 ? "a2-6 " : "a>6 ";
    B.add(d + ac + pbin(p), lo, hi, x, N); B.add(d + fmt("layers %d,%d", iu, iv), lo, hi, x, N);
    B.add(d + fmt("dist 2^%d", mx > 0 ? std::max(-12, (int)std::floor(std::log2(mx))) : -99), lo, hi, x, N);
    B.add(d + fmt("axis %d wrap %d", ax, wrap), lo, hi, x, N); B.add(fmt("threads %d ", threads) + ac, lo, hi, x, N); extra();
}
template<unsigned D> struct TreeSampler {
    const GirgCase& c; double alpha; int threads; std::vector<Edges> per; 
    std::function<void(int,int,int)> cb; decltype(girgs::makeSpatialTree<D>(c.w, c.x, alpha, cb, false)) tr;
    TreeSampler(const GirgCase& c, double alpha, int threads) : c(c), alpha(alpha), threads(threads), per(threads), cb([this](int u, int v, int t) { if (t < 0 || t >= (int)per.size()) { R().viol("thread-id", fmt("%d", t)); return; } per[t].emplace_back(u, v); }), tr(girgs::makeSpatialTree<D>(c.w, c.x, alpha, cb, false)) {}
    Edges operator()(int seed) { for (auto& p : per) p.clear(); tr.generateEdges(seed); Edges e; for (auto& p : per) e.insert(e.end(), p.begin(), p.end()); return e; }
};
static double pick_alpha(Rng& r) { if (r.p(.07)) return r.logu(40, 5e3); switch (r.i(0, 7)) { case 0: return r.u(.2, 1); case 1: return 1.0; case 2: return r.u(1, 1.3); case 3: return 2; case 4: return r.u(1.3, 3); case 5: return r.u(3, 8); case 6: return r.u(8, 40); default: return r.u(1, 2.5); } }

// sparse instances so that the distant-pair path with geometric jumps is taken
static GirgCase sparse_case(Rng& r, int n, int d) {
    std::string dd, b; GirgCase c; c.d = d;
    c.w.resize(n); int k = r.i(0, 3); for (auto& w : c.w) w = k == 0 ? 1 : k == 1 ? 1 + r.u() : k == 2 ? std::pow(1 - r.u(), -1 / r.u(1.1, 2)) : std::ldexp(1.0, r.i(0, 2));
    double W = std::accumulate(c.w.begin(), c.w.end(), 0.0), w0 = *std::min_element(c.w.begin(), c.w.end());
    // W/w0^2 = 2^(2 + d*level + frac)
    int level = d == 1 ? r.i(2, 7) : d == 2 ? r.i(2, 4) : d == 3 ? r.i(2, 3) : 2; double want = std::exp2(2 + d * level + r.u() * d), f = W / w0 / w0 / want; for (auto& w : c.w) w *= f;
    c.x = girg_positions(r, n, d, r.p(.7) ? 0 : r.i(0, 7), b); c.desc = fmt("sparse n=%d d=%d level=%d wk=%d x=%s", n, d, level, k, b.c_str());
    return c;
}
// move nodes such that many pairs have a probability well inside (0,1), also for large alpha
static void critical(Rng& r, GirgCase& c, double alpha) { const double W = c.W(); const int n = c.w.size(); for (int v = 1; v < n; ++v) if (r.p(.6)) { int u = r.i(0, v - 1); double x = std::pow(c.w[u] * c.w[v] / W * std::pow(r.u(.02, .98), -1 / alpha), 1.0 / c.d); if (!(x < .5)) continue; int ax = r.i(0, c.d - 1);
    for (int k = 0; k < c.d; ++k) { double q = c.x[u][k] + (k == ax ? (r.p(.5) ? x : -x) : r.u(-x, x)); q -= std::floor(q); if (q >= 1) q = 0; c.x[v][k] = q; } } c.desc += " critical"; }
static Edges sample(const GirgCase& c, double alpha, int seed) { return girgs::generateEdges(c.w, c.x, alpha, seed); }
static void small(Rng& r, const std::string& id, long N, Bins& B, int d, const std::vector<int>& th) {
    int n = r.p(.3) ? r.i(2, 12) : r.i(12, d >= 3 ? 64 : 40); GirgCase c = r.p(.65) ? sparse_case(r, n, d) : girg_case(r, n, d); double alpha = pick_alpha(r); int threads = r.p(.4) ? 1 : r.pick(th);
    double W = c.W(), w0 = *std::min_element(c.w.begin(), c.w.end()); if (alpha > 2 ? r.p(.8) : r.p(.2)) critical(r, c, alpha);
    auto ctx = fmt("%s alpha=%.4g threads=%d case=%s", c.desc.c_str(), alpha, threads, id.c_str());
    Binom b(n, ctx, n <= 45); double mu = 0; std::vector<double> P(b.M);
    for (int v = 1; v < n; ++v) for (int u = 0; u < v; ++u) { double k = c.w[u] * c.w[v] / W, dd = (double)ipow(torus(c.x[u], c.x[v]), d), p = girg_prob(c.w[u], c.w[v], W, torus(c.x[u], c.x[v]), d, alpha);
        double slack = p >= 1 && k > dd * (1 + 1e-9) ? 0 : p * 1e-12 * (1 + alpha) * (1 + d); b.set(u, v, p, slack); mu += p; P[b.id(u, v)] = p; }
    // cost: about mu^2 joint updates and threads' start-up per sample
    N = std::min<long>(N, 4e8 / (1 + mu * mu)); if (threads > 1) N = N / 3 + 50;
    omp_set_num_threads(threads); if (vf_omp_sched) vf_omp_sched(mix(n) | 1);
    bool lib = r.p(.5) || d == 0; auto go = [&](auto&& f) { double t0 = now_s(); for (long s = 0; s < N && !b.broken && (s < 50 || now_s() - t0 < budget_s); ++s) b.add(f((int)(r.next() >> 33))); };
    if (lib) go([&](int s) { return sample(c, alpha, s); });
    else switch (d) { case 1: { TreeSampler<1> t(c, alpha, threads); go(t); break; } case 2: { TreeSampler<2> t(c, alpha, threads); go(t); break; } case 3: { TreeSampler<3> t(c, alpha, threads); go(t); break; } case 4: { TreeSampler<4> t(c, alpha, threads); go(t); break; } default: { TreeSampler<5> t(c, alpha, threads); go(t); } }
    N = b.N; b.finish(); if (b.joint) { auto tab = pair_table(n); std::vector<double> ds((size_t)n * n); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) ds[a * n + b] = torus(c.x[a], c.x[b]); J.add(b, [&](size_t x, size_t y, bool rare) { return relation(tab[x].first, tab[x].second, tab[y].first, tab[y].second, rare, [&](int a, int b) { return ds[a * n + b]; }); }); } R().eval(N); if (mu > 1e-3) R().seen(hash_vec(c.w, hash_vec(P, threads)));
    double tot = 0; for (int v = 1; v < n; ++v) for (int u = 0; u < v; ++u) { size_t k = b.id(u, v); tot += b.cnt[k]; if (!b.broken) marginals(B, c, u, v, alpha, threads, b.lo[k], b.hi[k], P[k], b.cnt[k], N, w0, [] {}); }
    R().sample(ctx + fmt(" samples=%ld edges/sample=%.3f expected=%.3f", N, tot / N, mu)); R().stat("edges", (long)tot);
}
// few nodes and rare edges (every group of pairs expects far less than one), sampled very often
static void rare(Rng& r, const std::string& id, long N, Bins& B, int d, const std::vector<int>& th) {
    int n = r.i(3, 24); double alpha = r.p(.6) ? r.u(.2, 1) : r.u(1.2, 2.5); GirgCase c; c.d = d; c.w.resize(n); int k = r.i(0, 2); for (auto& w : c.w) w = k == 0 ? 1 : k == 1 ? r.u(1, 2) : std::ldexp(1.0, r.i(0, 3));
    double p0 = r.logu(1e-6, 1e-2), want = std::pow(p0, 1 / alpha) * std::pow(.25, d), f = want * n * n / c.W(); for (auto& w : c.w) w *= f;   // typical w_u w_v / W = want
    std::string b; c.x = girg_positions(r, n, d, r.p(.6) ? 0 : r.p(.5) ? 4 : r.i(0, 7), b); if (r.p(.5)) { int ax = r.i(0, d - 1); for (int v = 0; v < n; ++v) c.x[v][ax] = (v + r.u(.2, .8)) / n; b += " even"; } double W = c.W(), w0 = *std::min_element(c.w.begin(), c.w.end()); int threads = r.p(.9) ? 1 : r.pick(th);
    auto ctx = fmt("rare n=%d d=%d wk=%d p0=%.3g x=%s alpha=%.4g threads=%d case=%s", n, d, k, p0, b.c_str(), alpha, threads, id.c_str()); Binom bi(n, ctx, true); double mu = 0; std::vector<double> P(bi.M);
    for (int v = 1; v < n; ++v) for (int u = 0; u < v; ++u) { double p = girg_prob(c.w[u], c.w[v], W, torus(c.x[u], c.x[v]), d, alpha); bi.set(u, v, p, p * 1e-12 * (1 + alpha) * (1 + d)); mu += p; P[bi.id(u, v)] = p; }
    omp_set_num_threads(threads); auto go = [&](auto&& f) { double t0 = now_s(); for (long s = 0; s < N && !bi.broken && ((s & 63) || now_s() - t0 < budget_s); ++s) bi.add(f((int)(r.next() >> 33))); };
    switch (d) { case 1: { TreeSampler<1> t(c, alpha, threads); go(t); break; } case 2: { TreeSampler<2> t(c, alpha, threads); go(t); break; } case 3: { TreeSampler<3> t(c, alpha, threads); go(t); break; } case 4: { TreeSampler<4> t(c, alpha, threads); go(t); break; } default: { TreeSampler<5> t(c, alpha, threads); go(t); } }
    N = bi.N; bi.finish(); R().eval(N); R().seen(hash_vec(c.w, hash_vec(P, threads))); double tot = 0; for (size_t k = 0; k < bi.M; ++k) { tot += bi.cnt[k]; if (bi.broken) continue; B.add(fmt("rare d%d ", d) + pbin(P[k]), bi.lo[k], bi.hi[k], bi.cnt[k], N); B.add(fmt("rare case %s", id.c_str()), bi.lo[k], bi.hi[k], bi.cnt[k], N); } (void)w0;
    R().sample(ctx + fmt(" samples=%ld edges/sample=%.5f expected=%.5f", N, tot / N, mu)); R().stat("edges", (long)tot); R().stat("rare_samples", N);
}
// two groups of nodes next to the facing corners of two distant cells, heavy within their weight layer: the connection probability comes close to the bound used for the jumps
static void corner(Rng& r, const std::string& id, long N, Bins& B, int d, const std::vector<int>& th) {
    int big = r.p(.35), nA = big ? (int)r.logu(20, 140) : r.i(1, 5), nB = big ? (int)r.logu(20, 140) : r.i(1, 5), n = nA + nB + 1, l = r.i(2, d == 1 ? 6 : d == 2 ? 3 : 2); double alpha = r.p(.15) ? r.u(8, 60) : r.p(.3) ? r.u(.3, 1) : r.u(1, 5), cw = std::ldexp(1.0, -l);
    GirgCase c; c.d = d; c.w.resize(n); c.x = Pos(n, std::vector<double>(d)); int li = r.i(0, 3), lj = r.i(0, 3); long cells = 1l << l; std::string off;
    std::vector<double> ca(d), cb(d); std::vector<int> dir(d); for (bool ok = false; !ok;) { ok = false; off.clear(); for (int k = 0; k < d; ++k) { long A = r.i(0, (int)cells - 1), o = r.i(-3, 3), Bc = (A + o + cells) % cells; if (k == d - 1 && !ok && r.p(.9)) { o = (r.p(.5) ? 2 : 3) * (r.p(.5) ? 1 : -1); Bc = (A + o + cells) % cells; }
            long gap = std::min((Bc - A + cells) % cells, (A - Bc + cells) % cells), pg = std::min((Bc / 2 - A / 2 + cells / 2) % (cells / 2), (A / 2 - Bc / 2 + cells / 2) % (cells / 2)); if (pg > 1) { ok = false; break; } if (gap >= 2) ok = true; bool up = (Bc - A + cells) % cells <= cells / 2;
            dir[k] = gap >= 2 ? (up ? 1 : -1) : 0; ca[k] = (A + (dir[k] == 1)) * cw; cb[k] = (Bc + (dir[k] == -1)) * cw; off += fmt("%ld%s", gap, A + o != Bc ? "w" : ""); } }
    double eps = r.p(.5) ? r.logu(1e-9, .3) : r.logu(1e-3, .6); auto wrap1 = [](double q) { q -= std::floor(q); return q >= 1 ? 0.0 : q; };
    for (int v = 0; v < n - 1; ++v) { bool a = v < nA; for (int k = 0; k < d; ++k) { double e = cw * eps * (1 - r.u() * .5); c.x[v][k] = wrap1(dir[k] == 0 ? (a ? ca : cb)[k] + (r.p(.3) ? e : cw * r.u()) : (a ? ca[k] - dir[k] * e : cb[k] + dir[k] * e)); } c.w[v] = std::ldexp(1.0, (a ? li : lj) + 1) * (1 - std::min(.5, r.p(.7) ? r.logu(1e-12, .02) : r.u(0, .5))); }
    c.w[n - 1] = 1; for (auto& q : c.x[n - 1]) q = r.u(); double gapd = 0; for (int k = 0; k < d; ++k) gapd = std::max(gapd, [&] { double q = std::abs(ca[k] - cb[k]); return dir[k] ? std::min(q, 1 - q) : 0.0; }());
    double pt = r.logu(.005, .25), W1 = c.W(), s = std::pow(pt, 1 / alpha) * std::pow(gapd, d) * W1 / std::ldexp(1.0, li + lj + 2); for (auto& w : c.w) w *= s; double W = c.W(); int threads = r.p(.8) ? 1 : r.pick(th);
    auto ctx = fmt("corner sizes=%d,%d d=%d level=%d gaps=%s layers=%d,%d bound=%.3g eps=%.2g alpha=%.4g threads=%d case=%s", nA, nB, d, l, off.c_str(), li, lj, pt, eps, alpha, threads, id.c_str()); Binom bi(n, ctx, n <= 14); double mu = 0; std::vector<double> P(bi.M);
    for (int v = 1; v < n; ++v) for (int u = 0; u < v; ++u) { double t = torus(c.x[u], c.x[v]), k = c.w[u] * c.w[v] / W, dd = (double)ipow(t, d), p = girg_prob(c.w[u], c.w[v], W, t, d, alpha); bi.set(u, v, p, p >= 1 && k > dd * (1 + 1e-9) ? 0 : p * 1e-12 * (1 + alpha) * (1 + d)); mu += p; P[bi.id(u, v)] = p; }
    omp_set_num_threads(threads); if (vf_omp_sched) vf_omp_sched(mix(n) | 1); auto go = [&](auto&& f) { double t0 = now_s(); for (long s = 0; s < N && !bi.broken && ((s & 15) || now_s() - t0 < budget_s); ++s) bi.add(f((int)(r.next() >> 33))); };
    switch (d) { case 1: { TreeSampler<1> t(c, alpha, threads); go(t); break; } case 2: { TreeSampler<2> t(c, alpha, threads); go(t); break; } case 3: { TreeSampler<3> t(c, alpha, threads); go(t); break; } case 4: { TreeSampler<4> t(c, alpha, threads); go(t); break; } default: { TreeSampler<5> t(c, alpha, threads); go(t); } }
    N = bi.N; bi.finish(); R().eval(N); R().seen(hash_vec(c.w, hash_vec(P, threads))); double tot = 0, cross = 0; for (int v = 1; v < n; ++v) for (int u = 0; u < v; ++u) { size_t k = bi.id(u, v); tot += bi.cnt[k]; if (bi.broken || !(u < nA && v >= nA && v < n - 1)) continue; cross += bi.cnt[k]; for (auto key : {fmt("corner d%d gaps %s", d, off.c_str()), fmt("corner d%d ratio %d", d, std::max(-8, (int)std::floor(2 * std::log2(P[k] / pt)))), fmt("corner d%d big %d", d, big), "corner case " + id}) B.add(key, bi.lo[k], bi.hi[k], bi.cnt[k], N); }
    R().sample(ctx + fmt(" samples=%ld edges/sample=%.5f expected=%.5f", N, tot / N, mu)); R().stat("edges", (long)tot); R().stat("corner_edges", (long)cross);
}
// a few samples of larger graphs, aggregated; for big n only the pairs of a few hundred probe nodes
static void large(Rng& r, const std::string& id, int n, int probes, long N, Bins& B, int d, const std::vector<int>& th) {
    GirgCase c; c.d = d; bool hostile = probes >= n && r.p(.5); if (hostile) c = girg_case(r, n, d, r.i(0, 7));
    else { c.w.resize(n); int kind = r.i(0, 2); double ple = r.u(2.1, 3); for (auto& w : c.w) w = kind == 0 ? 1 : kind == 1 ? r.u(1, 3) : std::min(n * .5, std::pow(1 - r.u(), -1 / (ple - 1)));
        double target = r.u(3, 30), f = target / (std::pow(2.0, d) * c.W() / n); for (auto& w : c.w) w *= f; c.x = Pos(n, std::vector<double>(d)); for (auto& p : c.x) for (auto& q : p) q = r.u(); c.desc = fmt("n=%d d=%d kind=%d", n, d, kind); }
    double alpha = pick_alpha(r); if (!hostile && alpha < 1.2) alpha += 1; int threads = r.pick(th); double W = c.W(), w0 = *std::min_element(c.w.begin(), c.w.end());
    if (n > 5000 && alpha < 1.3) alpha = 1.3;
    omp_set_num_threads(threads); if (vf_omp_sched) vf_omp_sched(mix(n) | 1);
    auto ctx = fmt("%s alpha=%.4g threads=%d case=%s", c.desc.c_str(), alpha, threads, id.c_str());
    std::vector<int> pr(n); std::iota(pr.begin(), pr.end(), 0);
    if (probes < n) { for (int k = 0; k < probes; ++k) std::swap(pr[k], pr[r.i(k, n - 1)]); pr.resize(probes); std::sort(pr.begin(), pr.end()); }
    std::vector<char> isp(n); for (int u : pr) isp[u] = 1;
    std::map<uint64_t, int> cnt; std::unordered_set<uint64_t> one; long edges = 0;
    std::vector<std::vector<int>> adj(n);
    for (long s = 0; s < N; ++s) { auto e = sample(c, alpha, (int)(r.next() >> 33)); edges += e.size(); std::vector<uint64_t> ks; ks.reserve(e.size());
        for (auto& p : e) { if (p.first < 0 || p.second < 0 || p.first >= n || p.second >= n || p.first == p.second) { R().viol("endpoint", ctx); return; } ks.push_back(pairkey(p.first, p.second)); }
        std::sort(ks.begin(), ks.end()); for (size_t k = 1; k < ks.size(); ++k) if (ks[k] == ks[k - 1]) { R().viol("duplicate", ctx); return; }
        for (auto k : ks) { int u = k >> 32, v = (uint32_t)k; if (isp[u]) adj[u].push_back(v); if (isp[v]) adj[v].push_back(u); } }
    double emu = 0;
    for (int u : pr) { std::sort(adj[u].begin(), adj[u].end()); size_t pos = 0; auto& L = adj[u]; double mulo = 0, muhi = 0, var = 0; long deg = L.size();
        for (int v = 0; v < n; ++v) { if (v == u) continue; int x = 0; while (pos < L.size() && L[pos] == v) ++x, ++pos; if (isp[v] && v < u) continue; 
            double t = torus(c.x[u], c.x[v]), k = c.w[u] * c.w[v] / W, dd = (double)ipow(t, d), p = girg_prob(c.w[u], c.w[v], W, t, d, alpha);
            double slack = p >= 1 && k > dd * (1 + 1e-9) ? 0 : p * 1e-12 * (1 + alpha) * (1 + d), lo = std::max(0.0, p - slack - (p < 1e-6 ? p : 0)), hi = std::min(1.0, p + slack);
            emu += p * N; if (lo >= 1) { if (x != N) { R().viol("pair-probability", fmt("pair (%d,%d) has probability 1 but is in %d of %ld samples; %s", u, v, x, N, ctx.c_str())); return; } }
            mulo += lo; muhi += hi; var += p * (1 - p);
            if (x || (v + u) % (probes < n ? 1 : 1) == 0) { if (p > 1e-4 || probes >= n) marginals(B, c, u, v, alpha, threads, lo, hi, p, x, N, w0, [] {}); else B.add(fmt("d%d far ", d) + pbin(std::max(p, 1e-9)), lo, hi, x, N); } }
        (void)deg; (void)mulo; (void)muhi; (void)var; }
    // total count: variance is at most the mean
    R().eval(N); R().seen(hash_vec(c.w, n)); R().stat("edges", edges); R().sample(ctx + fmt(" edges=%ld probe-pair expectation=%.1f", edges, emu));
}
// far pairs of big graphs: random positions, few weight classes; the number of edges per distance bin and pair of classes has a closed form.
// Distances of different pairs are pairwise independent (uniform positions on the torus), so the variance of a bin is at most its mean.
struct Far { std::map<std::string, std::array<double, 3>> all; void finish(const std::string& ctx) { for (auto& q : all) check(q.first, q.second, ctx); }
    static void check(const std::string& k, const std::array<double, 3>& b, const std::string& ctx) { double sd = std::sqrt(b[0]), z = b[1] > b[0] ? (b[1] - b[0]) / (sd + 1) : (b[0] - b[2] - b[1]) / (sd + 1); R().max("far_bins_most_extreme_sigma", z); if (z > 11) R().viol("far-bin", fmt("%s: %.0f edges, expected %.1f (at most %.2f may be left out); %s", k.c_str(), b[1], b[0], b[2], ctx.c_str())); } };
static void far(Rng& r, const std::string& id, Far& F, int d, const std::vector<int>& th, int nmax) {
    int n = (int)r.logu(nmax / 4, nmax), K = r.p(.5) ? 1 : r.i(2, d <= 2 ? 3 : 2); std::vector<double> cw(K), cnt(K); std::vector<int> cl(n); GirgCase c; c.d = d; double alpha = r.u(1.08, d == 1 ? 1.5 : 1.4); int threads = r.pick(th);
    double base = r.p(.7) ? n * std::pow(.5, d) * std::pow(1e-6 / std::pow(std::ldexp(4.0, d), alpha) * r.logu(.1, 1), 1 / alpha) : r.logu(.03, 2) / std::pow(2.0, d); /* mostly: rare, but numerous pairs on the other side of the torus */ for (int k = 0; k < K; ++k) cw[k] = base * (k ? std::pow(1.5, r.i(1, 4)) : 1); std::sort(cw.begin(), cw.end()); c.w.resize(n); for (int v = 0; v < n; ++v) { cl[v] = K == 1 ? 0 : (r.p(.6) ? 0 : r.i(0, K - 1)); ++cnt[cl[v]]; c.w[v] = cw[cl[v]]; }
    c.x = Pos(n, std::vector<double>(d)); for (auto& p : c.x) for (auto& q : p) q = r.u(); double W = c.W(); auto ctx = fmt("far n=%d d=%d alpha=%.4g classes=%d w=%.3g..%.3g threads=%d case=%s", n, d, alpha, K, cw[0], cw[K - 1], threads, id.c_str());
    omp_set_num_threads(threads); if (vf_omp_sched) vf_omp_sched(mix(n) | 1);
    const int BN = 40; std::vector<double> got(K * K * BN); Edges e = sample(c, alpha, (int)(r.next() >> 33)); long bad = 0;
    auto bin = [&](double x) { return std::min(BN - 1, std::max(0, (int)std::floor(-2 * std::log2(2 * x)))); };
    for (auto& p : e) { if (p.first < 0 || p.second < 0 || p.first >= n || p.second >= n || p.first == p.second) { ++bad; continue; } int a = cl[p.first], b = cl[p.second]; if (a > b) std::swap(a, b); got[(a * K + b) * BN + bin(torus(c.x[p.first], c.x[p.second]))]++; }
    if (bad) { R().viol("endpoint", ctx); return; }
    // groups that may be skipped: pairs of distant cells with touching parents, per pair of layers; the deepest level is that of the lightest layer
    // (distance within one to four cells), so a bin can only lose edges of a few levels
    const double L = std::floor(std::log2(cw[K - 1] / cw[0])) + 1, deepest = std::floor(std::log2(W / cw[0] / cw[0]) / d); auto groups = [&](double lo, double hi) { double g = 0; for (int l = 1; l <= deepest; ++l) if (std::ldexp(1.0, -l) <= hi && std::ldexp(4.0, -l) >= lo) g += std::pow(2.0, d * l) * std::pow(6.0, d) / 2 * L * L; return g; };
    double total = 0; for (int a = 0; a < K; ++a) for (int b = a; b < K; ++b) for (int j = 0; j < BN; ++j) { double M = a == b ? cnt[a] * (cnt[a] - 1) / 2 : cnt[a] * cnt[b], k = cw[a] * cw[b] / W, x0 = std::min(.5, std::pow(k, 1.0 / d)), hi = .5 * std::exp2(-j / 2.0), lo = j == BN - 1 ? 0 : .5 * std::exp2(-(j + 1) / 2.0), mu = 0, V = std::pow(2.0, d);
        if (lo < x0) mu += M * V * (std::pow(std::min(hi, x0), d) - std::pow(lo, d)); double l2 = std::max(lo, x0); if (l2 < hi) mu += M * V * std::pow(k, alpha) * (std::pow(hi, d - d * alpha) - std::pow(l2, d - d * alpha)) / (1 - alpha);
        double x = got[(a * K + b) * BN + j], slack = std::min(mu, groups(lo, hi) * 1e-6); total += mu; Far::check(fmt("classes %d,%d distance %.3g..%.3g", a, b, lo, hi), {mu, x, slack}, ctx); double pm = std::min(1.0, std::pow(k / std::pow(hi, d), alpha)); for (auto key : {fmt("d%d distance bin %d", d, j), fmt("d%d ", d) + pbin(pm), fmt("threads %d", threads)}) { auto& f = F.all[key]; f[0] += mu; f[1] += x; f[2] += slack; } R().stat("far_bins"); }
    R().eval(); R().seen(hash_vec(c.w, n)); R().stat("edges", e.size()); R().sample(ctx + fmt(" edges=%zu expected=%.1f skippable in the farthest bin<=%.3g", e.size(), total, groups(.35, .5) * 1e-6));
}
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 10), N = a.i("N", 3000); std::string mode = a.s("mode", "small"); Bins B; Far F;
    cell_budget() = 2e5; budget_s = a.f("budget", 2);
    const std::vector<int> th{1, 2, 3, 4, 5, 8, 16};
    for (long k = from; k < to; ++k) { Rng r(seed * 7919 + k, mode == "small" ? 21 : mode == "mid" ? 22 : 23); auto id = fmt("%s:%lu:%ld", mode.c_str(), seed, k); int d = 1 + k % 5;
        if (mode == "far") { Rng q(seed * 7919 + k, 24); far(q, id, F, 1 + k % 4, th, a.i("nmax", 100000) * (k % 4 == 0 ? 4 : k % 4 == 1 ? 3 : k % 4 == 2 ? 2 : 1)); }
        else if (mode == "rare") { Rng q(seed * 7919 + k, 25); rare(q, id, 1000000, B, d, th); }
        else if (mode == "corner") { Rng q(seed * 7919 + k, 26); corner(q, id, 400000, B, d, th); }
        else if (mode == "small") small(r, id, N, B, d, th);
        else if (mode == "mid") { cell_budget() = 1e6; int n = r.i(200, 900); large(r, id, n, n, N, B, d, th); }
        else { int n = d <= 2 ? r.i(20000, 90000) : d == 3 ? r.i(8000, 30000) : r.i(4000, 9000); large(r, id, n, 150, N, B, d, th); } }
    J.finish(fmt("mode=%s seed=%lu cases %ld..%ld", mode.c_str(), seed, from, to)); F.finish(fmt("mode=%s seed=%lu cases %ld..%ld", mode.c_str(), seed, from, to)); B.finish(fmt("mode=%s seed=%lu cases %ld..%ld", mode.c_str(), seed, from, to));
    return R().done();
}
