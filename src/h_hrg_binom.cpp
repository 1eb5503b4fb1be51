// P05: T > 0 HRG: per-pair probabilities and independence
#include "hrg_cases.h"
#include "binom.h"
#include <array>
#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>
using namespace vf;
static double budget_s = 2; static Joint J;
struct Pr { double p, slack, d; };
static Pr prob(const HrgCase& c, int u, int v, double T) {
    long double x = hcosh1(c.r[u], c.a[u], c.r[v], c.a[v]), d = std::log1p(x + std::sqrt(x * (x + 2))), err = hcosh_err(c.r[u], c.r[v], c.R);
    // d(acosh)/dx is unbounded at x=0: take the difference over the error interval
    auto D = [](long double x) { if (x < 0) x = 0; return std::log1p(x + std::sqrt(x * (x + 2))); };
    auto P = [&](long double d) { return (double)(1 / (1 + std::exp((d - (long double)c.R) / (2 * (long double)T)))); };
    double p = P(d), ph = P(D(x - err)), pl = P(D(x + err)); return {p, std::max(ph - p, p - pl) + 1e-13 + p * 1e-12, (double)d};
}
static std::string pbin(double p) { return p > .5 ? fmt("1-p~2^%d", (int)std::floor(std::log2(std::max(1 - p, 1e-9)))) : fmt("p~2^%d/2", (int)std::floor(2 * std::log2(std::max(p, 1e-12)))); }
static void marginals(Bins& B, const HrgCase& c, int u, int v, double T, int threads, double lo, double hi, const Pr& p, double x, double N) {
    const double h = std::min(1.0, c.R); int lu = std::min(6, int((c.R - c.r[u]) / h)), lv = std::min(6, int((c.R - c.r[v]) / h)); if (lu > lv) std::swap(lu, lv);
    double s = std::abs(c.a[u] - c.a[v]); bool wrap = s > TWO_PI / 2; if (wrap) s = TWO_PI - s;
    std::string tc = T < .01 ? "T<.01 " : T < .2 ? "T<.2 " : T < .7 ? "T<.7 " : "T<1 ";
    B.add(tc + pbin(p.p), lo, hi, x, N); B.add(fmt("layers %d,%d", lu, lv), lo, hi, x, N);
    B.add(fmt("angle 2^%d wrap %d", s > 0 ? std::max(-24, (int)std::floor(std::log2(s))) : -99, wrap), lo, hi, x, N); B.add(fmt("threads %d ", threads) + tc, lo, hi, x, N);
    B.add(tc + fmt("d-R %d", std::max(-20, std::min(40, (int)std::floor(p.d - c.R)))), lo, hi, x, N);
}
static double pick_T(Rng& r) { switch (r.i(0, 7)) { case 0: return r.logu(1e-4, .05); case 1: return r.u(.9, .999); case 2: return .5; default: return r.u(.05, .95); } }
// angles such that many pairs lie within a few T of the distance R
static void critical(Rng& g, HrgCase& c, double T) { const int n = c.r.size(); for (int v = 1; v < n; ++v) if (g.p(.6)) { int u = g.i(0, v - 1); double q = (std::cosh(c.R + 2 * T * g.u(-3, 3)) - std::cosh(c.r[u] - c.r[v])) / (2 * std::sinh(c.r[u]) * std::sinh(c.r[v])); if (!(q > 0 && q < 1)) continue; double th = 2 * std::asin(std::sqrt(q)); c.a[v] = clampa(c.a[u] + (g.p(.5) ? th : -th)); } c.desc += " critical"; }
static void small(Rng& r, const std::string& id, long N, Bins& B, const std::vector<int>& th) {
    int n = r.p(.3) ? r.i(2, 12) : r.i(12, 45); double T = pick_T(r); int threads = r.p(.4) ? 1 : r.pick(th);
    double Rr = r.p(.6) ? r.u(3, 16) : r.p(.3) ? r.u(.05, 2) : -1; auto c = hrg_case(r, n, Rr, r.p(.5) ? 4 * r.i(0, 1) : r.p(.3) ? 7 : -1, r.p(.6) ? 0 : -1); if (c.R > 20) c = hrg_case(r, n, r.u(3, 12)); if (r.p(T < .05 ? .9 : .3)) critical(r, c, T);
    auto ctx = fmt("%s T=%.4g threads=%d case=%s", c.desc.c_str(), T, threads, id.c_str());
    Binom b(n, ctx, true); std::vector<Pr> P(b.M); double mu = 0;
    for (int v = 1; v < n; ++v) for (int u = 0; u < v; ++u) { auto p = P[b.id(u, v)] = prob(c, u, v, T); b.set(u, v, p.p, p.slack); mu += p.p; }
    if (threads > 1) N = N / 3 + 50;
    omp_set_num_threads(threads); if (vf_omp_sched) vf_omp_sched(mix(n) | 1);
    auto go = [&](auto&& f) { double t0 = now_s(); for (long s = 0; s < N && !b.broken && (s < 50 || now_s() - t0 < budget_s); ++s) b.add(f((int)(r.next() >> 33))); };
    const auto r0 = c.r, a0 = c.a;
    if (r.p(.4)) go([&](int s) { return hypergirgs::generateEdges(c.r, c.a, T, c.R, s); });
    else { std::vector<Edges> per(threads); auto cb = [&](int u, int v, int t) { if (t < 0 || t >= threads) { R().viol("thread-id", fmt("%d", t)); return; } per[t].emplace_back(u, v); };
        auto tr = hypergirgs::makeHyperbolicTree(c.r, c.a, T, c.R, cb); go([&](int s) { for (auto& p : per) p.clear(); tr.generate(s); Edges e; for (auto& p : per) e.insert(e.end(), p.begin(), p.end()); return e; }); }
    N = b.N; b.finish(); if (b.joint) { auto tab = pair_table(n); std::vector<double> ds((size_t)n * n); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) ds[a * n + b] = [&] { double q = std::abs(c.a[a] - c.a[b]); return q > TWO_PI / 2 ? TWO_PI - q : q; }(); J.add(b, [&](size_t x, size_t y, bool rare) { return relation(tab[x].first, tab[x].second, tab[y].first, tab[y].second, rare, [&](int a, int b) { return ds[a * n + b]; }); }); } R().eval(N); if (mu > 1e-3) R().seen(hash_vec(c.r, hash_vec(c.a, mix(threads))));
    double tot = 0; for (int v = 1; v < n; ++v) for (int u = 0; u < v; ++u) { size_t k = b.id(u, v); tot += b.cnt[k]; if (!b.broken) marginals(B, c, u, v, T, threads, b.lo[k], b.hi[k], P[k], b.cnt[k], N); }
    R().stat("edges", (long)tot); R().sample(ctx + fmt(" samples=%ld edges/sample=%.3f expected=%.3f", N, tot / N, mu));
}
// few nodes and rare edges (every group of pairs expects far less than one), sampled very often
static void rare(Rng& r, const std::string& id, long N, Bins& B, const std::vector<int>& th) {
    int n = r.i(3, 24), K = r.i(1, 3); double T = r.p(.7) ? r.u(.4, .95) : r.u(.1, .4), Rr = 2 * T * std::log(1 / r.logu(3e-6, 2e-3)) + r.u(0, 2); HrgCase c; c.R = Rr; c.r.resize(n); c.a.resize(n); std::vector<double> rc(K); for (auto& x : rc) x = Rr - r.u(0, r.p(.5) ? .5 : std::min(3.0, Rr / 2));
    const bool even = r.p(.7); double step = r.p(.8) ? 1 : r.logu(1e-3, 1); for (int v = 0; v < n; ++v) { c.r[v] = std::min(rc[r.i(0, K - 1)] + r.u() * .3, Rr * (1 - 1e-9)); c.a[v] = clampa(even ? (v + r.u(.2, .8)) * TWO_PI / n : r.u() * TWO_PI * step); } int threads = r.p(.9) ? 1 : r.pick(th);
    auto ctx = fmt("rare n=%d R=%.4g T=%.4g threads=%d case=%s", n, Rr, T, threads, id.c_str()); Binom b(n, ctx, true); std::vector<Pr> P(b.M); double mu = 0;
    for (int v = 1; v < n; ++v) for (int u = 0; u < v; ++u) { auto p = P[b.id(u, v)] = prob(c, u, v, T); b.set(u, v, p.p, p.slack); mu += p.p; }
    omp_set_num_threads(threads); std::vector<Edges> per(threads); auto cb = [&](int u, int v, int t) { if (t < 0 || t >= threads) { R().viol("thread-id", fmt("%d", t)); return; } per[t].emplace_back(u, v); };
    auto tr = hypergirgs::makeHyperbolicTree(c.r, c.a, T, c.R, cb); double t0 = now_s(); for (long s = 0; s < N && !b.broken && ((s & 63) || now_s() - t0 < budget_s); ++s) { for (auto& p : per) p.clear(); tr.generate((int)(r.next() >> 33)); Edges e; for (auto& p : per) e.insert(e.end(), p.begin(), p.end()); b.add(e); }
    N = b.N; b.finish(); R().eval(N); if (mu > 1e-3) R().seen(hash_vec(c.r, hash_vec(c.a, mix(threads)))); double tot = 0; for (size_t k = 0; k < b.M; ++k) { tot += b.cnt[k]; if (b.broken) continue; B.add("rare " + pbin(P[k].p), b.lo[k], b.hi[k], b.cnt[k], N); B.add("rare case " + id, b.lo[k], b.hi[k], b.cnt[k], N); }
    R().sample(ctx + fmt(" samples=%ld edges/sample=%.5f expected=%.5f", N, tot / N, mu)); R().stat("edges", (long)tot); R().stat("rare_samples", N);
}
// two groups of nodes next to the facing borders of two distant cells and to the inner borders of their layers: the probability comes close to the bound used for the jumps
static void corner(Rng& r, const std::string& id, long N, Bins& B, const std::vector<int>& th) {
    int big = r.p(.35), nA = big ? (int)r.logu(20, 140) : r.i(1, 5), nB = big ? (int)r.logu(20, 140) : r.i(1, 5), n = nA + nB; HrgCase c; double T, h, pt, w; int l, gap, li, lj;
    for (;;) { T = r.p(.3) ? r.u(.05, .4) : r.u(.3, .97); c.R = r.u(.5, 14); h = std::min(1.0, c.R); const int L = std::max(1, (int)(c.R / h)); li = std::min(L - 1, (int)r.i(0, 4)); lj = std::min(L - 1, (int)r.i(0, 4)); l = r.i(2, 14); gap = r.i(1, 2); w = std::ldexp(TWO_PI, -l); if (l == 2 && gap == 2) continue;
        double r1 = c.R - (li + 1) * h, r2 = c.R - (lj + 1) * h, q = std::sinh((r1 - r2) / 2), f = std::sin(gap * w / 2), x = 2 * q * q + 2 * f * f * std::sinh(std::max(0.0, r1)) * std::sinh(std::max(0.0, r2)), D = std::log1p(x + std::sqrt(x * (x + 2))); pt = 1 / (1 + std::exp((D - c.R) / (2 * T))); if (pt > .004 && pt < .3) break; }
    long cells = 1l << l, A = r.p(.3) ? cells - r.i(1, gap + 2) : r.i(0, (int)cells - 1); A = ((A % cells) + cells) % cells; if (gap == 2 && A % 2) A = (A + 1) % cells; long Bc = (A + gap + 1) % cells;
    double eps = r.p(.5) ? r.logu(1e-9, .3) : r.logu(1e-3, .6); auto wr = [](double a) { if (a < 0) a += TWO_PI; if (a >= TWO_PI) a -= TWO_PI; return clampa(a); }; const bool sw = r.p(.5);
    c.r.resize(n); c.a.resize(n); for (int v = 0; v < n; ++v) { bool a = (v < nA) != sw; double e = w * eps * (1 - r.u() * .5); c.a[v] = wr(a ? (A + 1) * w - e : Bc * w + e); c.r[v] = std::min(c.R - ((v < nA ? li : lj) + 1) * h + h * (r.p(.7) ? r.logu(1e-9, .05) : r.u(0, .99)), c.R * (1 - 1e-12)); if (c.r[v] < 0) c.r[v] = 0; } int threads = r.p(.8) ? 1 : r.pick(th);
    auto ctx = fmt("corner sizes=%d,%d R=%.4g T=%.4g level=%d cells=%ld,%ld layers=%d,%d bound=%.3g eps=%.2g threads=%d case=%s", nA, nB, c.R, T, l, A, Bc, li, lj, pt, eps, threads, id.c_str()); Binom b(n, ctx, n <= 14); std::vector<Pr> P(b.M); double mu = 0;
    for (int v = 1; v < n; ++v) for (int u = 0; u < v; ++u) { auto p = P[b.id(u, v)] = prob(c, u, v, T); b.set(u, v, p.p, p.slack); mu += p.p; }
    omp_set_num_threads(threads); if (vf_omp_sched) vf_omp_sched(mix(n) | 1); std::vector<Edges> per(threads); auto cb = [&](int u, int v, int t) { if (t < 0 || t >= threads) { R().viol("thread-id", fmt("%d", t)); return; } per[t].emplace_back(u, v); };
    auto tr = hypergirgs::makeHyperbolicTree(c.r, c.a, T, c.R, cb); double t0 = now_s(); for (long s = 0; s < N && !b.broken && ((s & 15) || now_s() - t0 < budget_s); ++s) { for (auto& p : per) p.clear(); tr.generate((int)(r.next() >> 33)); Edges e; for (auto& p : per) e.insert(e.end(), p.begin(), p.end()); b.add(e); }
    N = b.N; b.finish(); R().eval(N); if (mu > 1e-3) R().seen(hash_vec(c.r, hash_vec(c.a, mix(threads)))); double tot = 0, cross = 0; const bool wrap = A + gap + 1 >= cells; for (int v = 1; v < n; ++v) for (int u = 0; u < v; ++u) { size_t k = b.id(u, v); tot += b.cnt[k]; if (b.broken || !(u < nA && v >= nA)) continue; cross += b.cnt[k]; for (auto key : {fmt("corner gap %d wrap %d", gap, wrap), fmt("corner ratio %d", std::max(-8, (int)std::floor(2 * std::log2(P[k].p / pt)))), fmt("corner big %d", big), fmt("corner layers %d,%d", std::min(li, lj), std::max(li, lj)), "corner case " + id}) B.add(key, b.lo[k], b.hi[k], b.cnt[k], N); }
    R().sample(ctx + fmt(" samples=%ld edges/sample=%.5f expected=%.5f", N, tot / N, mu)); R().stat("edges", (long)tot); R().stat("corner_edges", (long)cross);
}
static void large(Rng& r, const std::string& id, int n, int probes, long N, Bins& B, const std::vector<int>& th) {
    double T = pick_T(r), al = r.u(.55, 1), deg = r.logu(2, 40); if (T < .02) T = .3; int threads = r.pick(th);
    double Rr = hypergirgs::calculateRadius(n, al, T, deg); HrgCase c;
    if (probes >= n && r.p(.4)) c = hrg_case(r, n, std::min(Rr, 18.0)); else { c.R = Rr; c.desc = fmt("n=%d R=%.4g alpha=%.2f", n, Rr, al); c.r = hypergirgs::sampleRadii(n, al, Rr, r.i(0, 1 << 30), true); c.a = hypergirgs::sampleAngles(n, r.i(0, 1 << 30), true); }
    auto ctx = fmt("%s T=%.4g threads=%d case=%s", c.desc.c_str(), T, threads, id.c_str());
    omp_set_num_threads(threads); if (vf_omp_sched) vf_omp_sched(mix(n) | 1);
    std::vector<int> pr(n); std::iota(pr.begin(), pr.end(), 0);
    if (probes < n) { for (int k = 0; k < probes; ++k) std::swap(pr[k], pr[r.i(k, n - 1)]); pr.resize(probes); std::sort(pr.begin(), pr.end()); }
    std::vector<char> isp(n); for (int u : pr) isp[u] = 1; std::vector<std::vector<int>> adj(n); long edges = 0;
    for (long s = 0; s < N; ++s) { auto e = hypergirgs::generateEdges(c.r, c.a, T, c.R, (int)(r.next() >> 33)); edges += e.size(); std::vector<uint64_t> ks;
        for (auto& p : e) { if (p.first < 0 || p.second < 0 || p.first >= n || p.second >= n || p.first == p.second) { R().viol("endpoint", ctx); return; } ks.push_back(pairkey(p.first, p.second)); }
        std::sort(ks.begin(), ks.end()); for (size_t k = 1; k < ks.size(); ++k) if (ks[k] == ks[k - 1]) { R().viol("duplicate", ctx); return; }
        for (auto k : ks) { int u = k >> 32, v = (uint32_t)k; if (isp[u]) adj[u].push_back(v); if (isp[v]) adj[v].push_back(u); } }
    double emu = 0;
    for (int u : pr) { auto& L = adj[u]; std::sort(L.begin(), L.end()); size_t pos = 0;
        for (int v = 0; v < n; ++v) { if (v == u) continue; int x = 0; while (pos < L.size() && L[pos] == v) ++x, ++pos; if (isp[v] && v < u) continue;
            auto p = prob(c, u, v, T); double lo = std::max(0.0, p.p - p.slack - (p.p < 1e-6 ? p.p : 0)), hi = std::min(1.0, p.p + p.slack); emu += p.p * N;
            if (p.p > 1e-4 || probes >= n) marginals(B, c, u, v, T, threads, lo, hi, p, x, N); else B.add("far " + pbin(std::max(p.p, 1e-9)), lo, hi, x, N); } }
    R().eval(N); R().seen(hash_vec(c.r, n)); R().stat("edges", edges); R().sample(ctx + fmt(" edges=%ld probe-pair expectation=%.1f", edges, emu));
}
// far pairs of big graphs: few radius classes, uniform angles; expected edges per angle bin and pair of classes by numerical integration.
// Angle differences of different pairs are pairwise independent, so the variance of a bin is at most its mean.
struct Far { std::map<std::string, std::array<double, 3>> all; void finish(const std::string& ctx) { for (auto& q : all) check(q.first, q.second, ctx); }
    static void check(const std::string& k, const std::array<double, 3>& b, const std::string& ctx) { double sd = std::sqrt(b[0]), z = b[1] > b[0] ? (b[1] - b[0]) / (sd + 1) : (b[0] - b[2] - b[1]) / (sd + 1); R().max("far_bins_most_extreme_sigma", z); if (z > 11) R().viol("far-bin", fmt("%s: %.0f edges, expected %.1f (at most %.2f may be left out); %s", k.c_str(), b[1], b[0], b[2], ctx.c_str())); } };
static void far(Rng& r, const std::string& id, Far& F, const std::vector<int>& th, int nmax) {
    int n = (int)r.logu(nmax / 4, nmax), K = r.i(1, 3); double T = r.u(.55, .92), Rr = 2 * std::log(n) + r.u(-1, 4); int threads = r.pick(th); std::vector<double> rc(K), cnt(K); std::vector<int> cl(n); HrgCase c; c.R = Rr;
    for (int k = 0; k < K; ++k) rc[k] = k ? Rr - r.u(0, 4) : Rr - r.u(0, .3); c.r.resize(n); c.a.resize(n); for (int v = 0; v < n; ++v) { cl[v] = K == 1 || r.p(.7) ? 0 : r.i(0, K - 1); ++cnt[cl[v]]; c.r[v] = rc[cl[v]]; c.a[v] = std::min(r.u() * TWO_PI, std::nextafter(TWO_PI, 0.0)); }
    auto ctx = fmt("far n=%d R=%.4g T=%.4g classes=%d threads=%d case=%s", n, Rr, T, K, threads, id.c_str()); omp_set_num_threads(threads); if (vf_omp_sched) vf_omp_sched(mix(n) | 1);
    const int BN = 40; const double PI = TWO_PI / 2; std::vector<double> got(K * K * BN); auto e = hypergirgs::generateEdges(c.r, c.a, T, Rr, (int)(r.next() >> 33));
    for (auto& p : e) { if (p.first < 0 || p.second < 0 || p.first >= n || p.second >= n || p.first == p.second) { R().viol("endpoint", ctx); return; } int a = cl[p.first], b = cl[p.second]; if (a > b) std::swap(a, b); double s = std::abs(c.a[p.first] - c.a[p.second]); if (s > PI) s = TWO_PI - s; got[(a * K + b) * BN + std::min(BN - 1, std::max(0, (int)std::floor(-2 * std::log2(s / PI))))]++; }
    auto D = [](double r1, double r2, double f) { double h = std::sinh((r1 - r2) / 2), s = std::sin(f / 2), x = 2 * h * h + 2 * s * s * std::sinh(r1) * std::sinh(r2); return std::log1p(x + std::sqrt(x * (x + 2))); };
    double total = 0; for (int a = 0; a < K; ++a) for (int b = a; b < K; ++b) for (int j = 0; j < BN; ++j) { double M = a == b ? cnt[a] * (cnt[a] - 1) / 2 : cnt[a] * cnt[b], hi = PI * std::exp2(-j / 2.0), lo = j == BN - 1 ? 0 : PI * std::exp2(-(j + 1) / 2.0), I = 0; const int S = 400;   // midpoint rule in log(angle)
        if (lo > 0) for (int q = 0; q < S; ++q) { double w = std::log(hi / lo) / S, f = lo * std::exp((q + .5) * w); I += f * w / (1 + std::exp((D(rc[a], rc[b], f) - Rr) / (2 * T))); } else for (int q = 0; q < 4 * S; ++q) { double w = hi / (4 * S), f = (q + .5) * w; I += w / (1 + std::exp((D(rc[a], rc[b], f) - Rr) / (2 * T))); }
        double mu = M * I / PI, L = std::ceil(4 / std::min(1.0, Rr)) + 2, slack = 0; for (int l = 2; l < 31; ++l) { double w = TWO_PI / std::exp2(l); if (w <= hi && 4 * w >= lo) slack += 3 * std::exp2(l) * L * L; } slack = std::min(mu, std::min(slack, M * (hi - lo) / PI) * 1e-6);
        double x = got[(a * K + b) * BN + j]; total += mu; Far::check(fmt("classes %d,%d angle %.3g..%.3g", a, b, lo, hi), {mu * (1 + 1e-4), x, slack + 2e-4 * mu}, ctx); double pm = 1 / (1 + std::exp((D(rc[a], rc[b], hi) - Rr) / (2 * T))); for (auto key : {fmt("angle bin %d", j), pbin(pm), fmt("threads %d", threads)}) { auto& f = F.all[key]; f[0] += mu * (1 + 1e-4); f[1] += x; f[2] += slack + 2e-4 * mu; } R().stat("far_bins"); }
    R().eval(); R().seen(hash_vec(c.r, n)); R().stat("edges", e.size()); R().sample(ctx + fmt(" edges=%zu expected=%.1f", e.size(), total));
}
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 10), N = a.i("N", 3000); std::string mode = a.s("mode", "small"); Bins B; Far F; budget_s = a.f("budget", 2);
    const std::vector<int> th{1, 2, 3, 4, 5, 8, 16};
    for (long k = from; k < to; ++k) { Rng r(seed * 7919 + k, mode == "small" ? 51 : mode == "mid" ? 52 : 53); auto id = fmt("%s:%lu:%ld", mode.c_str(), seed, k);
        if (mode == "far") { Rng q(seed * 7919 + k, 54); far(q, id, F, th, a.i("nmax", 100000)); } else if (mode == "rare") { Rng q(seed * 7919 + k, 55); rare(q, id, 1000000, B, th); } else if (mode == "corner") { Rng q(seed * 7919 + k, 56); corner(q, id, 400000, B, th); } else if (mode == "small") small(r, id, N, B, th); else if (mode == "mid") { int n = r.i(200, 900); large(r, id, n, n, N, B, th); } else { int n = r.i(10000, 60000); large(r, id, n, 100, N, B, th); } }
    J.finish(fmt("mode=%s seed=%lu cases %ld..%ld", mode.c_str(), seed, from, to)); F.finish(fmt("mode=%s seed=%lu cases %ld..%ld", mode.c_str(), seed, from, to)); B.finish(fmt("mode=%s seed=%lu cases %ld..%ld", mode.c_str(), seed, from, to));
    return R().done();
}
