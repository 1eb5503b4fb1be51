// P11-P13, P30: laws of the sampled weights, positions, radii and angles.
// Every sample is mapped to a uniform variable through the exact distribution function; monitors check range, law (Kolmogorov-Smirnov
// with the Dvoretzky-Kiefer-Wolfowitz bound), repeated values (shared streams), and joint bins at several lags, across indices and across seeds.
#include "vf.h"
#include <girgs/Generator.h>
#include <hypergirgs/Generator.h>
using namespace vf;
static const double LIM = -38;   // ln of the false alarm probability per test
static double dkw(double n) { return std::sqrt((-LIM + std::log(2.0)) / (2 * n)); }
static void ks(std::vector<double> u, const std::string& key, const std::string& ctx) {
    if (u.size() < 200) return; std::sort(u.begin(), u.end()); double n = u.size(), D = 0, at = 0;
    for (size_t i = 0; i < u.size(); ++i) { double d = std::max(std::abs(u[i] - i / n), std::abs(u[i] - (i + 1) / n)); if (d > D) D = d, at = u[i]; }
    R().max("max_ks_over_bound", D / dkw(n)); R().stat("ks_tests");
    if (D > dkw(n) + 1e-9) R().viol("law:" + key, fmt("distance %.5f from the exact distribution function at quantile %.4f (bound %.5f, %.0f samples); %s", D, at, dkw(n), n, ctx.c_str()));
}
static void joint(const std::vector<std::pair<double, double>>& v, const std::string& key, const std::string& ctx) {   // independent pairs of independent uniforms
    const int B = 6; if (v.size() < 2000) return; std::vector<long> c(B * B, 0); for (auto& p : v) { int a = std::min(B - 1, std::max(0, (int)(p.first * B))), b = std::min(B - 1, std::max(0, (int)(p.second * B))); ++c[a * B + b]; }
    R().stat("joint_tests"); double n = v.size();
    for (int i = 0; i < B * B; ++i) { double ln = ln_tail(c[i], n / (B * B) * (c[i] > n / (B * B) ? 1 + 1e-6 : 1 - 1e-6), n); if (ln < LIM) { R().viol("dependence:" + key, fmt("bin (%d,%d): %ld of %.0f pairs, expected %.1f; %s", i / B, i % B, c[i], n, n / (B * B), ctx.c_str())); return; } }
    // diagonal: equality or closeness
    long close = 0; for (auto& p : v) close += std::abs(p.first - p.second) < 1e-4; if (ln_tail(close, 2.1e-4 * n, n) < LIM && close > 2e-4 * n) R().viol("dependence-close:" + key, fmt("%ld of %.0f pairs are (nearly) equal; %s", close, n, ctx.c_str()));
}
static void dups(std::vector<double> u, const std::string& key, const std::string& ctx) { // two threads sharing a stream repeat values
    std::sort(u.begin(), u.end()); long d = 0; for (size_t i = 1; i < u.size(); ++i) d += u[i] == u[i - 1]; if (d > 3 + (long)(u.size() / 1000 ) * 0) R().viol("repeated-values:" + key, fmt("%ld repeated values among %zu; %s", d, u.size(), ctx.c_str())); }
static void sequence(const std::vector<double>& u, const std::string& key, const std::string& ctx, bool exact_values) {
    ks(u, key, ctx); if (exact_values) dups(u, key, ctx);
    for (size_t lag : {size_t(1), size_t(2), size_t(3), size_t(7), u.size() / 2, u.size() / 3, u.size() / 4, u.size() / 8, u.size() / 16}) { if (lag == 0 || lag * 2 > u.size()) continue; std::vector<std::pair<double, double>> v; for (size_t i = 0; i + lag < u.size(); ++i) if ((i / lag) % 2 == 0) v.emplace_back(u[i], u[i + lag]); joint(v, key, fmt("lag %zu; ", lag) + ctx); }
    R().eval(); R().stat("samples", u.size()); if (!u.empty()) { R().seen(hash_vec(u)); R().sample(ctx + fmt(" first=%.6f", u[0])); }
}
static std::map<std::string, std::vector<double>> pool;
static void add_pool(const std::string& k, const std::vector<double>& u) { auto& p = pool[k]; if (p.size() < 20000000) p.insert(p.end(), u.begin(), u.end()); }
static bool inrange(const std::vector<double>& v, double lo, double hi, bool strict_hi, const char* key, const std::string& ctx) {
    for (size_t i = 0; i < v.size(); ++i) if (!(v[i] >= lo && (strict_hi ? v[i] < hi : v[i] <= hi))) { R().viol(std::string("range:") + key, fmt("entry %zu is %.17g, allowed [%.17g,%.17g%c; %s", i, v[i], lo, hi, strict_hi ? ')' : ']', ctx.c_str())); return false; } return true; }
// ---- the samplers, as uniform variables
struct Par { int n, dim; double ple, alpha, R; };
static std::vector<std::vector<double>> draw(const std::string& what, const Par& p, int seed, bool par, const std::string& ctx) {
    std::vector<std::vector<double>> o;   // several parallel sequences
    if (what == "weights") { auto w = girgs::generateWeights(p.n, p.ple, seed, par); if ((int)w.size() != p.n) { R().viol("size:weights", ctx); return o; } double B = .5 * p.n; if (!inrange(w, 1 - 1e-12, B * (1 + 1e-12), false, "weights", ctx)) return o;
        double c = 1 - std::pow(B, 1 - p.ple); std::vector<double> u; u.reserve(w.size()); for (double x : w) u.push_back(std::min(1.0, std::max(0.0, (1 - std::pow(x, 1 - p.ple)) / c))); o.push_back(u); }
    else if (what == "positions") { auto x = girgs::generatePositions(p.n, p.dim, seed, par); if ((int)x.size() != p.n) { R().viol("size:positions", ctx); return o; } o.assign(p.dim, {}); for (auto& q : x) { if ((int)q.size() != p.dim) { R().viol("dimension:positions", fmt("%zu coordinates; %s", q.size(), ctx.c_str())); return {}; } for (int k = 0; k < p.dim; ++k) o[k].push_back(q[k]); } for (auto& v : o) if (!inrange(v, 0, 1, true, "positions", ctx)) return {}; }
    else { std::vector<double> r, a; if (what == "radii") r = hypergirgs::sampleRadii(p.n, p.alpha, p.R, seed, par); else if (what == "angles") a = hypergirgs::sampleAngles(p.n, seed, par); else { auto q = hypergirgs::sampleRadiiAndAngles(p.n, p.alpha, p.R, seed, par); r = q.first; a = q.second; }
        if (what != "angles") { if ((int)r.size() != p.n) { R().viol("size:radii", ctx); return o; } if (!inrange(r, 1e-300, p.R * (1 + 1e-12), false, "radii", ctx)) return o; std::vector<double> u; double s = std::sinh(p.alpha * p.R / 2); for (double x : r) { double q = std::sinh(p.alpha * x / 2) / s; u.push_back(std::min(1.0, q * q)); } o.push_back(u); }
        if (what != "radii") { if ((int)a.size() != p.n) { R().viol("size:angles", ctx); return {}; } if (!inrange(a, 0, 2 * 3.14159265358979323846, true, "angles", ctx)) return {}; std::vector<double> u; for (double x : a) u.push_back(x / (2 * 3.14159265358979323846)); o.push_back(u); } }
    return o; }
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 10); int nmax = a.i("nmax", 200000); std::string mode = a.s("mode", "long"); std::string set = a.s("what", "weights");
    const std::vector<int> th{1, 2, 3, 4, 5, 6, 7, 8, 16, 31}; std::vector<std::string> whats; { std::string s = set + ","; size_t p; while ((p = s.find(',')) != std::string::npos) { whats.push_back(s.substr(0, p)); s = s.substr(p + 1); } }
    for (long k = from; k < to; ++k) { Rng r(seed * 86028121 + k, 111); int t = r.pick(th); omp_set_num_threads(t); if (vf_omp_sched) vf_omp_sched(mix(seed * 131 + k) | 1); if (vf_omp_team) vf_omp_team(a.i("team", 0) ? (r.p(.5) ? -1 : (int)r.i(1, 4)) : 0);
        const std::string& what = whats[k % whats.size()]; Par p; p.dim = r.i(1, 5); p.ple = r.p(.7) ? r.u(2.01, 3) : r.p(.5) ? r.u(1.05, 2) : r.u(3, 9); p.alpha = r.p(.8) ? r.u(.5, 1) : r.u(.1, 3); p.R = r.p(.2) ? r.logu(.05, 1) : r.u(1, 35); bool par = r.p(.8);
        if (mode == "long") { p.n = r.p(.15) ? r.i(200, 9999) : r.p(.3) ? 10000 * r.i(1, 12) + r.i(-2, 2) : r.i(20000, nmax); int sd = r.p(.1) ? std::numeric_limits<int>::max() - (int)r.i(0, 20) : r.i(0, 1 << 30);
            std::string ctx = fmt("%s n=%d d=%d ple=%.3f alpha=%.3f R=%.3f threads=%d parallel=%d seed=%d", what.c_str(), p.n, p.dim, p.ple, p.alpha, p.R, t, par, sd); auto o = draw(what, p, sd, par, ctx); if (o.empty()) continue;
            bool uniq = what != "radii" && what != "both" && what != "weights"; for (size_t i = 0; i < o.size(); ++i) add_pool(fmt("%s-%zu", what.c_str(), i), o[i]); for (size_t i = 0; i < o.size(); ++i) sequence(o[i], what, fmt("component %zu; ", i) + ctx, uniq || (what == "radii" && p.R < 20 && p.alpha * p.R > 1) || (what == "weights" && p.ple < 3.01 && p.n > 5000));
            for (size_t i = 1; i < o.size(); ++i) for (size_t j = 0; j < i; ++j) for (int sh = 0; sh <= 1; ++sh) { std::vector<std::pair<double, double>> v; for (size_t q = 0; q + sh < o[i].size(); ++q) v.emplace_back(o[i][q], o[j][q + sh]); joint(v, what + "-components", fmt("components %zu,%zu shift %d; ", i, j, sh) + ctx); }
            if (o.size() > 1) { std::vector<double> all; for (auto& v : o) all.insert(all.end(), v.begin(), v.end()); if (what == "positions") dups(all, what, ctx); }
            // another seed, far away: a different, independent sample; equal seed: the same one (P06)
            int sd2 = (sd ^ (1 << r.i(7, 29))) & 0x7fffffff; auto o2 = draw(what, p, sd2, par, ctx); if (o2.size() == o.size()) for (size_t i = 0; i < o.size(); ++i) { std::vector<std::pair<double, double>> v; long eq = 0; for (size_t q = 0; q < o[i].size(); ++q) { v.emplace_back(o[i][q], o2[i][q]); eq += o[i][q] == o2[i][q]; } if (eq > 10 + p.n / 1000) R().viol("seed-ignored:" + what, fmt("%ld equal entries with seeds %d and %d; %s", eq, sd, sd2, ctx.c_str())); else joint(v, what + "-seeds", fmt("other seed %d; ", sd2) + ctx); }
        } else if (mode == "seeds") { // few entries, very many seeds: law of every single index, dependence between indices and between seeds
            p.n = r.i(3, 12); int M = a.i("M", 20000); long base = r.p(.5) ? 0 : r.i(0, 1 << 30), step = r.p(.6) ? 1 : r.i(1, 1000); bool neg = r.p(.15);
            if (what == "both") p.dim = 2; std::string ctx = fmt("%s n=%d d=%d ple=%.3f alpha=%.3f R=%.3f threads=%d seeds %s%ld+%ld*i", what.c_str(), p.n, p.dim, p.ple, p.alpha, p.R, t, neg ? "-" : "", base, step);
            std::vector<std::vector<double>> idx; bool ok = true;
            for (int i = 0; i < M && ok; ++i) { auto o = draw(what, p, neg ? -1 - i : (int)((base + step * i) & 0x7fffffff), par, ctx); if (o.empty()) { ok = false; break; } if (idx.empty()) idx.resize(o.size() * p.n); for (size_t c = 0; c < o.size(); ++c) for (int q = 0; q < p.n; ++q) idx[c * p.n + q].push_back(o[c][q]); }
            if (!ok) continue;
            for (size_t i = 0; i < idx.size(); ++i) { ks(idx[i], what + "-index", fmt("entry %zu over the seeds; ", i) + ctx); std::vector<std::pair<double, double>> v; for (int q = 0; q + 1 < M; q += 2) v.emplace_back(idx[i][q], idx[i][q + 1]); joint(v, what + "-nextseed", fmt("entry %zu; ", i) + ctx); if ((p.R < 20 && p.alpha * p.R > 1 && p.ple < 3.01) || what == "positions" || what == "angles") dups(idx[i], what + (neg ? "-negative-seeds" : "-seeds"), ctx);
                for (size_t j = 0; j < i; ++j) { v.clear(); for (int q = 0; q < M; ++q) v.emplace_back(idx[i][q], idx[j][q]); joint(v, what + "-indices", fmt("entries %zu,%zu; ", i, j) + ctx); v.clear(); for (int q = 0; q + 1 < M; q += 2) v.emplace_back(idx[i][q], idx[j][q + 1]); joint(v, what + "-nextseed", fmt("entries %zu,%zu of consecutive seeds; ", i, j) + ctx); } }
            R().eval(); R().stat("seeds", M); R().seen(hash_vec(idx[0])); R().sample(ctx);
        } else { // P30: fresh randomness for negative seeds, distinct streams per thread and seed
            p.n = r.i(21000, 60000); bool small = r.p(.4); if (small) p.n = r.i(3, 40); else if (r.p(.4)) { p.n = r.i(95000, 330000); t = r.p(.5) ? 16 : r.i(9, 33); omp_set_num_threads(t); par = true; } p.R = std::max(4.0, std::min(p.R, 15.0)); p.alpha = std::max(p.alpha, .5); if (p.ple > 3) p.ple = 2.5; std::string ctx = fmt("%s n=%d d=%d threads=%d parallel=%d", what.c_str(), p.n, p.dim, t, par); int calls = small ? 20 : 3; std::vector<std::vector<std::vector<double>>> all;
            for (int q = 0; q < calls; ++q) { int sd = r.p(.5) ? -1 : r.p(.5) ? std::numeric_limits<int>::min() : -(int)r.i(1, 1 << 30); all.push_back(draw(what, p, sd, par, ctx)); }
            for (size_t c = 0; c < all[0].size(); ++c) { std::vector<double> u; for (auto& o : all) if (c < o.size()) u.insert(u.end(), o[c].begin(), o[c].end()); dups(u, what + "-negative-seed", ctx); if (!small) ks(u, what + "-negative-seed", ctx); }
            // all seeds base, base+T, base+2T with T threads: no common values anywhere
            long base = r.i(0, 1 << 28); all.clear(); for (int q = 0; q < calls; ++q) all.push_back(draw(what, p, (int)(base + (long)q * 64), par, ctx));
            for (size_t c = 0; c < all[0].size(); ++c) { std::vector<double> u; for (auto& o : all) if (c < o.size()) u.insert(u.end(), o[c].begin(), o[c].end()); dups(u, what + "-seeds-64-apart", ctx); }
            R().eval(); R().seen(mix(k * 77 + seed)); R().stat("seed_sets"); R().sample(ctx); } }
    for (auto& p : pool) { ks(p.second, "pooled-" + p.first, fmt("all %s sequences of this run pooled", p.first.c_str())); R().max("largest_pool", p.second.size()); }
    return R().done();
}
