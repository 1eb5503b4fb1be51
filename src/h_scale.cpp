// P10: the factor of scaleWeights makes the exact expected average degree (closed form over uniform torus positions) the desired one.
#include "girg_cases.h"
#include <girgs/Generator.h>
using namespace vf;
static const double INF = std::numeric_limits<double>::infinity();
// expected average degree, naive over all pairs
static long double naive(const std::vector<double>& w, int d, double al) {
    long double W = 0, s = 0, hd = powl(.5L, d), a = al; for (auto x : w) W += x;
    for (size_t i = 0; i < w.size(); ++i) for (size_t j = i + 1; j < w.size(); ++j) { long double k = (long double)w[i] * w[j] / W, P;
        if (k >= hd) P = 1; else { long double q = k / hd; P = std::isinf(al) ? q : q - q / (1 - a) + powl(q, a) / (1 - a); }   // ball of volume 2^d k, and the integral of (k/r^d)^a beyond it
        s += P; }
    return 2 * s / w.size();
}
// the same in O(n log n) from prefix sums; pairs (i,j) with k < 2^-d are a suffix of j for sorted weights
static long double fast(std::vector<double> w, int d, double al) {
    std::sort(w.begin(), w.end()); size_t n = w.size(); long double W = 0, hd = powl(.5L, d), a = al; for (auto x : w) W += x;
    std::vector<long double> S(n + 1, 0), A(n + 1, 0), pa(n); for (size_t i = 0; i < n; ++i) { pa[i] = std::isinf(al) ? 0 : powl(w[i], a); S[i + 1] = S[i] + w[i]; A[i + 1] = A[i] + pa[i]; }
    long double Wa = std::isinf(al) ? 1 : powl(W, a), s = 0; size_t j = n;
    for (size_t i = 0; i < n; ++i) { while (j > 0 && (long double)w[i] * w[j - 1] / W >= hd) --j;   // partners [0,j) are not certain
        size_t m = j; long double ones = n - m, s1 = S[m], sa = A[m]; if (i < m) { s1 -= w[i]; sa -= pa[i]; } else ones -= 1;
        s += ones; if (std::isinf(al)) s += w[i] * s1 / W / hd; else s += (w[i] * s1 / W * (1 - 1 / (1 - a)) + powl(hd, 1 - a) / (1 - a) * pa[i] * sa / Wa) / hd; }
    return s / n;
}
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 100); int nmax = a.i("nmax", 400); bool big = a.i("big", 0), sample = a.i("sample", 0);
    const std::vector<int> th{1, 2, 3, 4, 5, 8, 16};
    for (long k = from; k < to; ++k) { Rng r(seed * 49979687 + k, 101); int t = r.pick(th); omp_set_num_threads(t);
        int n = big ? (int)r.logu(5000, nmax) : sample ? r.i(20, nmax) : r.p(.3) ? r.i(2, 12) : r.i(2, nmax), d = r.i(1, 5); std::string desc; std::vector<double> w;
        int kind = r.i(0, 6); cell_budget() = 1e18;
        if (kind <= 1 || big) { n = std::max(n, 3); double ple = r.p(.7) ? r.u(2.01, 3) : r.u(1.2, 5); w = girgs::generateWeights(n, ple, r.i(0, 1 << 30)); desc = fmt("ple=%.3f", ple); }
        else if (kind == 2) { w.assign(n, r.logu(1e-3, 1e3)); desc = "equal"; }
        else if (kind == 3) { w.resize(n); double hi = r.logu(2, 1e5), q = r.u(); for (auto& x : w) x = r.p(q) ? 1 : hi; desc = fmt("twoclass%.3g", hi); }
        else if (kind == 4) { w.resize(n); for (auto& x : w) x = r.u(1, 2); int h = r.i(1, 3); while (h--) w[r.i(0, n - 1)] *= r.logu(10, 1e6); desc = fmt("fewheavy ratio=%.3g", *std::max_element(w.begin(), w.end()) / *std::min_element(w.begin(), w.end())); }
        else if (kind == 5) { w.resize(n); double sg = r.u(.2, 3); for (auto& x : w) x = std::exp(sg * r.normal()); desc = fmt("lognormal%.2f", sg); }
        else { w = girg_weights(r, n, r.i(0, 7), desc, d); }
        n = w.size(); double deg = r.p(.12) ? n - 1 : r.p(.12) ? 1 : r.p(.5) ? r.logu(1, std::max(1.0, n - 1.0)) : r.u(1, std::max(1.0, n - 1.0)); deg = std::min(deg, n - 1.0); if (big || sample) deg = std::min(r.p(big ? .4 : 0) ? r.logu(200, 20000) : r.logu(1, 200), n / 3.0);
        double al = r.p(.3) ? INF : r.p(.2) ? r.u(.3, 1) : r.p(.15) ? r.u(1.0001, 1.1) : r.p(.1) ? (double)r.i(2, 8) : r.p(.15) ? r.logu(8.01, 1000) : r.u(1.05, 8); if (al == 1) al = 2;
        auto w0 = w; double s = girgs::scaleWeights(w, deg, d, al); std::string ctx = fmt("n=%d %s d=%d alpha=%.10g deg=%.10g threads=%d seed=%lu case=%ld", n, desc.c_str(), d, al, deg, t, (unsigned long)seed, k);
        if (!(s > 0) || std::isinf(s)) { R().viol("factor", fmt("factor %g; %s", s, ctx.c_str())); continue; }
        if (w.size() != w0.size()) { R().viol("size", ctx); continue; }
        size_t bad = n; for (size_t i = 0; i < w.size(); ++i) if (std::abs(w[i] - w0[i] * s) > 1e-14 * w0[i] * s) { bad = i; break; }
        if (bad != (size_t)n) { R().viol("not-multiplied", fmt("entry %zu: %.17g * %.17g became %.17g; %s", bad, w0[bad], s, w[bad], ctx.c_str())); continue; }
        long double e = n <= 300 ? naive(w, d, al) : fast(w, d, al > 8 ? INF : al);   // large finite alpha: the threshold estimate is the documented approximation
        if (n <= 300 && n > 250 && !std::isinf(al) && al > 1.05 && al < 8) { long double f = fast(w, d, al); if (std::abs(f - e) > 1e-6L * (1 + e)) { printf("HARNESS-ERROR oracle %Lg %Lg %s\n", e, f, ctx.c_str()); return 99; } }
        double tol = .03 + 1e-6 * deg; double dev = std::abs((double)e - deg);
        if (al > 8 && !std::isinf(al)) { double et = n <= 300 ? naive(w, d, INF) : fast(w, d, INF); dev = std::min(dev, std::abs(et - deg)); }   // the threshold estimate is the documented approximation
        if (!(dev <= tol)) R().viol(std::string("degree:") + (std::isinf(al) ? "threshold" : al > 8 ? "largealpha" : al < 1 ? "smallalpha" : "alpha"), fmt("expected average degree %.6Lg instead of %.6g after scaling by %.6g; %s", e, deg, s, ctx.c_str()));
        if (sample) { // the model really has this degree: sampled graphs over fresh uniform positions
            if (al < .8) { continue; } int N = a.i("N", 60); double sum = 0, sq = 0; d = std::min(d, 3); w = w0; girgs::scaleWeights(w, deg, d, al); double want = naive(w, d, al);
            for (int q = 0; q < N; ++q) { Pos x(n, std::vector<double>(d)); for (auto& p : x) for (auto& c : p) c = r.u(); double m = 2.0 * girgs::generateEdges(w, x, al, r.i(0, 1 << 30)).size() / n; sum += m; sq += m * m; }
            double mean = sum / N, sd = std::sqrt(std::max(0.0, sq / N - mean * mean) / N) + .02 * std::sqrt(want / n / N) + 1e-9; R().stat("sampled_graphs", N);
            if (std::abs(mean - want) > 8 * sd + 1e-3) R().viol("sampled-degree", fmt("mean sampled degree %.4f +- %.4f, model %.4f; %s", mean, sd, want, ctx.c_str())); }
        R().eval(); R().max("max_deviation", dev); R().stat(std::isinf(al) ? "threshold" : al > 8 ? "largealpha" : al < 1 ? "smallalpha" : "alpha"); R().seen(mix(hash_vec(w0) ^ std::hash<std::string>()(ctx))); R().sample(ctx + fmt(" exact=%.5Lg", e)); }
    return R().done();
}
