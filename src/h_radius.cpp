// P14: radius formulas against independent evaluations; sampled graphs against numerical integration of the model.
#include "vf.h"
#include <hypergirgs/Generator.h>
using namespace vf; typedef long double L; static const L PIl = 3.14159265358979323846264338327950288L;
static L nk_degree(L n, L a, L R) { L xi = a / (a - .5L); return 2 / PIl * xi * xi * n * (-expl(-R / 2) * expm1l(-(a - .5L) * R) + expl(-a * R) * (R / 2) * (a - .5L) * ((PIl - 2) * a - PIl / 2) / a); }
static L closed(L n, L a, L T, L deg) { L t = T == 0 ? 1 / PIl : T / sinl(PIl * T); return 2 * logl(n * 2 * a * a * t / (deg * (a - .5L) * (a - .5L))); }
static double model_degree(double n, double a, double T, double R) { // numerical integration
    int G = 260, F = T > 0 ? 200 : 1; std::vector<double> r(G), f(G); double s = 0; for (int i = 0; i < G; ++i) { r[i] = R * (i + .5) / G; f[i] = std::sinh(a * r[i]); s += f[i]; } for (auto& x : f) x /= s;
    double tot = 0, cR = std::cosh(R); std::vector<double> ph(F), wt(F); double lo = std::log(1e-3 * std::exp(-R / 2)), hi = std::log((double)PIl); for (int k = 0; k < F && T > 0; ++k) { double x = lo + (hi - lo) * (k + .5) / F; ph[k] = std::exp(x); wt[k] = ph[k] * (hi - lo) / F / (double)PIl; }
    for (int i = 0; i < G; ++i) for (int j = 0; j <= i; ++j) { double w = f[i] * f[j] * (i == j ? 1 : 2), p = 0, ss = std::sinh(r[i]) * std::sinh(r[j]), c0 = std::cosh(r[i] - r[j]);
        if (T == 0) { double x = (std::cosh(r[i]) * std::cosh(r[j]) - cR) / ss; p = x <= -1 ? 1 : x >= 1 ? 0 : std::acos(x) / (double)PIl; }
        else { p = std::exp(lo) / (double)PIl / (1 + std::exp((std::acosh(c0) - R) / (2 * T))); for (int k = 0; k < F; ++k) { double sn = std::sin(ph[k] / 2), d = std::acosh(c0 + 2 * sn * sn * ss); p += wt[k] / (1 + std::exp((d - R) / (2 * T))); } }
        tot += w * p; }
    return tot * (n - 1); }
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 1000); bool sample = a.i("sample", 0);
    for (long k = from; k < to; ++k) { Rng r(seed * 15485867 + k, 121);
        if (!sample) { int n = r.p(.3) ? r.i(2, 60) : r.p(.2) ? 1000000000 : (int)r.logu(2, 1.9e9); double al = r.p(.25) ? .5 + r.logu(1e-12, .5) : r.p(.1) ? 1.0 : r.u(.500001, 1), T = r.p(.45) ? 0 : r.p(.2) ? r.logu(1e-12, 1e-2) : r.p(.2) ? 1 - r.logu(1e-9, .5) : r.u(0, .999), deg = r.p(.15) ? n - 1 : r.p(.15) ? 1 : r.logu(1, n); deg = std::min(deg, n - 1.0);
            std::string ctx = fmt("n=%d alpha=%.17g T=%.17g deg=%.17g", n, al, T, deg); L ref = closed(n, al, T, deg), tol = 1e-12L * (1 + fabsl(ref)) + (T > 0 ? 4e-15L / sinl(PIl * T) * T + 1e-15L : 0);
            double R = hypergirgs::calculateRadius(n, al, T, deg); if (!(fabsl(R - ref) <= tol)) vf::R().viol("closed-form", fmt("R=%.17g instead of %.17Lg; %s", R, ref, ctx.c_str()));
            double Q = hypergirgs::calculateRadiusLikeNetworKit(n, al, T, deg);
            if (T > 0) { if (!(fabsl(Q - ref) <= tol)) vf::R().viol("networkit-closed-form", fmt("R=%.17g instead of %.17Lg; %s", Q, ref, ctx.c_str())); vf::R().stat("positive_temperature"); }
            else { L e = nk_degree(n, al, Q); L rt = 1e-9L + 2e-14L / (al - .5L); bool ok = fabsl(e - deg) <= .01L * 1.001L + rt * deg; // the degree at the returned radius, on the decreasing branch
                if (!ok) { L best = 0, at = 0; for (L x = 1e-6L; x < 4000; x *= 1.01L) { L d = nk_degree(n, al, x); if (d > best) best = d, at = x; } vf::R().stat("unattainable_degree");
                    if (!(best < deg + .02L + rt * deg && e > best * (.99L - rt) - .02L)) vf::R().viol("networkit-degree", fmt("R=%.17g has expected degree %.6Lg (maximum %.6Lg at %.4Lg); %s", Q, e, best, at, ctx.c_str())); }
                else if (nk_degree(n, al, Q * 1.01L) > e * (1 + rt) + .01L) vf::R().viol("networkit-branch", fmt("R=%.17g is on the increasing branch; %s", Q, ctx.c_str()));
                double deg2 = deg * r.u(.2, .9); if (deg2 >= 1 && deg - deg2 > .05 + 3 * rt * deg && ok) { double Q2 = hypergirgs::calculateRadiusLikeNetworKit(n, al, T, deg2); if (!(Q2 > Q)) vf::R().viol("networkit-monotone", fmt("deg %.6g gives R=%.9g, deg %.6g gives %.9g; %s", deg, Q, deg2, Q2, ctx.c_str())); } }
            { double deg2 = deg * r.u(.5, .999); int n2 = n < 1000000000 ? n + (int)std::max(1.0, n * r.u(.001, .5)) : n; if (!(hypergirgs::calculateRadius(n, al, T, deg2) > R)) vf::R().viol("monotone-degree", ctx); if (n2 > n && !(hypergirgs::calculateRadius(n2, al, T, deg) > R)) vf::R().viol("monotone-n", ctx); }
            vf::R().eval(); vf::R().seen(mix(std::hash<std::string>()(ctx))); vf::R().sample(ctx + fmt(" R=%.6g nkR=%.6g", R, Q));
        } else { bool nk = r.p(.4); int n = (int)r.logu(1500, a.i("nmax", 20000)); double al = r.u(.62, 1), T = r.p(.5) ? 0 : r.u(.05, .8), deg = r.logu(2, 60); int N = a.i("N", 40); omp_set_num_threads(r.i(1, 4));
            std::string ctx = fmt("n=%d alpha=%.4f T=%.3f deg=%.3f nkr=%d", n, al, T, deg, nk); double R = nk ? hypergirgs::calculateRadiusLikeNetworKit(n, al, T, deg) : hypergirgs::calculateRadius(n, al, T, deg); double want = model_degree(n, al, T, R), sum = 0, sq = 0;
            for (int q = 0; q < N; ++q) { std::vector<double> rr, aa; int s1 = r.i(0, 1 << 30); if (r.p(.5)) { auto p = hypergirgs::sampleRadiiAndAngles(n, al, R, s1); rr = p.first; aa = p.second; } else { rr = hypergirgs::sampleRadii(n, al, R, s1); aa = hypergirgs::sampleAngles(n, r.i(0, 1 << 30)); } double m = 2.0 * hypergirgs::generateEdges(rr, aa, T, R, r.i(0, 1 << 30)).size() / n; sum += m; sq += m * m; }
            double mean = sum / N, sd = std::sqrt(std::max(0.0, sq / N - mean * mean) / (N - 1)); vf::R().stat("sampled_graphs", N);
            if (std::abs(mean - want) > 9 * sd + .012 * want) vf::R().viol("sampled-degree", fmt("mean degree %.4f +- %.4f, the model has %.4f for R=%.6g; %s", mean, sd, want, R, ctx.c_str()));
            double dev = std::abs(want / deg - 1); vf::R().max("max_finite_size_deviation", dev); vf::R().max("max_sampling_deviation", std::abs(mean / want - 1));
            if (a.i("loud", 0)) fprintf(stderr, "%s R=%.3f model %.3f mean %.3f +- %.3f dev %.3f\n", ctx.c_str(), R, want, mean, sd, want / deg - 1);
            vf::R().eval(); vf::R().seen(mix(std::hash<std::string>()(ctx))); vf::R().sample(ctx + fmt(" R=%.6g model=%.4f sampled=%.4f+-%.4f", R, want, mean, sd)); } }
    return vf::R().done();
}
