// P27: bounds of the distance filter against the connection probability in long double
#include "hrg_cases.h"
#include <hypergirgs/DistanceFilter.h>
using namespace vf;
template<size_t S> static void one(Rng& r, const std::string& c0, double maxp, double Rd, double T, int per) {
    hypergirgs::DistanceFilter<S> f(maxp, Rd, T);
    auto p = [&](long double d) { return 1 / (1 + std::exp((d - Rd) / (2 * (long double)T))); };
    auto ac = [](long double c) { return c <= 1 ? 0.0L : std::log1p((c - 1) + std::sqrt((c - 1) * (c + 1))); };
    // distances the filter is asked about: those with probability <= maxp
    const long double dmin = maxp >= 1 ? 0 : std::max(0.0L, Rd + 2 * (long double)T * std::log(1.0L / maxp - 1));
    const long double span = Rd + 2 * T * std::log(S / (long double)maxp) + 1, relp = 1e-13L + 16 * 2.3e-16L * span / (2 * T);
    long active_u = 0, active_l = 0, saved = 0; uint64_t h = 3;
    for (int q = 0; q < per; ++q) {
        double x; switch (r.i(0, 5)) { case 0: x = maxp * r.i(0, S - 1) / S; break; case 1: x = std::nextafter(maxp * r.i(1, S) / S, 0.0); break; case 2: x = std::nextafter(maxp * r.i(0, S - 1) / S, 2.0); break; case 3: x = maxp * r.logu(1e-12, 1); break; default: x = maxp * r.u(); }
        if (!(x >= 0 && x < maxp)) x = std::nextafter(maxp, 0.0);
        if (q == 0) x = 0;
        if (q == 1) x = std::nextafter(maxp, 0.0);
        double up = f.coshDistForProb_upperBound(x), lo = f.coshDistForProb_lowerBound(x);
        auto ctx = fmt("%s r=%.17g bounds cosh %.17g %.17g", c0.c_str(), x, lo, up);
        if (std::isnan(up) || std::isnan(lo)) { R().viol("nan", ctx); continue; }
        if (up < 1) R().viol("upper-below-one", ctx);
        // just outside the bounds, where a rounded comparison of cosh values decides
        if (std::isfinite(up)) { long double d = std::max(dmin, ac(up * (1 + 4e-16L))), pd = p(d); ++active_u; if (pd > x + relp * std::min(1.0L, pd) + 1e-300L) R().viol("upper-unsafe", ctx + fmt(": distance %.17Lg beyond the upper bound has probability %.17Lg > r", d, pd)); }
        if (lo > 1) { long double d = ac(std::min((long double)lo, 1e4000L) * (1 - 4e-16L)); ++active_l; if (std::isinf(lo) && x > 0) R().viol("lower-unsafe", ctx + ": everything counts as connected");
            if (std::isfinite(lo)) { long double pd = p(d); if (pd < x - relp * x) R().viol("lower-unsafe", ctx + fmt(": distance %.17Lg below the lower bound has probability %.17Lg < r", d, pd)); } }
        // a coin flip at a random distance: deciding by the filter equals deciding by the probability
        long double d = r.p(.5) ? dmin + (span - dmin) * r.u() : dmin + 2 * T * r.u(0, 6); if (d > 700) continue;
        long double pd = p(d), cd = std::cosh(d); double c = (double)cd;
        if (std::abs(pd - x) > relp * std::max(pd, (long double)x) + 1e-18L) { bool want = x < pd; if (c > up) { ++saved; if (want) R().viol("flip-changed", ctx + fmt(": connected pair (distance %.17Lg, probability %.17Lg) rejected", d, pd)); } if (c < lo) { ++saved; if (!want) R().viol("flip-changed", ctx + fmt(": unconnected pair (distance %.17Lg, probability %.17Lg) accepted", d, pd)); } }
        h = mix(h ^ hash_bytes(&up, 8) ^ mix(hash_bytes(&lo, 8))); R().eval();
    }
    R().stat("finite_upper_bounds", active_u); R().stat("active_lower_bounds", active_l); R().stat("flips_decided_by_filter", saved); R().seen(h);
}
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 2000); int per = a.i("queries", 150);
    for (long k = from; k < to; ++k) {
        Rng r(seed * 553105253 + k, 27); double T, Rd, maxp;
        T = r.p(.6) ? r.u(.01, .99) : r.p(.5) ? r.logu(1e-4, 1) : r.u(1, 3);
        Rd = r.p(.6) ? r.u(1, 36) : r.p(.5) ? r.logu(1e-3, 1) : r.p(.2) ? 0 : r.u(36, 200);
        switch (r.i(0, 4)) { case 0: maxp = 1; break; case 1: maxp = std::nextafter(1.0, 0.0); break; case 2: maxp = r.logu(1e-12, 1); break; case 3: maxp = 1 - r.logu(1e-12, 1); break; default: maxp = r.u(1e-3, 1); }
        if (maxp <= 0) maxp = .5;
        if (Rd + 2 * T * std::log(1000 / maxp) > 690) continue;
        auto c = fmt("maxprob=%.17g R=%.17g T=%.17g case %lu:%ld", maxp, Rd, T, seed, k);
        switch (k % 4) { case 0: one<100>(r, c + " stages=100", maxp, Rd, T, per); break; case 1: one<1000>(r, c + " stages=1000", maxp, Rd, T, per); break; case 2: one<10>(r, c + " stages=10", maxp, Rd, T, per); break; default: one<7>(r, c + " stages=7", maxp, Rd, T, per); }
        R().sample(c);
    }
    return R().done();
}
