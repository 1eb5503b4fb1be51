// P26: every hyperbolic distance function against long double evaluations of the law of cosines
#include "hrg_cases.h"
#include <hypergirgs/Point.h>
using namespace vf;
using hypergirgs::Point;
// interval of distances whose cosh lies within err of the true value
static void interval(long double c1, long double err, long double& lo, long double& hi) {
    auto ac = [](long double x) { return x <= 0 ? 0.0L : std::log1p(x + std::sqrt(x) * std::sqrt(x + 2)); };   // acosh(1+x)
    lo = ac(c1 - err) * (1 - 8e-16L) - 1e-300L; hi = ac(c1 + err) * (1 + 8e-16L) + 1e-300L;
}
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 300); int per = a.i("pairs", 400);
    for (long k = from; k < to; ++k) {
        Rng r(seed * 472882027 + k, 26);
        bool huge = r.p(.25); const int n = r.i(2, 60);
        HrgCase h = hrg_case(r, n, huge ? r.u(36, 300) : -1);
        std::vector<Point> pt; for (int i = 0; i < n; ++i) pt.emplace_back(i, h.r[i], h.a[i]);
        const double coshR = std::cosh(h.R); long near = 0, far = 0, closer = 0; uint64_t hs = 1;
        for (int q = 0; q < per; ++q) {
            int i = r.i(0, n - 1), j = r.p(.1) ? i : r.i(0, n - 1);
            double r1 = h.r[i], p1 = h.a[i], r2 = h.r[j], p2 = h.a[j];
            long double c1 = hcosh1(r1, p1, r2, p2), err = hcosh_err(r1, r2, 0), lo, hi; interval(c1, err, lo, hi);
            auto ctx = fmt("(%.17g,%.17g) (%.17g,%.17g) R=%.17g case %lu:%ld", r1, p1, r2, p2, h.R, seed, k);
            auto chk = [&](const char* what, double d) {
                if (std::isnan(d)) R().viol(std::string("nan:") + what, ctx);
                else if (d < 0) R().viol(std::string("negative:") + what, ctx + fmt(" %.17g", d));
                else if (!(d >= lo && d <= hi)) R().viol(std::string("wrong-distance:") + what, ctx + fmt(": %.17g, must be in [%.17Lg,%.17Lg]", d, lo, hi));
            };
            // on one ray the free function has no cancellation: the distance is |r1 - r2|
            { long double x = std::cosh((long double)r1 - r2) - 1, e = 12 * 1.2e-16L * (x + 1), l2, h2; interval(x, e, l2, h2); double d = hypergirgs::hyperbolicDistance(r1, p1, r2, p1), q = hypergirgs::hyperbolicDistance(r2, p1, r1, p1); if (!(d >= l2 && d <= h2)) R().viol("same-ray", ctx + fmt(": %.17g, |r1-r2| = %.17g", d, std::abs(r1 - r2))); (void)q; }
            double d = hypergirgs::hyperbolicDistance(r1, p1, r2, p2); chk("free", d); chk("free-swapped", hypergirgs::hyperbolicDistance(r2, p2, r1, p1));
            chk("point", pt[i].hyperbolicDistance(pt[j])); chk("point-swapped", pt[j].hyperbolicDistance(pt[i]));
            for (int s = 0; s < 2; ++s) {
                double c = s ? pt[j].hyperbolicDistanceCosh(pt[i]) : pt[i].hyperbolicDistanceCosh(pt[j]);
                if (!(c >= 1)) R().viol("cosh-below-1", ctx + fmt(" %.17g", c));
                else if (!(std::abs((long double)c - (1 + c1)) <= err + 4e-16L * (1 + c1))) R().viol("wrong-cosh", ctx + fmt(": %.17g, law of cosines %.17Lg", c, 1 + c1));
            }
            // rotation of both points
            double rot = r.p(.3) ? TWO_PI / 2 : r.u() * TWO_PI, q1 = clampa(p1 + rot), q2 = clampa(p2 + rot);
            chk("free-rotated", hypergirgs::hyperbolicDistance(r1, q1, r2, q2)); { Point x(0, r1, q1), y(1, r2, q2); chk("point-rotated", x.hyperbolicDistance(y)); }
            // fast threshold test, for the disc's R and for an R close to the pair's own distance
            for (int s = 0; s < 3; ++s) {
                double cr = coshR; if (s) { double f = r.logu(1e-15, 1e-1) * (r.p(.5) ? 1 : -1); cr = (double)((1 + c1) * (1 + f)); }
                if (!(cr > std::sinh(std::max(r1, r2)) * (1 + 1e-14)) || !std::isfinite(cr)) continue;   // documented use: R at least the radii
                long double gap = (1 + c1) - cr, e = err + 24 * 1.2e-16L * cr; bool want = gap < 0;
                if (std::abs(gap) <= e) { ++near; continue; }
                ++far; closer += want;
                if (pt[i].isDistanceBelowR(pt[j], cr) != want || pt[j].isDistanceBelowR(pt[i], cr) != want) R().viol("fast-test", ctx + fmt(": isDistanceBelowR says %d, cosh d = %.17Lg, cosh R = %.17g", !want, 1 + c1, cr));
            }
            hs = mix(hs ^ hash_bytes(&d, 8)); R().eval();
        }
        R().stat("pairs", per); R().stat("fast_tests_decided", far); R().stat("fast_tests_closer", closer); R().stat("fast_tests_within_rounding", near); if (huge) R().stat("large_discs"); R().seen(hs); R().sample(h.desc);
    }
    return R().done();
}
