// P28: the maps between hyperbolic and GIRG coordinates
#include "hrg_cases.h"
#include <girgs/Hyperbolic.h>
using namespace vf;
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 2000); int per = a.i("pairs", 200); const long double PIL = 3.14159265358979323846264338327950288L;
    for (long k = from; k < to; ++k) {
        Rng r(seed * 633910099 + k, 28); double Rd = r.p(.5) ? r.u(1, 40) : r.p(.5) ? r.logu(1e-3, 1) : r.u(40, 700); HrgCase h = hrg_case(r, r.i(2, 40), Rd); const int n = h.r.size(); uint64_t hs = 9; double top = std::nextafter(TWO_PI, 0.0);
        // beyond the disc, too: weights below 1
        for (auto& x : h.r) if (r.p(.1)) x = Rd * r.u(1, 1.5);
        auto tol = [&](long double x) { return 4e-16L * (std::abs((long double)Rd) + std::abs(x) + 4); };
        for (int q = 0; q < per; ++q) {
            int i = r.i(0, n - 1), j = r.i(0, n - 1); double ra = h.r[i], rb = h.r[j], pa = r.p(.02) ? TWO_PI : r.p(.02) ? top : h.a[i], pb = h.a[j]; auto ctx = fmt("r=%.17g,%.17g phi=%.17g,%.17g R=%.17g case %lu:%ld", ra, rb, pa, pb, Rd, seed, k);
            double wa = girgs::radiusToGirgWeight(ra, Rd), wb = girgs::radiusToGirgWeight(rb, Rd); long double w = std::exp(((long double)Rd - ra) / 2);
            if (!(wa > 0) || std::abs(wa - w) > tol(ra) * w) R().viol("weight", ctx + fmt(": %.17g instead of %.17Lg", wa, w));
            if ((ra < rb && wa < wb) || (ra > rb && wa > wb)) R().viol("not-decreasing", ctx);
            double back = girgs::girgWeightToRadius(wa, Rd); if (!(std::abs((long double)back - ra) <= tol(ra))) R().viol("radius-round-trip", ctx + fmt(": %.17g", back));
            // any scaling: weights multiplied by s are mapped with that s
            double s = r.p(.5) ? r.logu(1e-6, 1e6) : r.u(.1, 10), sw = wa * s; if (std::isfinite(sw) && sw > 1e-290) { double b2 = girgs::girgWeightToRadius(sw, Rd, s); if (!(std::abs((long double)b2 - ra) <= tol(ra))) R().viol("scaled-round-trip", ctx + fmt(" scaling %.17g: %.17g", s, b2)); }
            // weight -> radius -> weight
            double wt = r.logu(1e-6, 1e9), rr = girgs::girgWeightToRadius(wt, Rd, s), w2 = girgs::radiusToGirgWeight(rr, Rd) * s; if (!(std::abs(w2 - wt) <= (tol(rr) + 1e-15L * std::abs(std::log(wt / s))) * wt)) R().viol("weight-round-trip", ctx + fmt(" weight %.17g scaling %.17g: %.17g", wt, s, w2));
            if (!(std::abs((long double)rr - ((long double)Rd - 2 * std::log((long double)wt / s))) <= tol(rr))) R().viol("radius", ctx + fmt(" weight %.17g scaling %.17g: %.17g", wt, s, rr));
            // angles and positions
            double xa = girgs::angleToGirgPosition(pa), xb = girgs::angleToGirgPosition(pb); if (!(xa >= 0 && xa <= 1)) R().viol("position-range", ctx + fmt(": %.17g", xa));
            if (!(std::abs((long double)xa - pa / (2 * PIL)) <= 4e-16L * xa + 1e-320L)) R().viol("position", ctx + fmt(": %.17g", xa));
            if (!(std::abs(girgs::girgPositionToAngle(xa) - pa) <= 9e-16 * pa + 1e-320)) R().viol("angle-round-trip", ctx + fmt(": %.17g", girgs::girgPositionToAngle(xa)));
            double x = r.p(.1) ? 1 - 0x1p-53 : r.u(), ph = girgs::girgPositionToAngle(x); if (!(std::abs((long double)ph - x * 2 * PIL) <= 4e-16L * ph)) R().viol("angle", ctx + fmt(" position %.17g: %.17g", x, ph));
            if (!(std::abs(girgs::angleToGirgPosition(ph) - x) <= 4e-16 * x)) R().viol("position-round-trip", ctx + fmt(" position %.17g: %.17g", x, girgs::angleToGirgPosition(ph)));
            long double da = std::abs((long double)pa - pb), dx = std::abs((long double)xa - xb); da = std::min(da, 2 * PIL - da); dx = std::min(dx, 1 - dx); if (!(std::abs(da - 2 * PIL * dx) <= 6e-15L)) R().viol("geometry", ctx + fmt(": angular distance %.17Lg, torus distance %.17Lg", da, dx));
            hs = mix(hs ^ hash_bytes(&wa, 8) ^ mix(hash_bytes(&xa, 8))); R().eval();
        }
        R().stat("pairs", per); R().seen(hs); R().sample(h.desc);
    }
    return R().done();
}
