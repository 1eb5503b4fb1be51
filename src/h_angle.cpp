// P22: angular cells against an independent integer model.
#include "vf.h"
#include <hypergirgs/AngleHelper.h>
using namespace vf; using A = hypergirgs::AngleHelper; static const double PI2 = 2 * 3.14159265358979323846;
static void pair(unsigned l, uint32_t a, uint32_t b) { uint64_t n = 1ull << l; uint32_t f = n - 1; long g = std::labs((long)a - (long)b); g = std::min<long>(g, n - g); std::string ctx = fmt("level=%u cells %u %u", l, f + a, f + b); if (A::touching(f + a, f + b, l) != (g <= 1)) R().viol("touching", ctx); long bw = g <= 1 ? 0 : g - 1; if (A::cellsBetween(f + a, f + b, l) != bw) R().viol("cells-between", ctx + fmt(": %d", A::cellsBetween(f + a, f + b, l))); double want = bw * (PI2 / n), got = A::dist(f + a, f + b, l); if (std::abs(got - want) > 4e-16 * want) R().viol("cell-distance", ctx + fmt(": %.17g instead of %.17g", got, want)); }
int main(int argc, char** argv) { Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 1000);
    if (a.i("all", 0)) for (unsigned l = 0; l <= 9; ++l) { for (uint32_t i = 0; i < 1u << l; ++i) for (uint32_t j = 0; j < 1u << l; ++j) pair(l, i, j); R().eval(1l << 2 * l); R().stat("exhaustive_cell_pairs", 1l << 2 * l); }
    for (long k = from; k < to; ++k) { Rng r(seed * 15485863ull + k, 4); unsigned l = r.p(.4) ? r.i(0, 4) : r.i(0, 29); uint64_t n = 1ull << l, f = n - 1; std::string ctx = fmt("level=%u ", l); if (A::numCellsInLevel(l) != n || A::firstCellOfLevel(l) != f || A::numChildren() != 2) R().viol("level-layout", ctx);
        uint32_t c = r.p(.1) ? 0 : r.p(.1) ? n - 1 : r.next() % n; double w = PI2 / n; auto b = A::bounds(f + c, l); ctx += fmt("cell %lu", f + c); double e = 1e-15 * PI2; if (std::abs(b.first - c * w) > e || std::abs(b.second - (c + 1.0) * w) > e) R().viol("bounds", ctx + fmt(": [%.17g,%.17g)", b.first, b.second));
        uint64_t c1 = A::firstChild(f + c), c2 = A::secondChild(f + c); if (c2 != c1 + 1 || c1 != 2 * n - 1 + 2ull * c) R().viol("children", ctx); if (A::parent(c1) != f + c || A::parent(c2) != f + c) R().viol("parent-of-child", ctx); auto b1 = A::bounds(c1, l + 1), b2 = A::bounds(c2, l + 1); if (std::abs(b1.first - b.first) > e || std::abs(b1.second - b2.first) > e || std::abs(b2.second - b.second) > e || std::abs(b1.second - (b.first + w / 2)) > e) R().viol("children-do-not-halve", ctx);
        pair(l, c, (uint32_t)((c + r.i(-3, 3) + 4 * n) % n)); pair(l, c, r.next() % n); pair(l, c, (c + n / 2 + r.i(0, 1)) % n);
        for (int q = 0; q < 4; ++q) { double x; switch (r.i(0, 3)) { case 0: x = r.u() * PI2; break; case 1: x = c * w; break; case 2: x = std::nextafter(c * w, r.p(.5) ? 0 : 10); break; default: x = r.p(.5) ? std::nextafter(PI2, 0) : r.logu(1e-300, 1e-3); } if (x >= PI2) x = std::nextafter(PI2, 0); if (x < 0) x = 0;
            uint64_t p = A::cellForPoint(x, l); if (p >= n) { R().viol("cell-of-point-out-of-range", ctx + fmt(" angle %.17g", x)); continue; } auto q2 = A::bounds(f + p, l); if (x < q2.first - e || x > q2.second + e) R().viol("point-outside-its-cell", ctx + fmt(" angle %.17g cell %lu", x, f + p)); uint64_t ch = A::cellForPoint(x, l + 1); if (ch >> 1 != p) { double bd = ((ch >> 1) > p ? p + 1.0 : (double)p) * w; if (std::abs(x - bd) > e) R().viol("parent-cell-of-point", ctx + fmt(" angle %.17g", x)); }
            double y = r.u() * PI2, d = std::abs(x - y); d = std::min(d, PI2 - d); if (A::dist(f + p, f + A::cellForPoint(y, l), l) > d + 4 * e) R().viol("cell-distance-exceeds-angle", ctx + fmt(" angles %.17g %.17g", x, y)); R().stat("points"); }
        R().eval(); R().seen(mix(f + c)); } R().sample("random cells of every level, neighbours, opposite cells, angles on and beside cell borders"); return R().done(); }
