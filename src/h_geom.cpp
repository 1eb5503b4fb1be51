// P21: cells of the GIRG grid against an independent integer model.
#include "vf.h"
#include <immintrin.h>
#include <array>
#include <string>
#include <girgs/Node.h>
#include <girgs/Helper.h>
#include <girgs/SpatialTreeCoordinateHelper.h>
#include <girgs/BitManipulationBMI2.inl>
using namespace vf;
template<unsigned D> using Co = std::array<uint32_t, D>;
template<unsigned D> static uint32_t weave(const Co<D>& c) { uint32_t r = 0; for (unsigned b = 0; b < 32; ++b) if (c[b % D] >> (b / D) & 1) r |= 1u << b; return r; }
template<unsigned D> static Co<D> unweave(uint32_t x) { Co<D> c{}; for (unsigned b = 0; b < 32; ++b) if (x >> b & 1) c[b % D] |= 1u << (b / D); return c; }
template<unsigned D> static std::string show(const Co<D>& c) { std::string s; for (auto x : c) s += fmt("%u ", x); return s; }
static bool g_bmi = __builtin_cpu_supports("bmi2");
template<unsigned D> static void bits(Rng& r, long k) { using G = girgs::BitManipulationDetails::Generic::Implementation<D>; using B = girgs::BitManipulationDetails::BMI2::Implementation<D>; using L = girgs::BitManipulation<D>;
    uint32_t x = r.p(.3) ? 1u << r.i(0, 31) : r.p(.3) ? (uint32_t)k : (uint32_t)r.next(); if (32 / D * D < 32) x &= (1u << (32 / D * D)) - 1; /* equally many bits per coordinate */ Co<D> c = unweave<D>(x); std::string ctx = fmt("D=%u code=%#x", D, x);
    if (G::extract(x) != c) R().viol("extract-generic", ctx); if (G::deposit(c) != x) R().viol("deposit-generic", ctx); if (L::extract(x) != c || L::deposit(c) != x) R().viol("configured-implementation", ctx);
    if (g_bmi) { if (B::extract(x) != c) R().viol("extract-bmi2", ctx); if (B::deposit(c) != x) R().viol("deposit-bmi2", ctx); R().stat("bmi2_comparisons"); } R().stat("codes"); }
template<unsigned D> static void cells(Rng& r) { using H = girgs::SpatialTreeCoordinateHelper<D>; const unsigned maxl = 30 / D; unsigned l = r.p(.5) ? r.i(0, std::min(4u, maxl)) : r.i(0, maxl); uint64_t num = 1ull << (D * l), first = 0; for (unsigned i = 0; i < l; ++i) first += 1ull << (D * i); std::string ctx = fmt("D=%u level=%u ", D, l);
    if (H::numChildren() != (1u << D)) R().viol("children-count", ctx); if (H::numCellsInLevel(l) != num) R().viol("cells-of-level", ctx); if (H::firstCellOfLevel(l) != first) R().viol("first-cell-of-level", ctx);
    auto local = [&] { return r.p(.15) ? 0ul : r.p(.15) ? (uint64_t)num - 1 : r.next() % num; }; uint32_t a = local(), b = r.p(.5) ? 0 : local(); auto ca = unweave<D>(a); const long side = 1l << l;
    if (b == 0 && r.p(.9)) { auto cb = ca; for (auto& x : cb) x = (uint32_t)((x + r.i(-2, 2) + 4 * side) % side); b = weave<D>(cb); } auto cb = unweave<D>(b); uint32_t A = first + a, B = first + b; ctx += fmt("cells %u %u", A, B);
    if (H::cellOfLevel(A) != a) R().viol("index-in-level", ctx + fmt(" gives %u", H::cellOfLevel(A)));
    double w = std::ldexp(1.0, -(int)l); auto bo = H::bounds(A, l); for (unsigned d = 0; d < D; ++d) if (bo[d].first != ca[d] * w || bo[d].second != (ca[d] + 1) * w) R().viol("bounds", ctx + fmt(" axis %u: [%.17g,%.17g)", d, bo[d].first, bo[d].second));
    long m = 0, touch = 1; for (unsigned d = 0; d < D; ++d) { long g = std::labs((long)ca[d] - (long)cb[d]); g = std::min(g, side - g); m = std::max(m, g); if (g > 1) touch = 0; }
    if (H::touching(A, B, l) != (bool)touch || H::touching(B, A, l) != (bool)touch) R().viol("touching", ctx + fmt(" coordinates %s/ %s", show<D>(ca).c_str(), show<D>(cb).c_str())); double dist = m > 0 ? (m - 1) * w : 0; if (H::dist(A, B, l) != dist || H::dist(B, A, l) != dist) R().viol("cell-distance", ctx + fmt(" %.17g instead of %.17g", H::dist(A, B, l), dist));
    // children and parents
    if (l < maxl) { uint64_t fc = H::firstChild(A), lc = H::lastChild(A); if (lc - fc + 1 != (1u << D)) R().viol("child-range", ctx); std::set<uint32_t> seen; for (uint64_t c = fc; c <= lc && c - fc < 64; ++c) { if (H::parent(c) != A) R().viol("parent-of-child", ctx); auto q = H::bounds(c, l + 1); uint32_t id = 0; for (unsigned d = 0; d < D; ++d) { if (q[d].second - q[d].first != w / 2 || q[d].first < bo[d].first || q[d].second > bo[d].second) R().viol("child-bounds", ctx); if (q[d].first != bo[d].first) id |= 1u << d; } seen.insert(id); } if (seen.size() != (1u << D)) R().viol("children-do-not-partition", ctx); if (fc != first + num + ((uint64_t)a << D)) R().viol("first-child", ctx); }
    // points
    for (int q = 0; q < 3; ++q) { std::array<double, D> p; for (auto& x : p) { switch (r.i(0, 4)) { case 0: x = r.u(); break; case 1: x = std::ldexp((double)r.i(0, (1 << 20) - 1), -20); break; case 2: x = (r.next() % side) * w; break; case 3: { double y = (r.next() % side) * w; x = y == 0 ? std::nextafter(1.0, 0.0) : std::nextafter(y, 0.0); break; } default: x = r.p(.5) ? 0 : std::nextafter((r.next() % side) * w, 2.0); } if (x >= 1) x = std::nextafter(1.0, 0.0); }
        uint32_t c = H::cellForPoint(p, l); Co<D> want; for (unsigned d = 0; d < D; ++d) want[d] = (uint32_t)std::floor(std::ldexp(p[d], l)); if (c != weave<D>(want)) R().viol("cell-of-point", ctx + fmt(" local %u instead of %u", c, weave<D>(want))); else { auto q2 = H::bounds(first + c, l); for (unsigned d = 0; d < D; ++d) if (!(q2[d].first <= p[d] && p[d] < q2[d].second)) R().viol("point-outside-its-cell", ctx); } if (l > 0 && (H::cellForPoint(p, l - 1) != c >> D)) R().viol("parent-cell-of-point", ctx);
        // node distance, distance of points against distance of their cells
        std::array<double, D> p2; for (auto& x : p2) x = r.u(); if (r.p(.3)) p2 = p; if (r.p(.3)) for (auto& x : p2) if (r.p(.5)) x = r.p(.5) ? 0 : std::nextafter(1.0, 0.0); std::vector<double> v(p.begin(), p.end()), v2(p2.begin(), p2.end()); girgs::Node<D> n1(v, 1, 0), n2(v2, 1, 1); double t = n1.distance(n2), want2 = torus(v, v2); if (t != want2 || n2.distance(n1) != t) R().viol("node-distance", ctx + fmt(" %.17g instead of %.17g", t, want2)); if (H::dist(first + c, first + H::cellForPoint(p2, l), l) > t + 1e-15) R().viol("cell-distance-exceeds-point-distance", ctx);
        double x = r.p(.5) ? r.u() : r.logu(1e-20, 1e5), pw = girgs::pow_to_the<D>(x); long double ref = ipow((long double)x, D); if (std::abs(pw - ref) > 1e-15L * ref) R().viol("power", fmt("%.17g to the %u: %.17g", x, D, pw)); }
    R().stat("cell_pairs"); R().seen(mix(mix(A) ^ ((uint64_t)B << 20) ^ (D * 77 + l))); }
template<unsigned D> static void exhaustive(unsigned lmax) { using H = girgs::SpatialTreeCoordinateHelper<D>; for (unsigned l = 0; l <= lmax; ++l) { uint32_t f = H::firstCellOfLevel(l), n = H::numCellsInLevel(l); long side = 1l << l; double w = std::ldexp(1.0, -(int)l); for (uint32_t a = 0; a < n; ++a) { auto ca = unweave<D>(a); for (uint32_t b = 0; b < n; ++b) { auto cb = unweave<D>(b); long m = 0; for (unsigned d = 0; d < D; ++d) { long g = std::labs((long)ca[d] - (long)cb[d]); m = std::max(m, std::min(g, side - g)); } if (H::touching(f + a, f + b, l) != (m <= 1)) R().viol("touching", fmt("D=%u level=%u cells %u %u", D, l, f + a, f + b)); if (H::dist(f + a, f + b, l) != (m > 0 ? (m - 1) * w : 0)) R().viol("cell-distance", fmt("D=%u level=%u cells %u %u", D, l, f + a, f + b)); } } R().stat("exhaustive_cell_pairs", (long)n * n); R().eval((long)n * n); } }
int main(int argc, char** argv) { Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 1000);
    if (a.i("all", 0)) { exhaustive<1>(10); exhaustive<2>(5); exhaustive<3>(3); exhaustive<4>(2); exhaustive<5>(2); }
    for (long k = from; k < to; ++k) { Rng r(seed * 22801763489ull + k, 2); switch (k % 5) { case 0: bits<1>(r, k); cells<1>(r); break; case 1: bits<2>(r, k); cells<2>(r); break; case 2: bits<3>(r, k); cells<3>(r); break; case 3: bits<4>(r, k); cells<4>(r); break; default: bits<5>(r, k); cells<5>(r); } R().eval(); }
    R().sample("random cells of every dimension and level, neighbours within two cells, points on and beside cell borders"); return R().done(); }
