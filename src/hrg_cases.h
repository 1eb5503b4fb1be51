#pragma once
// Hostile hyperbolic instances
#include "vf.h"
namespace vf {
constexpr double TWO_PI = 2 * 3.14159265358979323846;
struct HrgCase { std::vector<double> r, a; double R = 1; std::string desc; };
inline double clampr(double x, double R) { if (!(x > 0)) return 0; return x >= R ? std::nextafter(R, 0.0) : x; }
inline double clampa(double x) { x = std::fmod(x, TWO_PI); if (x < 0) x += TWO_PI; if (!(x >= 0)) x = 0; return x >= TWO_PI ? std::nextafter(TWO_PI, 0.0) : x; }
inline void hrg_radii(Rng& g, HrgCase& c, int n, int kind) {
    const double R = c.R, h = std::min(1.0, R); c.r.resize(n); std::string d;
    switch (kind) {
        case 0: { double al = g.u(.51, 1.2); for (auto& x : c.r) x = std::acosh(1 + g.u() * (std::cosh(al * R) - 1)) / al; d = fmt("model%.2f", al); break; }
        case 1: for (auto& x : c.r) x = g.u() * R; d = "uniform"; break;
        case 2: for (auto& x : c.r) { x = R - g.i(0, (long)(R / h) + 1) * h; int k = g.i(0, 2); if (k) x = std::nextafter(x, k == 1 ? 0.0 : 1e9); } d = "layerborder+-ulp"; break;
        case 3: { double s = g.logu(1e-300, 1); for (auto& x : c.r) x = g.p(.3) ? 0 : g.p(.5) ? g.logu(1e-310, 1) * s : g.u() * R; d = "center"; break; }
        case 4: { double s = g.logu(1e-9, 1); for (auto& x : c.r) x = R * (1 - s * g.u()) ; d = "rim"; break; }
        case 5: for (auto& x : c.r) x = g.p(.5) ? std::floor(g.u() * R) : R / 2 * (1 + g.u(-1e-6, 1e-6)); d = "ints+half"; break;
        case 6: { double x0 = g.u() * R; for (auto& x : c.r) x = x0; d = "equal"; break; }
        default: { int hv = g.i(1, 4); for (auto& x : c.r) x = R * (1 - .2 * g.u()); for (int k = 0; k < hv && n; ++k) c.r[g.i(0, n - 1)] = g.u() * R * .5; d = "fewinner"; break; }
    }
    for (auto& x : c.r) x = clampr(x, R);
    c.desc += " r=" + d;
}
inline void hrg_angles(Rng& g, HrgCase& c, int n, int kind) {
    c.a.resize(n); std::string d; const double top = std::nextafter(TWO_PI, 0.0);
    switch (kind) {
        case 0: case 1: for (auto& x : c.a) x = g.u() * TWO_PI; d = "uniform"; break;
        case 2: { int m = g.i(1, 10); for (auto& x : c.a) { x = std::ldexp((double)g.i(0, (1l << m) - 1), -m) * TWO_PI; int k = g.i(0, 2); if (k) x = std::nextafter(x, k == 1 ? 0.0 : 10.0); } d = "cellborder+-ulp"; break; }
        case 3: { double s = g.logu(1e-12, 1), p0 = g.p(.5) ? 0 : g.u() * TWO_PI; for (auto& x : c.a) x = p0 + s * (g.u() - .5); d = fmt("cluster%.0e", s); break; }
        case 4: for (auto& x : c.a) { int k = g.i(0, 4); x = k == 0 ? 0 : k == 1 ? top : k == 2 ? TWO_PI / 2 : k == 3 ? g.u() * 1e-3 : TWO_PI - g.u() * 1e-3; } d = "wrap"; break;
        case 5: { double p0 = g.u() * TWO_PI; for (auto& x : c.a) x = p0; d = "ray"; break; }
        default: { double p0 = g.u() * TWO_PI, s = g.logu(1e-14, 1e-2); for (auto& x : c.a) x = p0 + (g.p(.5) ? 0 : TWO_PI / 2) + s * (g.u() - .5); d = "opposite"; break; }
    }
    for (auto& x : c.a) x = clampa(x);
    c.desc += " a=" + d;
}
inline double hrg_R(Rng& g, int n) {
    switch (g.i(0, 9)) { case 0: return g.i(1, 12); case 1: return g.u(.01, 1); case 2: return g.u(1, 4); case 3: return g.logu(1e-3, 1); case 4: return g.u(20, 36); case 5: return g.i(1, 24) * .5;
        default: { double al = g.u(.55, 1), deg = g.u(1, std::max(2.0, n * .5)); return std::max(.5, 2 * std::log(n * 2 * al * al / 3.14159265358979 / (deg * (al - .5) * (al - .5)))); } }
}
inline HrgCase hrg_case(Rng& g, int n, double R = -1, int rk = -1, int ak = -1) {
    HrgCase c; c.R = R > 0 ? R : hrg_R(g, n); c.desc = fmt("n=%d R=%.6g", n, c.R);
    hrg_radii(g, c, n, rk >= 0 ? rk : g.i(0, 7)); hrg_angles(g, c, n, ak >= 0 ? ak : g.i(0, 6)); return c;
}
// cosh d - 1 without cancellation, and an error bound for double evaluations of cosh d
inline long double hcosh1(long double r1, long double p1, long double r2, long double p2) {
    long double s = std::sin((p1 - p2) / 2), e = std::sinh((r1 - r2) / 2); return 2 * e * e + 2 * s * s * std::sinh(r1) * std::sinh(r2);
}
inline long double hcosh_err(double r1, double r2, double R) { return 24 * 1.2e-16L * ((long double)std::cosh(r1) * std::cosh(r2) + std::cosh(R)); }
}
