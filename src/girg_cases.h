#pragma once
// Hostile GIRG instances: weights x positions, bounded so that W/w0^2 (and with it the index size) stays moderate.
#include "vf.h"
namespace vf {
struct GirgCase { std::vector<double> w; Pos x; int d = 1; bool exact = false; std::string desc; double W() const { return std::accumulate(w.begin(), w.end(), 0.0); } };

// upper bound for the number of visited cell pairs (cells * 3^d) of generated instances; harnesses in slow builds lower it
inline double& cell_budget() { static double b = 3e6; return b; }
inline std::vector<double> girg_weights(Rng& r, int n, int kind, std::string& desc, int d = 1) {
    std::vector<double> w(n);
    switch (kind) {
        case 0: { double s = r.u(0.3, 3), ple = r.u(2.05, 3); for (auto& x : w) x = s * std::pow(1 - r.u(), -1 / (ple - 1)); desc = fmt("power%.2f", ple); break; }
        case 1: { double s = r.p(.5) ? 1.0 : r.logu(0.1, 20); for (auto& x : w) x = s; desc = fmt("equal%.3g", s); break; }
        case 2: { double s = r.p(.5) ? 1.0 : r.u(.2, 5); for (auto& x : w) x = s * std::ldexp(1.0, r.i(0, r.p(.5) ? 3 : 10)); desc = "pow2layers"; break; } // layer borders
        case 3: { double s = r.u(.5, 2); for (auto& x : w) { double b = std::ldexp(s, r.i(0, 6)); int k = r.i(0, 2); x = k == 0 ? b : k == 1 ? std::nextafter(b, 0.0) : std::nextafter(b, 1e9); } desc = "layerborder+-ulp"; break; }
        case 4: { double s = r.u(.5, 2); for (auto& x : w) x = s * (1 + r.u()); int h = r.i(0, 3); for (int k = 0; k < h && n; ++k) w[r.i(0, n - 1)] *= r.logu(10, 1e5); desc = fmt("fewheavy%d", h); break; }
        case 5: { double s = r.logu(.1, 10); for (auto& x : w) x = s * std::exp(r.normal()); desc = "lognormal"; break; }
        case 6: { double s = r.logu(20, 1e4); for (auto& x : w) x = s * (1 + 3 * r.u()); desc = "dense"; break; }
        case 8: { double sg = r.u(1, 9.0 / d); for (auto& x : w) x = std::exp(sg * r.normal()); desc = fmt("lognormal_sigma%.1f", sg); return w; }   // unbounded spread
        case 9: { double tiny = r.logu(cell_budget() < 1e5 ? 1e-5 : 1e-12, 1e-2) * (d > 3 ? 1e3 : 1); for (auto& x : w) x = r.u(.5, 4); int h = r.i(1, 3); for (int k = 0; k < h && n; ++k) w[r.i(0, n - 1)] = tiny * r.u(1, 2); desc = "fewtiny"; return w; }
        default: { double a = r.u(.5, 1), b = a * r.logu(1, 1e4); double q = r.u(); for (auto& x : w) x = r.p(q) ? a : b; desc = "twoclass"; break; }
    }
    if (!n) return w;
    auto sum = [&] { return std::accumulate(w.begin(), w.end(), 0.0); };
    // mostly aim at a sparse to medium average degree (~ 2^d W / n); powers of two keep layer borders exact
    if (r.p(.8)) { double target = r.logu(0.3, std::max(1.0, n / 3.0)), f = target / (std::pow(2.0, d) * sum() / n);
        if (kind == 2 || kind == 3 || r.p(.2)) f = std::exp2(std::round(std::log2(f)));
        for (auto& x : w) x *= f; }
    // bound W/w0^2 (index size): lift the smallest weights, or everything
    { double cap = std::max(4.0, r.logu(3e3, cell_budget()) / std::pow(3, d)), W = sum(), w0 = *std::min_element(w.begin(), w.end());
      if (W / w0 / w0 > cap) {
        if (r.p(.7)) { double lo = std::sqrt(W / cap); lo = std::exp2(std::ceil(std::log2(lo))); for (auto& x : w) x = std::max(x, lo); W = sum(); w0 = *std::min_element(w.begin(), w.end()); }
        if (W / w0 / w0 > cap) { double f = W / w0 / w0 / cap; for (auto& x : w) x *= f; } } }
    return w;
}
inline Pos girg_positions(Rng& r, int n, int d, int kind, std::string& desc) {
    Pos x(n, std::vector<double>(d));
    const double top = std::nextafter(1.0, 0.0);
    switch (kind) {
        case 0: for (auto& p : x) for (auto& c : p) c = r.u(); desc = "uniform"; break;
        case 1: { int m = r.i(1, 10); for (auto& p : x) for (auto& c : p) c = std::ldexp((double)r.i(0, (1l << m) - 1), -m); desc = fmt("dyadic2^-%d", m); break; }
        case 2: { int m = r.i(1, 8); for (auto& p : x) for (auto& c : p) { double b = std::ldexp((double)r.i(0, (1l << m) - 1), -m); int k = r.i(0, 2);
                  c = k == 0 ? b : k == 1 ? (b == 0 ? top : std::nextafter(b, 0.0)) : std::nextafter(b, 1.0); } desc = "border+-ulp"; break; }
        case 3: { double s = r.logu(1e-6, .1); std::vector<double> c0(d); for (auto& c : c0) c = r.p(.5) ? 0.0 : r.u(); for (auto& p : x) for (int k = 0; k < d; ++k) { double v = c0[k] + s * (r.u() - .5); v -= std::floor(v); if (v >= 1) v = top; p[k] = v; } desc = fmt("cluster%.1g", s); break; }
        case 4: { int cl = r.i(2, 6); std::vector<std::vector<double>> c0(cl, std::vector<double>(d)); for (auto& q : c0) for (auto& c : q) c = r.u(); double s = r.logu(1e-5, .05);
                  for (auto& p : x) { auto& q = c0[r.i(0, cl - 1)]; for (int k = 0; k < d; ++k) { double v = q[k] + s * r.normal(); v -= std::floor(v); if (v >= 1) v = top; p[k] = v; } } desc = fmt("clusters%d", cl); break; }
        case 5: { for (auto& p : x) for (auto& c : p) { int k = r.i(0, 3); c = k == 0 ? 0.0 : k == 1 ? top : k == 2 ? r.u() * 1e-3 : 1 - 1e-3 * (1 - r.u()); if (c >= 1) c = top; } desc = "wrap"; break; }
        case 6: { double t = r.u(); int ax = r.i(0, d - 1); for (auto& p : x) for (int k = 0; k < d; ++k) p[k] = k == ax ? r.u() : t; desc = "line"; break; }
        default: { std::vector<double> c0(d); for (auto& c : c0) c = r.u(); for (auto& p : x) { p = c0; if (r.p(.5)) for (auto& c : p) if (r.p(.5)) c = r.u(); } desc = "coincident"; break; }
    }
    return x;
}
inline GirgCase girg_case(Rng& r, int n, int d = 0, int wk = -1, int pk = -1) {
    GirgCase c; c.d = d ? d : r.i(1, 5); std::string a, b;
    if (wk < 0) { wk = r.i(0, 9); if (wk >= 8 && n > (c.d <= 2 ? 300 : 60)) wk = r.i(0, 7); }
    c.w = girg_weights(r, n, wk, a, c.d); c.x = girg_positions(r, n, c.d, pk >= 0 ? pk : r.i(0, 7), b);
    c.desc = fmt("n=%d d=%d w=%s x=%s", n, c.d, a.c_str(), b.c_str());
    return c;
}
// a deep index: more than 16 bits worth of cells below the root (n >= 4096 lets the level cap allow it), light nodes with a few heavy ones that are compared at the top levels
inline GirgCase girg_deep_case(Rng& r, int n, int d) {
    GirgCase c; c.d = d; std::string b; int k = r.i(17, 20); bool hub = r.p(.6); double w0 = hub ? r.u(.5, 4) : n * 1.5 / std::ldexp(1.0, k), W = 0; c.w.resize(n);   // hub: the depth comes from one node that alone meets all light nodes at the root
    for (auto& w : c.w) W += w = w0 * (1 + r.u());
    int h = r.i(1, 12); for (int q = 0; q < h; ++q) c.w[r.i(0, n - 1)] = std::max(w0, W * r.logu(1e-4, 2));   // W grows with the heavy nodes: the index gets deeper still, up to the cap
    if (hub) c.w[r.i(0, n - 1)] = w0 * w0 * std::ldexp(r.u(.5, 1), k);
    c.x = girg_positions(r, n, d, r.i(0, 7), b); c.desc = fmt("n=%d d=%d w=deep2^%d heavy=%d hub=%d x=%s", n, d, k, h, hub, b.c_str()); return c;
}
// all arithmetic of the model is exact in double: W, weights powers of two, positions coarse dyadics -> ties must be excluded exactly
inline GirgCase girg_exact_case(Rng& r, int d) {
    GirgCase c; c.d = d; c.exact = true;
    int ln = r.i(1, 8), n = 1 << ln; int e = r.i(-1, 4);
    c.w.assign(n, std::ldexp(1.0, e));
    int m = r.i(1, 5); c.x = Pos(n, std::vector<double>(d));
    for (auto& p : c.x) for (auto& q : p) q = std::ldexp((double)r.i(0, (1l << m) - 1), -m);
    // optionally split weight into unequal powers of two with the same power-of-two total: pairs (w/2, 3w/2) are not powers of two, so use 4 nodes (1,1,2,4)->8 blocks
    if (n >= 8 && r.p(.5)) { for (int k = 0; k + 4 <= n; k += 4) { double s = std::ldexp(1.0, e); c.w[k] = s; c.w[k + 1] = s; c.w[k + 2] = 2 * s; c.w[k + 3] = 4 * s; } }
    c.desc = fmt("exact n=%d d=%d w=2^%d grid=2^-%d", n, d, e, m);
    return c;
}
}
