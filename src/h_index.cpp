// P24: the spatial indices against direct scans.
#include "girg_cases.h"
#include "hrg_cases.h"
#include <girgs/SpatialTree.h>
#include <hypergirgs/RadiusLayer.h>
#include <hypergirgs/HyperbolicTree.h>
using namespace vf;
struct NoEdge { void operator()(int, int, int) {} };
#ifndef NO_PROBE
template<unsigned D> struct Probe : girgs::SpatialTree<D, NoEdge> { using B = girgs::SpatialTree<D, NoEdge>; Probe(const std::vector<double>& w, const Pos& x, double al, NoEdge& e) : B(w, x, al, e) {} auto layers(const std::vector<double>& w, const Pos& x) { return B::buildPartition(w, x); } unsigned target(int l) const { return B::weightLayerTargetLevel(l); } };
template<unsigned D> static uint32_t local_cell(const std::vector<double>& p, unsigned l) { uint32_t r = 0; for (unsigned d = 0; d < D; ++d) { uint32_t c = (uint32_t)std::floor(std::ldexp(p[d], l)); for (unsigned b = 0; b < l; ++b) if (c >> b & 1) r |= 1u << (b * D + d); } return r; }
template<unsigned D> static void girg(Rng& r, const GirgCase& g, int t) { NoEdge ne; std::string ctx = g.desc + fmt(" threads=%d", t); const int n = g.w.size(); Probe<D> p(g.w, g.x, r.p(.5) ? 2.0 : std::numeric_limits<double>::infinity(), ne); auto ls = p.layers(g.w, g.x); std::vector<int> owner(n, -1), pos(n, -1); double w0 = *std::min_element(g.w.begin(), g.w.end()); const unsigned L = ls.size();
    for (unsigned i = 0; i < L; ++i) { auto all = ls[i].cellIterators(0, 0); long m = all.second - all.first; if (m < 0 || m > n) { vf::R().viol("range", ctx); return; } if (ls[i].pointsInCell(0, 0) != m) vf::R().viol("root-count", ctx); for (auto q = all.first; q != all.second; ++q) { int v = q->index; if (v < 0 || v >= n) { vf::R().viol("node-index", ctx); return; } if (owner[v] >= 0) vf::R().viol("stored-twice", ctx + fmt(" node %d", v)); owner[v] = i; if (q->weight != g.w[v] || !std::equal(q->coord.begin(), q->coord.end(), g.x[v].begin())) vf::R().viol("stored-data", ctx + fmt(" node %d", v)); { int e1, e2; if (std::frexp(g.w[v], &e1) == std::frexp(w0, &e2)) { vf::R().stat("weights_on_layer_borders"); if (e1 - e2 != (int)i) vf::R().viol("layer-of-border-weight", ctx + fmt(" weight %.17g = 2^%d * smallest, in layer %u", g.w[v], e1 - e2, i)); } } double lo = std::ldexp(w0, i), hi = std::ldexp(w0, i + 1); if (g.w[v] < lo * (1 - 1e-12) || g.w[v] > hi * (1 + 1e-12)) vf::R().viol("layer-of-weight", ctx + fmt(" weight %.17g in layer %u, smallest %.17g", g.w[v], i, w0)); } }
    for (int v = 0; v < n; ++v) if (owner[v] < 0) { vf::R().viol("not-stored", ctx + fmt(" node %d", v)); break; }
    using H = girgs::SpatialTreeCoordinateHelper<D>; long queries = 0;
    for (unsigned i = 0; i < L; ++i) { unsigned tl = p.target(i); std::vector<int> mem; for (int v = 0; v < n; ++v) if (owner[v] == (int)i) mem.push_back(v);
        for (unsigned l = 0; l <= tl; ++l) { std::map<uint32_t, std::vector<int>> cell; for (int v : mem) cell[local_cell<D>(g.x[v], l)].push_back(v); uint64_t num = 1ull << (D * l), first = 0; for (unsigned q = 0; q < l; ++q) first += 1ull << (D * q); bool all = num <= 4096; std::vector<uint32_t> ask; if (all) for (uint32_t c = 0; c < num; ++c) ask.push_back(c); else { for (auto& q : cell) { ask.push_back(q.first); ask.push_back((q.first + 1) % num); } for (int q = 0; q < 200; ++q) ask.push_back(r.next() % num); ask.push_back(0); ask.push_back(num - 1); }
            for (uint32_t c : ask) { auto it = cell.find(c); size_t want = it == cell.end() ? 0 : it->second.size(); int got = ls[i].pointsInCell(first + c, l); auto be = ls[i].cellIterators(first + c, l); ++queries; std::string cc = ctx + fmt(" layer %u level %u cell %u", i, l, c); if (got != (int)want) { vf::R().viol("count", cc + fmt(": %d instead of %zu", got, want)); return; } if (be.second - be.first != (long)want) { vf::R().viol("iterators", cc); return; } if (want) { std::vector<int> a, b; for (int k = 0; k < got; ++k) { a.push_back(ls[i].kthPoint(first + c, l, k).index); b.push_back(be.first[k].index); } if (a != b) vf::R().viol("kth-point-and-iterators-differ", cc); std::sort(a.begin(), a.end()); if (a != it->second) { vf::R().viol("cell-content", cc); return; } } } if (H::firstCellOfLevel(l) != first) vf::R().viol("level-layout", ctx); } }
    vf::R().stat("girg_queries", queries); vf::R().stat("girg_layers", L); }
#endif
static void hrg(Rng& r, const HrgCase& h0, int t) { using A = hypergirgs::AngleHelper; HrgCase h = h0; const int n = h.r.size(); double height = r.p(.7) ? std::min(1.0, h.R) : h.R * r.u(.05, 1); bool border = r.p(.3); if (border) {   // radii a hair away from the borders of the layers found in a first pass
        std::vector<hypergirgs::Point> pts; std::vector<unsigned> fic; auto ls = hypergirgs::RadiusLayer::buildPartition(h.r, h.a, h.R, height, pts, fic, false); for (auto& x : h.r) if (r.p(.3)) { double b = ls[r.i(0, ls.size() - 1)].m_r_min; double e = r.p(.3) ? 0 : r.logu(1e-16, 1e-5) * h.R; x = clampr(b + (r.p(.5) ? e : -e), h.R); vf::R().stat("radii_next_to_layer_borders"); } }
    std::string ctx = h.desc + fmt(" height=%.6g threads=%d borders=%d", height, t, border); std::vector<hypergirgs::Point> pts; std::vector<unsigned> fic; auto ls = hypergirgs::RadiusLayer::buildPartition(h.r, h.a, h.R, height, pts, fic, false); std::vector<int> owner(n, -1); std::vector<uint32_t> tc(n); const double P2 = TWO_PI, e = 1e-15 * P2; long queries = 0;
    for (size_t i = 0; i < ls.size(); ++i) { auto& l = ls[i]; if (i && l.m_r_max > ls[i - 1].m_r_min + 1e-12 * h.R) vf::R().viol("layers-overlap", ctx); if (i && l.m_target_level > ls[i - 1].m_target_level) vf::R().viol("inner-layer-deeper", ctx); unsigned tl = l.m_target_level; uint64_t num = 1ull << tl; uint32_t first = num - 1; auto root = l.cellIterators(0, 0); if (l.pointsInCell(0, 0) != root.second - root.first) vf::R().viol("root-count", ctx); size_t sum = 0;
        for (auto q = root.first; q != root.second; ++q) { int v = q->id; ++sum; if (v < 0 || v >= n) { vf::R().viol("node-index", ctx); return; } if (owner[v] >= 0) vf::R().viol("stored-twice", ctx); owner[v] = i; if (h.r[v] < l.m_r_min || h.r[v] > l.m_r_max) vf::R().viol("layer-of-radius", ctx + fmt(" radius %.17g in [%.17g,%.17g]", h.r[v], l.m_r_min, l.m_r_max)); if (std::abs(q->cos_phi - std::cos(h.a[v])) > 1e-15 || std::abs(q->sin_phi - std::sin(h.a[v])) > 1e-15) vf::R().viol("stored-data", ctx); }
        // cell of every point at the target level, then all levels by halving
        bool all = num <= 1 << 15; std::vector<std::vector<int>> at; size_t seen = 0; if (all) { at.resize(num); for (uint32_t c = 0; c < num; ++c) { auto be = l.cellIterators(first + c, tl); if (l.pointsInCell(first + c, tl) != be.second - be.first) vf::R().viol("count", ctx); for (auto q = be.first; q != be.second; ++q) { double x = h.a[q->id], w = P2 / num; if (x < c * w - e || x > (c + 1.0) * w + e) vf::R().viol("cell-content", ctx + fmt(" angle %.17g in cell %u of level %u", x, c, tl)); at[c].push_back(q->id); tc[q->id] = c; ++seen; } } if (seen != sum) { vf::R().viol("cells-do-not-cover-layer", ctx); return; } }
        else { for (auto q = root.first; q != root.second; ++q) { uint32_t c = std::min<uint64_t>(num - 1, (uint64_t)(h.a[q->id] / P2 * num)); bool in = false; for (long d = -1; d <= 1 && !in; ++d) { long cc = (long)c + d; if (cc < 0 || cc >= (long)num) continue; auto be = l.cellIterators(first + cc, tl); for (auto z = be.first; z != be.second; ++z) if (z == q) { double x = h.a[q->id], w = P2 / num; in = true; tc[q->id] = cc; if (x < cc * w - e || x > (cc + 1.0) * w + e) vf::R().viol("cell-content", ctx); } } if (!in) { vf::R().viol("not-in-its-cell", ctx + fmt(" node %d", q->id)); break; } } }
        for (unsigned lv = 0; lv <= tl; ++lv) { std::map<uint32_t, std::vector<int>> cell; for (auto q = root.first; q != root.second; ++q) cell[tc[q->id] >> (tl - lv)].push_back(q->id); uint32_t f = (1u << lv) - 1; std::vector<uint32_t> ask; if (lv <= 10) for (uint32_t c = 0; c < 1u << lv; ++c) ask.push_back(c); else { for (auto& q : cell) ask.push_back(q.first); for (int q = 0; q < 100; ++q) ask.push_back(r.next() % (1u << lv)); }
            for (uint32_t c : ask) { auto it = cell.find(c); size_t want = it == cell.end() ? 0 : it->second.size(); int got = l.pointsInCell(f + c, lv); ++queries; std::string cc = ctx + fmt(" layer %zu level %u cell %u", i, lv, c); if (got != (int)want) { vf::R().viol("count", cc + fmt(": %d instead of %zu", got, want)); return; } auto be = l.cellIterators(f + c, lv); if (be.second - be.first != (long)want) { vf::R().viol("iterators", cc); return; } if (want) { std::vector<int> a, b; for (int k = 0; k < got; ++k) { a.push_back(l.kthPoint(f + c, lv, k).id); b.push_back(be.first[k].id); } if (a != b) vf::R().viol("kth-point-and-iterators-differ", cc); std::sort(a.begin(), a.end()); auto w = it->second; std::sort(w.begin(), w.end()); if (a != w) { vf::R().viol("cell-content", cc); return; } } } } (void)A::numChildren(); }
    for (int v = 0; v < n; ++v) if (owner[v] < 0) { vf::R().viol("not-stored", ctx + fmt(" node %d radius %.17g", v, h.r[v])); break; } vf::R().stat("hrg_queries", queries); vf::R().stat("hrg_layers", ls.size()); }
int main(int argc, char** argv) { Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 100); int nmax = a.i("nmax", 1500); bool big = a.i("big", 0), deep = a.i("deep", 0); cell_budget() = a.f("cells", 3e5); const std::vector<int> th{1, 2, 3, 4, 5, 7, 8, 16, 40};
    for (long k = from; k < to; ++k) { Rng r(seed * 67867967 + k, 14); int t = r.pick(th); omp_set_num_threads(t); if (vf_omp_sched) vf_omp_sched(mix(seed + k) | 1); if (vf_omp_team) vf_omp_team(r.p(.3) ? (r.p(.5) ? -1 : r.i(1, 4)) : 0); int n = deep ? r.i(4096, 30000) : big ? r.i(131073, 160000) : r.p(.25) ? r.i(1, 6) : r.i(1, nmax);
        bool hy = !deep && r.p(.5);
#ifdef NO_PROBE
        hy = true;
#endif
        if (hy) { auto h = hrg_case(r, n); hrg(r, h, t); vf::R().sample(h.desc); vf::R().seen(hash_vec(h.r, 1)); }
#ifndef NO_PROBE
        else { auto g = deep ? girg_deep_case(r, n, r.i(1, 5)) : girg_case(r, n, big ? r.i(1, 3) : 0); if (deep) vf::R().stat("deep_indices"); if (r.p(.2)) { double w0 = *std::min_element(g.w.begin(), g.w.end()); for (auto& w : g.w) w = std::ldexp(w0, std::ilogb(w / w0)); g.desc += " exact powers"; } switch (g.d) { case 1: girg<1>(r, g, t); break; case 2: girg<2>(r, g, t); break; case 3: girg<3>(r, g, t); break; case 4: girg<4>(r, g, t); break; default: girg<5>(r, g, t); } vf::R().sample(g.desc); vf::R().seen(hash_vec(g.w, 2)); }
#endif
        vf::R().eval(); } return vf::R().done(); }
