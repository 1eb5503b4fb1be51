// Operation soup for P07 (races), P08 (memory, UB, assertions), P09 (termination): every public operation on hostile input.
#include "girg_cases.h"
#include "hrg_cases.h"
#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>
#include <girgs/Hyperbolic.h>
#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>
#include <thread>
#include <sstream>
#include <iostream>
#include <unistd.h>
using namespace vf;
static const double INF = std::numeric_limits<double>::infinity();
static int g_max; static std::string g_tmp = "/tmp";
struct Per { struct alignas(128) S { Edges e; }; std::vector<S> per; Per(int t) : per(t) {} size_t size() const { size_t s = 0; for (auto& p : per) s += p.e.size(); return s; } void clear() { for (auto& p : per) p.e.clear(); } };
template<unsigned D> static size_t girg_tree(const GirgCase& g, double al, int seed, int t, bool profile, int reps) {
    Per p(t); auto cb = [&](int u, int v, int i) { p.per.at(i).e.emplace_back(u, v); }; auto tr = girgs::makeSpatialTree<D>(g.w, g.x, al, cb, profile); size_t s = 0; while (reps--) { p.clear(); tr.generateEdges(seed); s += p.size(); } return s; }
static size_t girg_obj(const GirgCase& g, double al, int seed, int t, bool profile, int reps) { switch (g.d) { case 1: return girg_tree<1>(g, al, seed, t, profile, reps); case 2: return girg_tree<2>(g, al, seed, t, profile, reps); case 3: return girg_tree<3>(g, al, seed, t, profile, reps); case 4: return girg_tree<4>(g, al, seed, t, profile, reps); default: return girg_tree<5>(g, al, seed, t, profile, reps); } }
static double pick_alpha(Rng& r) { return r.p(.3) ? INF : r.p(.1) ? 0 : r.p(.3) ? r.u(.1, 1) : r.p(.2) ? r.logu(3, 1e3) : r.u(1, 6); }
static double pick_T(Rng& r) { return r.p(.35) ? 0 : r.p(.2) ? r.logu(1e-17, 1e-2) : r.u(.01, .9999); }
static std::atomic<size_t> sink;
static int pick_seed(Rng& r) { return r.p(.1) ? -1 : r.p(.05) ? std::numeric_limits<int>::min() : r.p(.12) ? std::numeric_limits<int>::max() - (int)r.i(0, 3) : r.p(.1) ? 0 : (int)r.i(0, 1 << 30); }
static void op_girg(Rng& r, int nmax, int t, std::string& d) { int n = r.p(.3) ? r.i(1, 8) : r.i(1, nmax); auto g = girg_case(r, n); double al = pick_alpha(r); int sd = pick_seed(r); if (al < 1 && n > 500) al += 1;
    if (r.p(.5)) { d = fmt("girgs::generateEdges alpha=%g %s", al, g.desc.c_str()); sink += girgs::generateEdges(g.w, g.x, al, sd).size(); } else { bool pf = r.p(.3); d = fmt("SpatialTree alpha=%g %s", al, g.desc.c_str()); sink += girg_obj(g, al, sd, t, pf, r.i(1, 3)); } }
static void op_hrg(Rng& r, int nmax, int t, std::string& d) { int n = r.p(.3) ? r.i(1, 8) : r.i(1, nmax); auto h = hrg_case(r, n); double T = pick_T(r); int sd = pick_seed(r);
    if (r.p(.5)) { d = fmt("hypergirgs::generateEdges T=%g %s", T, h.desc.c_str()); sink += hypergirgs::generateEdges(h.r, h.a, T, h.R, sd).size(); } else { d = fmt("HyperbolicTree T=%g %s", T, h.desc.c_str()); Per p(t); auto cb = [&](int u, int v, int i) { p.per.at(i).e.emplace_back(u, v); }; auto tr = hypergirgs::makeHyperbolicTree(h.r, h.a, T, h.R, cb, r.p(.3)); for (int k = r.i(1, 3); k--;) tr.generate(sd); sink += p.size(); } }
static void op_sample(Rng& r, int nmax, std::string& d) { int n = r.p(.2) ? r.i(0, 9) : r.p(.5) ? r.i(1, 100) : r.i(1, nmax); int sd = pick_seed(r); bool par = r.p(.85);
    switch (r.i(0, 4)) { case 0: n = std::max(n, 1); d = fmt("generateWeights n=%d", n); sink += girgs::generateWeights(n, r.p(.2) ? r.u(1.01, 8) : r.u(2, 3), sd, par).size(); break; case 1: { int dim = r.i(1, 6); d = fmt("generatePositions n=%d d=%d", n, dim); sink += girgs::generatePositions(n, dim, sd, par).size(); break; }
        case 2: d = fmt("sampleRadii n=%d", n); sink += hypergirgs::sampleRadii(n, r.u(.5, 1.2), r.logu(.01, 60), sd, par).size(); break; case 3: d = fmt("sampleAngles n=%d", n); sink += hypergirgs::sampleAngles(n, sd, par).size(); break; default: d = fmt("sampleRadiiAndAngles n=%d", n); sink += hypergirgs::sampleRadiiAndAngles(n, r.u(.5, 1), r.logu(.1, 40), sd, par).first.size(); } }
static void op_scale(Rng& r, int nmax, std::string& d) { int n = r.p(.3) ? r.i(2, 12) : r.i(2, nmax), dim = r.i(1, 5); std::string dd; std::vector<double> w; if (r.p(.4)) w = girgs::generateWeights(std::max(n, 3), r.u(2.01, 3), r.i(0, 1 << 30)); else w = girg_weights(r, n, r.i(0, 9), dd, dim);
    n = w.size(); double deg = r.p(.15) ? n - 1 : r.p(.15) ? std::min(1.0, n - 1.0) : r.p(.3) ? r.logu(1e-2, n - 1) : r.u(.5, n - 1); double al = r.p(.25) ? INF : r.p(.2) ? r.u(.05, 1) : r.p(.2) ? r.u(1, 1.05) : r.u(1, 8); if (al == 1) al = 2;
    if (r.p(.1)) al = r.u(8, 60); if (r.p(.1)) { al = 1 + (r.p(.5) ? 1 : -1) * r.logu(2.3e-16, 1e-8); if (al == 1) al = std::nextafter(1.0, 2.0); } d = fmt("scaleWeights n=%d kind=%s deg=%.17g d=%d alpha=%.17g", n, dd.c_str(), deg, dim, al); girgs::scaleWeights(w, deg, dim, al); sink += w.size(); }
static void op_radius(Rng& r, std::string& d) { int n = r.p(.5) ? r.i(2, 40) : (int)r.logu(2, 1e9); double al = r.p(.3) ? .5 + r.logu(1e-12, .5) : r.u(.5000001, 1), T = r.p(.6) ? 0 : r.p(.5) ? r.u(0, .999) : 1 - r.logu(1e-12, 1), deg = r.p(.3) ? n - 1 : r.logu(1, n); deg = std::min(deg, n - 1.0); d = fmt("calculateRadius* n=%d alpha=%.17g T=%.17g deg=%.17g", n, al, T, deg);
    double a = hypergirgs::calculateRadius(n, al, T, deg), b = hypergirgs::calculateRadiusLikeNetworKit(n, al, T, deg); if (!(a == a) || !(b == b)) R().viol("nan-radius", d); sink += a > b; }
static void op_dot(Rng& r, std::string& d) { int n = r.i(0, 60), dim = r.i(1, 6); std::string s; std::vector<double> w = girg_weights(r, n, r.i(0, 7), s, 1); Pos x(n, std::vector<double>(dim)); for (auto& p : x) for (auto& c : p) c = r.u(); Edges e; for (int k = r.i(0, 100); n && k--;) e.emplace_back(r.i(0, n - 1), r.i(0, n - 1)); d = "saveDot"; auto f = g_tmp + fmt("/vf_dot_%d_%lu", (int)getpid(), (unsigned long)r.next()); girgs::saveDot(w, x, e, f); unlink(f.c_str()); }
static void op_map(Rng& r, std::string& d) { d = "Hyperbolic maps"; double Rr = r.u(.1, 40); sink += girgs::girgWeightToRadius(girgs::radiusToGirgWeight(r.u(0, Rr), Rr), Rr) > girgs::angleToGirgPosition(girgs::girgPositionToAngle(r.u())); 
    double a = hypergirgs::hyperbolicDistance(r.u(0, 300), r.u(0, 6.28), r.u(0, 300), r.u(0, 6.28)); sink += a > 1; }
static void op_one(Rng& r, int op, int nmax, int t, std::string& d) { switch (op) { case 0: case 1: op_girg(r, nmax, t, d); break; case 2: case 3: op_hrg(r, nmax, t, d); break; case 4: op_sample(r, std::max(nmax * 20, 45000), d); break; case 5: op_scale(r, nmax, d); break; case 6: op_radius(r, d); break; case 7: op_dot(r, d); break; default: op_map(r, d); } }
// calls from inside an application's own parallel region
static void op_nested(Rng& r, int nmax, std::string& d) { int outer = r.i(2, 4); uint64_t base = r.next(); d = fmt("nested calls outer=%d", outer); std::atomic<int> bad{0};
    #pragma omp parallel num_threads(outer)
    { Rng q(base, omp_get_thread_num()); std::string dd; int op = q.i(0, 3); Rng z(q.next());
      if (op < 2) { auto g = girg_case(z, z.i(1, nmax)); sink += girgs::generateEdges(g.w, g.x, z.p(.5) ? INF : 2.0, 3).size(); } else { auto h = hrg_case(z, z.i(1, nmax)); sink += hypergirgs::generateEdges(h.r, h.a, z.p(.5) ? 0 : .5, h.R, 3).size(); } }
    (void)bad; }
static void op_concurrent(Rng& r, int nmax, std::string& d) { int k = r.i(2, 4); uint64_t base = r.next(); d = fmt("concurrent callers=%d", k); std::vector<std::thread> th;
    for (int i = 0; i < k; ++i) th.emplace_back([=] { if (vf_thread_begin) vf_thread_begin(); Rng q(base, i); std::string dd; int t = q.i(1, 4); omp_set_num_threads(t); op_one(q, q.i(0, 8), nmax, t, dd); if (vf_thread_end) vf_thread_end(); });
    if (vf_join_begin) vf_join_begin(); for (auto& x : th) x.join(); if (vf_join_end) vf_join_end(); }
static void op_big(Rng& r, int t, std::string& d) { // multi-threaded radix sort path: n > 2^17
    int n = r.i(132000, 150000); if (r.p(.5)) { auto w = girgs::generateWeights(n, 2.8, r.i(0, 1 << 30)); int dim = r.i(1, 2); auto x = girgs::generatePositions(n, dim, r.i(0, 1 << 30)); girgs::scaleWeights(w, 3, dim, INF); d = fmt("big girg n=%d d=%d", n, dim); sink += girgs::generateEdges(w, x, INF, 5).size(); }
    else { double Rr = hypergirgs::calculateRadius(n, .9, 0, 3); auto p = hypergirgs::sampleRadiiAndAngles(n, .9, Rr, r.i(0, 1 << 30)); d = fmt("big hrg n=%d", n); sink += hypergirgs::generateEdges(p.first, p.second, 0, Rr, 5).size(); } (void)t; }
// distant cells with more than 2^32 pairs of points
static void op_wide(Rng& r, std::string& d, long k) { int n = r.i(280000, 320000), t = r.i(1, 8); omp_set_num_threads(t); d = fmt("wide n=%d threads=%d", n, t);
    if (k & 1) { double Rr = 2 * std::log(n) + r.u(-1, 2); std::vector<double> R1(n), A(n); for (auto& x : R1) x = Rr - r.u(0, .2); for (auto& x : A) x = std::min(r.u() * TWO_PI, std::nextafter(TWO_PI, 0.0)); sink += hypergirgs::generateEdges(R1, A, r.u(.3, .8), Rr, 3).size(); }
    else { int dim = r.i(1, 2); std::vector<double> w(n, r.u(.1, 1)); Pos x(n, std::vector<double>(dim)); for (auto& p : x) for (auto& c : p) c = r.u(); sink += girgs::generateEdges(w, x, r.u(1.3, 2), 3).size(); } }
// more than 2^20 edges per thread: the buffers of generateEdges are flushed during generation
static void op_flush(Rng& r, std::string& d, long k) { int t = r.i(1, 3); omp_set_num_threads(t); int n = (int)std::sqrt(2.0 * (t + .3) * 1048576 * r.u(1.0, 1.6)); bool h = k & 1; d = fmt("dense n=%d threads=%d %s", n, t, h ? "hrg" : "girg");
    if (r.p(.75)) {   // tight clusters far apart: every thread fills its buffer several times
        t = r.i(2, 4); omp_set_num_threads(t); const int C = 4 * t, m = (int)r.u(1100, 1500); n = C * m; d = fmt("clusters n=%d threads=%d %s", n, t, h ? "hrg" : "girg");
        if (h) { const double Rr = 2 * std::log(n) + 2; std::vector<double> R1(n), A(n); for (int v = 0; v < n; ++v) { R1[v] = Rr - r.u(0, .01); A[v] = TWO_PI * ((v % C) + .5) / C + r.u(0, 1e-7); } sink += hypergirgs::generateEdges(R1, A, r.p(.7) ? 0 : .1, Rr, 3).size(); }
        else { int dim = r.i(1, 2); std::vector<double> w(n, 1.0); Pos x(n, std::vector<double>(dim)); for (int v = 0; v < n; ++v) for (auto& c : x[v]) c = ((v % C) + .5) / C + r.u(0, 1e-7); sink += girgs::generateEdges(w, x, r.p(.7) ? INF : 6.0, 3).size(); }
        return; }
    if (!h && r.p(.4)) { std::vector<double> w(n, 1.0); Pos x(n, std::vector<double>(5)); for (auto& p : x) for (auto& c : p) c = r.u(); d += " alpha=0"; sink += girgs::generateEdges(w, x, 0.0, 3).size(); return; }
    if (h) { std::vector<double> R1(n), A(n); for (auto& x : R1) x = r.u(0, 2); for (auto& x : A) x = r.u(0, 6.28); sink += hypergirgs::generateEdges(R1, A, 0, 4.1, 3).size(); }
    else { int dim = r.i(1, 2); std::vector<double> w(n, 1.0 * n); Pos x(n, std::vector<double>(dim)); for (auto& p : x) for (auto& c : p) c = r.u(); sink += girgs::generateEdges(w, x, r.p(.5) ? INF : 2.0, 3).size(); } }
// a smaller team than requested must not lose or add edges: threshold graphs compared with the single-threaded result
static void norm(Edges& e) { for (auto& p : e) if (p.first > p.second) std::swap(p.first, p.second); std::sort(e.begin(), e.end()); }
static void op_team(Rng& r, int nmax, int t, std::string& d) { int n = r.p(.3) ? r.i(1, 10) : r.i(1, nmax); bool h = r.p(.65), all = r.p(.3); Edges a, b; size_t want = (size_t)n * (n - 1) / 2;
    auto modes = [&](auto gen) { if (vf_omp_team) vf_omp_team(0); omp_set_num_threads(1); a = gen(); for (int k = 0; k < 3; ++k) { int m = k == 0 ? -1 : (int)r.i(1, 5); if (vf_omp_team) vf_omp_team(m); omp_set_num_threads(t); b = gen(); norm(a); norm(b);
        if (a != b) R().viol("team-changes-result", fmt("%zu edges alone, %zu with team mode %d; threads=%d %s", a.size(), b.size(), m, t, d.c_str())); if (all && b.size() != want) R().viol("team-incomplete", fmt("%zu of %zu edges with team mode %d; threads=%d %s", b.size(), want, m, t, d.c_str())); } if (vf_omp_team) vf_omp_team(0); };
    if (h) { auto c = hrg_case(r, n); if (all) { for (auto& x : c.r) x *= .49; } double T = all && r.p(.5) ? 1e-6 : 0; if (T) for (auto& x : c.r) x *= .9; int sd = pick_seed(r); d = fmt("team hrg T=%g all=%d %s", T, all, c.desc.c_str()); if (all && T && c.R < .1) { all = false; T = 0; } modes([&] { return hypergirgs::generateEdges(c.r, c.a, T, c.R, sd); }); }
    else { auto c = girg_case(r, n, r.i(1, 3)); if (all) for (auto& w : c.w) w = 2.0 * n; double al = all && r.p(.5) ? 2.0 : INF; int sd = pick_seed(r); d = fmt("team girg alpha=%g all=%d %s", al, all, c.desc.c_str()); modes([&] { return girgs::generateEdges(c.w, c.x, al, sd); }); } }
static void op_fill(Rng& r, int t, std::string& d) { int n = r.i(20000, 90000), sd = r.i(0, 1 << 30); d = fmt("fill n=%d", n); if (vf_omp_team) vf_omp_team(r.p(.5) ? -1 : r.i(1, 5)); omp_set_num_threads(t);
    auto zeros = [&](const char* what, const std::vector<double>& v, size_t want) { long z = 0; for (double x : v) z += x == 0; if (v.size() != want || z > 2) R().viol(std::string("not-filled:") + what, fmt("%ld of %zu entries are 0; threads=%d %s", z, v.size(), t, d.c_str())); };
    zeros("weights", girgs::generateWeights(n, 2.5, sd), n); { auto p = girgs::generatePositions(n, 2, sd); std::vector<double> f; for (auto& q : p) f.insert(f.end(), q.begin(), q.end()); zeros("positions", f, 2ul * n); }
    zeros("radii", hypergirgs::sampleRadii(n, .75, 20, sd), n); zeros("angles", hypergirgs::sampleAngles(n, sd), n); auto ra = hypergirgs::sampleRadiiAndAngles(n, .75, 20, sd); zeros("radii2", ra.first, n); zeros("angles2", ra.second, n); if (vf_omp_team) vf_omp_team(0); }
struct NullBuf : std::streambuf { int_type overflow(int_type c) override { return traits_type::not_eof(c); } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 100); int nmax = a.i("nmax", 200); cell_budget() = a.f("cells", 3e4); int only = a.i("op", -1), nbig = a.i("big", 0), sched = a.i("sched", 1), team = a.i("team", 0), tmax = a.i("tmax", 16); double budget = a.f("steps", 0); g_tmp = a.s("tmp", "/tmp"); (void)g_max; bool loud = a.i("loud", 0);
    static NullBuf* quiet = new NullBuf; std::cout.rdbuf(quiet);   // profiling output: swallowed, without shared state of its own
    const std::vector<int> th{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24, 32, 64};
    for (long k = from; k < to; ++k) { Rng r(seed * 32452843 + k, 71); int t; do t = r.pick(th); while (t > tmax); omp_set_num_threads(t); if (vf_omp_sched && sched) vf_omp_sched(mix(seed * 31 + k) | 1); if (vf_omp_team) vf_omp_team(team == 1 ? (r.p(.5) ? -1 : r.i(1, 3)) : 0);
        if (vf_steps_reset && budget > 0) vf_steps_reset((uint64_t)budget);
        std::string d; int op = only >= 0 ? only : k < from + nbig ? 11 : (int)(k % 11); auto w0 = now_s();
        if (loud) { fprintf(stderr, "OP %ld op=%d threads=%d\n", k, op, t); }
        if (op <= 8) op_one(r, op, nmax, t, d); else if (op == 9) op_nested(r, std::min(nmax, 150), d); else if (op == 10) op_concurrent(r, nmax, d); else if (op == 11) op_big(r, t, d); else if (op == 12) op_flush(r, d, k); else if (op == 15) op_wide(r, d, k); else if (op == 13) op_team(r, nmax, t, d); else op_fill(r, t, d);
        if (loud) fprintf(stderr, "   %s %.2fs\n", d.c_str(), now_s() - w0);
        R().eval(); R().stat(fmt("op%d", op)); R().seen(mix(k * 1000003 + seed) ^ std::hash<std::string>()(d)); R().sample(fmt("%s threads=%d", d.c_str(), t));
        if (vf_steps && budget > 0) R().max("most_basic_blocks", (double)vf_steps()); }
    return R().done();
}
