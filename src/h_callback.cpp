// P15: the callback protocol: ids, one thread at a time per id, nothing lost or late, buffered lists and profiling agree.
#include "girg_cases.h"
#include "hrg_cases.h"
#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>
#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>
#include <iostream>
#include <sstream>
#include <sched.h>
using namespace vf;
static const double INF = std::numeric_limits<double>::infinity();
struct alignas(256) Slot { std::atomic<int> busy{0}; std::atomic<const void*> owner{nullptr}; long owners = 0; Edges plain; /* unsynchronised on purpose */ };
struct Mon { int t, n; std::vector<Slot> s; std::atomic<int> open{1}; std::atomic<long> calls{0}, bad_id{0}, overlap{0}, late{0}, range{0}; uint64_t delay; bool keep;
    Mon(int t, int n, uint64_t delay, bool keep) : t(t), n(n), s(t), delay(delay), keep(keep) {}
    void operator()(int u, int v, int id) { long k = calls.fetch_add(1, std::memory_order_relaxed); if (!open.load(std::memory_order_relaxed)) ++late;
        if (id < 0 || id >= t) { ++bad_id; return; } if (u < 0 || v < 0 || u >= n || v >= n) ++range; Slot& q = s[id]; if (q.busy.exchange(1, std::memory_order_relaxed)) ++overlap;
        if (delay) { uint64_t z = mix(delay + k); if (z % 64 == 0) sched_yield(); else if (z % 16 == 1) for (volatile int i = 0; i < (int)(z >> 8) % 400; ++i); }
        static thread_local char me; if (q.owner.load(std::memory_order_relaxed) != &me) { q.owner.store(&me, std::memory_order_relaxed); ++q.owners; }
        if (keep) q.plain.emplace_back(u, v); q.busy.store(0, std::memory_order_relaxed); }
    Edges all() { Edges e; for (auto& q : s) e.insert(e.end(), q.plain.begin(), q.plain.end()); return e; }
    void verdict(const std::string& d) { if (bad_id) vf::R().viol("thread-id-out-of-range", fmt("%ld callbacks; %s", bad_id.load(), d.c_str())); if (overlap) vf::R().viol("same-id-at-the-same-time", fmt("%ld callbacks; %s", overlap.load(), d.c_str())); if (late) vf::R().viol("callback-after-return", fmt("%ld callbacks; %s", late.load(), d.c_str())); if (range) vf::R().viol("endpoint-out-of-range", d);
        long used = 0; for (auto& q : s) used += q.owners > 0; vf::R().stat("callbacks", calls); vf::R().stat("ids_used", used); if (used > 1) vf::R().stat("runs_with_several_ids"); } };
struct Cap : std::streambuf { std::mutex m; long chars = 0; int_type overflow(int_type c) override { std::lock_guard<std::mutex> l(m); ++chars; return traits_type::not_eof(c); } std::streamsize xsputn(const char*, std::streamsize n) override { std::lock_guard<std::mutex> l(m); chars += n; return n; } };
static void norm(Edges& e) { for (auto& p : e) if (p.first > p.second) std::swap(p.first, p.second); std::sort(e.begin(), e.end()); }
template<unsigned D> static void girg_gen(const GirgCase& g, double al, int seed, Mon& m, bool profile, int reps) { auto tr = girgs::makeSpatialTree<D>(g.w, g.x, al, m, profile); while (reps--) { for (auto& q : m.s) q.plain.clear(); m.open = 1; tr.generateEdges(seed); m.open = 0; } }
static void girg_any(const GirgCase& g, double al, int seed, Mon& m, bool profile, int reps = 1) { switch (g.d) { case 1: girg_gen<1>(g, al, seed, m, profile, reps); break; case 2: girg_gen<2>(g, al, seed, m, profile, reps); break; case 3: girg_gen<3>(g, al, seed, m, profile, reps); break; case 4: girg_gen<4>(g, al, seed, m, profile, reps); break; default: girg_gen<5>(g, al, seed, m, profile, reps); } }
static void hrg_any(const HrgCase& h, double T, int seed, Mon& m, bool profile, int reps = 1) { auto tr = hypergirgs::makeHyperbolicTree(h.r, h.a, T, h.R, m, profile); while (reps--) { for (auto& q : m.s) q.plain.clear(); m.open = 1; tr.generate(seed); m.open = 0; } }
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 50); int nmax = a.i("nmax", 600); bool flush = a.i("flush", 0), sparse = a.i("sparse", 0), tsan = a.i("tsan", 0); cell_budget() = a.f("cells", 1e5);
    static Cap* cap = new Cap; auto old = std::cout.rdbuf(cap);
    const std::vector<int> th{1, 2, 3, 4, 5, 7, 8, 12, 16, 33};
    for (long k = from; k < to; ++k) { Rng r(seed * 86028121 + k, 61); int t = r.pick(th); omp_set_num_threads(t); if (vf_omp_sched) vf_omp_sched(mix(seed * 131 + k) | 1); if (vf_omp_team) vf_omp_team(r.p(.25) ? r.i(1, 4) : 0);
        bool hyp = r.p(.5); int sd = r.i(0, 1 << 30); std::string d; Edges direct, prof, buf; uint64_t delay = r.p(.7) ? r.next() | 1 : 0; int reps = r.i(1, 2);
        GirgCase g; HrgCase h; double al = 0, T = 0; int n;
        if (flush) { t = r.i(1, 3); omp_set_num_threads(t); if (vf_omp_team) vf_omp_team(0); n = (int)std::sqrt(2.0 * (t + .2) * 1048576 * r.u(1.0, 1.5)); if (k % 3 == 0) { t = 1; omp_set_num_threads(1); n = k % 2 ? 1449 : 2049; /* 2^20 +- and 2^21 +- edges */ } delay = 0; reps = 1;
            if (hyp) { h.R = 4.1; h.r.resize(n); h.a.resize(n); for (auto& x : h.r) x = r.u(0, 2); for (auto& x : h.a) x = r.u(0, 6.28); } else { g.d = r.i(1, 2); g.w.assign(n, 1.0 * n); g.x.assign(n, std::vector<double>(g.d)); for (auto& p : g.x) for (auto& c : p) c = r.u(); al = r.p(.5) ? INF : 2; } d = fmt("dense %s n=%d", hyp ? "hrg" : "girg", n); }
        else if (sparse) { n = (int)r.logu(1500, 200000); delay = 0; reps = 1; if (hyp) { double al2 = r.u(.55, 1.2); h.R = 2 * std::log((double)n) + r.u(-2, 1); h.r.resize(n); h.a.resize(n); for (auto& x : h.r) x = std::max(.01, h.R + std::log(1 - r.u()) / al2); for (auto& x : h.a) x = r.u(0, 6.28); T = r.p(.3) ? 0 : r.u(.05, .8); } else { g.d = r.i(1, 3); g.w.resize(n); for (auto& x : g.w) x = std::min(r.u(1, 1.5) * std::pow(1 - r.u(), -.7), n / 20.0); g.x.assign(n, std::vector<double>(g.d)); for (auto& p : g.x) for (auto& c : p) c = r.u(); al = r.p(.3) ? INF : r.u(1.3, 5); } d = fmt("sparse %s n=%d alpha=%g T=%g", hyp ? "hrg" : "girg", n, al, T); vf::R().stat("sparse_large_graphs"); }
        else { n = r.p(.2) ? r.i(1, 8) : r.i(1, nmax); if (hyp) { h = hrg_case(r, n); T = r.p(.4) ? 0 : r.p(.2) ? r.logu(1e-6, 1e-2) : r.u(.01, .99); d = fmt("T=%.4g %s", T, h.desc.c_str()); } else { g = girg_case(r, n); al = r.p(.4) ? INF : r.p(.1) ? 0 : r.u(.3, 5); d = fmt("alpha=%.4g %s", al, g.desc.c_str()); } }
        d += fmt(" threads=%d seed=%d", t, sd);
        auto gen = [&](bool profile) { Mon m(t, n, delay, true); if (hyp) hrg_any(h, T, sd, m, profile, reps); else girg_any(g, al, sd, m, profile, reps); for (int i = 0; i < 3; ++i) sched_yield(); m.verdict(d); return m.all(); };
        direct = gen(false); long c0 = cap->chars; bool inside = false; if (!flush && r.p(.15)) { int outer = r.i(2, 4), who = r.i(0, outer - 1); vf::R().stat("calls_inside_a_parallel_region");
            _Pragma("omp parallel num_threads(outer)") { if (omp_get_thread_num() == std::min(who, omp_get_num_threads() - 1)) { omp_set_num_threads(t); Edges out = direct; direct = gen(false); if (hyp ? T == 0 : al == INF) { Edges in = direct; norm(in); norm(out); if (in != out) vf::R().viol("differs-inside-a-parallel-region", d); } prof = gen(true); buf = hyp ? hypergirgs::generateEdges(h.r, h.a, T, h.R, sd) : girgs::generateEdges(g.w, g.x, al, sd); } } inside = true; } else prof = gen(true); vf::R().stat("profiling_characters", cap->chars - c0);
        if (!inside) buf = hyp ? hypergirgs::generateEdges(h.r, h.a, T, h.R, sd) : girgs::generateEdges(g.w, g.x, al, sd);
        if (t == 1 && buf != direct) { Edges x = direct, y = buf; norm(x); norm(y); if (x == y) vf::R().stat("order_differs_single_thread"); }
        norm(direct); norm(prof); norm(buf);
        if (direct != prof) vf::R().viol("profiling-changes-result", fmt("%zu edges, %zu with profiling; %s", direct.size(), prof.size(), d.c_str()));
        if (direct != buf) vf::R().viol("buffered-list-differs", fmt("callback reported %zu edges, the list has %zu; %s", direct.size(), buf.size(), d.c_str()));
        if (flush && direct.size() != (size_t)n * (n - 1) / 2) vf::R().stat("flush_not_complete_graph"); if (flush && direct.size() > (1u << 20) * (size_t)t) vf::R().stat("runs_flushing_every_thread");
        vf::R().eval(); if (!direct.empty()) vf::R().seen(hash_vec(direct, k)); vf::R().sample(d + fmt(" edges=%zu", direct.size())); (void)tsan; }
    std::cout.rdbuf(old); return vf::R().done();
}
