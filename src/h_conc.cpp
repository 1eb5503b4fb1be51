// P25: calls made at the same time by several application threads, and repeated calls, return what they return alone;
// inputs and global state stay as they were.
#include "girg_cases.h"
#include "hrg_cases.h"
#include "proc.h"
#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>
#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>
#include <thread>
#include <iostream>
#include <locale>
#include <cfenv>
#include <new>
#include <signal.h>
#include <sys/mman.h>
using namespace vf;
// allocations made while arena_on is set come from one mapping, which is then write-protected as a whole
static char* arena; static size_t arena_used, arena_size; static bool arena_on;
void* operator new(size_t n) { if (arena_on) { size_t at = arena_used; arena_used += (n + 15) & ~15ul; if (arena_used > arena_size) abort(); return arena + at; } void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { if ((char*)p >= arena && (char*)p < arena + arena_size) return; free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
static const double INF = std::numeric_limits<double>::infinity();
struct Out { uint64_t h = 0; size_t size = 0; std::vector<double> approx; };   // approx: compared with a tolerance instead of by hash
static uint64_t edge_hash(const Edges& e) { std::vector<uint64_t> k; k.reserve(e.size()); for (auto& p : e) k.push_back(pairkey(p.first, p.second)); std::sort(k.begin(), k.end()); return hash_vec(k); }
static uint64_t pos_hash(const Pos& p) { uint64_t h = p.size(); for (auto& x : p) h = hash_vec(x, h); return h; }
static bool same(const Out& a, const Out& b) { if (a.size != b.size || a.h != b.h) return false; for (size_t i = 0; i < a.approx.size(); ++i) if (!(std::abs(a.approx[i] - b.approx[i]) <= 1e-9 * std::abs(a.approx[i]))) return false; return true; }
struct Per { struct alignas(128) S { Edges e; }; std::vector<S> per; Per(int t) : per(t) {} Out out() const { Edges e; for (auto& p : per) e.insert(e.end(), p.e.begin(), p.e.end()); Out o; o.size = e.size(); o.h = edge_hash(e); return o; } };
// shared inputs
struct Inputs { GirgCase g[2]; HrgCase h[2]; Edges e; uint64_t hash() const { uint64_t s = 7; for (auto& x : g) s = mix(s ^ hash_vec(x.w) ^ mix(pos_hash(x.x))); for (auto& x : h) s = mix(s ^ hash_vec(x.r) ^ mix(hash_vec(x.a))); for (auto& p : e) s = mix(s ^ pairkey(p.first, p.second) ^ p.first); return s; } };
struct Op { std::string name; int threads; std::function<Out(int)> run; Out alone; bool approx_too_long() const { return alone.approx.size() > 4000; } };
template<unsigned D> static Out tree(const GirgCase& g, double al, int sd, int t) { bool prof = t < 0; t = std::abs(t); Per p(t); auto cb = [&](int u, int v, int i) { p.per.at(i).e.emplace_back(u, v); }; auto tr = girgs::makeSpatialTree<D>(g.w, g.x, al, cb, prof); tr.generateEdges(sd); return p.out(); }
static std::string g_tmp;
static std::atomic<long> g_file{0};
static Op make_op(Rng& r, Inputs& in, int nmax) {
    Op o; o.threads = r.i(1, 5); int sd = r.i(0, 1 << 30); auto& g = in.g[r.i(0, 1)]; auto& h = in.h[r.i(0, 1)]; double al = r.p(.4) ? INF : r.u(1.2, 5), T = r.p(.4) ? 0 : r.u(.05, .95);
    auto list = [](Edges e) { Out o; o.size = e.size(); o.h = edge_hash(e); return o; }; auto vec = [](const std::vector<double>& v) { Out o; o.size = v.size(); o.h = hash_vec(v); return o; };
    int n = r.p(.5) ? r.i(3, 300) : r.i(3, nmax * 20); bool par = r.p(.8);
    switch (r.i(0, 10)) {
        case 0: case 1: o.name = fmt("girgs::generateEdges alpha=%g %s", al, g.desc.c_str()); o.run = [=, &g](int) { return list(girgs::generateEdges(g.w, g.x, al, sd)); }; break;
        case 2: o.name = fmt("SpatialTree alpha=%g %s", al, g.desc.c_str()); o.run = [=, &g](int t) { switch (g.d) { case 1: return tree<1>(g, al, sd, t); case 2: return tree<2>(g, al, sd, t); case 3: return tree<3>(g, al, sd, t); case 4: return tree<4>(g, al, sd, t); default: return tree<5>(g, al, sd, t); } }; break;
        case 3: case 4: o.name = fmt("hypergirgs::generateEdges T=%g %s", T, h.desc.c_str()); o.run = [=, &h](int) { return list(hypergirgs::generateEdges(h.r, h.a, T, h.R, sd)); }; break;
        case 5: o.name = fmt("HyperbolicTree T=%g %s", T, h.desc.c_str()); o.run = [=, &h](int t) { bool prof = t < 0; t = std::abs(t); Per p(t); auto cb = [&](int u, int v, int i) { p.per.at(i).e.emplace_back(u, v); }; auto tr = hypergirgs::makeHyperbolicTree(h.r, h.a, T, h.R, cb, prof); tr.generate(sd); return p.out(); }; break;
        case 6: { double ple = r.u(2.05, 3); o.name = fmt("generateWeights n=%d ple=%g", n, ple); o.run = [=](int) { return vec(girgs::generateWeights(n, ple, sd, par)); }; break; }
        case 7: { int d = r.i(1, 5); o.name = fmt("generatePositions n=%d d=%d", n, d); o.run = [=](int) { auto p = girgs::generatePositions(n, d, sd, par); Out o; o.size = p.size(); o.h = pos_hash(p); return o; }; break; }
        case 8: { double a = r.u(.51, 1), Rd = r.u(2, 30); int kind = r.i(0, 2); o.name = fmt("sampleRadii/Angles kind=%d n=%d", kind, n); o.run = [=](int) { if (kind == 0) return vec(hypergirgs::sampleRadii(n, a, Rd, sd, par)); if (kind == 1) return vec(hypergirgs::sampleAngles(n, sd, par)); auto p = hypergirgs::sampleRadiiAndAngles(n, a, Rd, sd, par); Out o = vec(p.first); o.h = mix(o.h ^ hash_vec(p.second)); return o; }; break; }
        case 9: if (r.p(.7)) { int m = r.i(20, std::max(21, nmax)); double deg = r.u(1, m / 4.0), ple = r.u(2.1, 3); int d = r.i(1, 5); double a2 = r.p(.4) ? INF : r.u(1.3, 6); auto w0 = girgs::generateWeights(m, ple, sd, false); o.name = fmt("scaleWeights n=%d deg=%g d=%d alpha=%g", m, deg, d, a2); o.run = [=](int) { auto w = w0; double f = girgs::scaleWeights(w, deg, d, a2); Out o; o.size = w.size(); w.push_back(f); o.approx = w; return o; }; }
                else { double a = r.u(.55, 1), T2 = r.p(.5) ? 0 : r.u(.05, .9), deg = r.u(1, 20); int m = r.i(50, 100000); o.name = fmt("calculateRadius n=%d alpha=%g T=%g deg=%g", m, a, T2, deg); o.run = [=](int) { Out o; o.size = 2; o.approx = {hypergirgs::calculateRadius(m, a, T2, deg), hypergirgs::calculateRadiusLikeNetworKit(m, a, T2, deg)}; return o; }; } break;
        default: { auto& e = in.e; o.name = fmt("saveDot %s", g.desc.c_str()); o.run = [&g, &e](int) { auto f = g_tmp + fmt("/dot%d_%ld", (int)getpid(), g_file.fetch_add(1)); Edges used; for (auto& p : e) if (p.first < (int)g.w.size() && p.second < (int)g.w.size()) used.push_back(p); girgs::saveDot(g.w, g.x, used, f); auto s = slurp(f); unlink(f.c_str()); Out o; o.size = s.size(); o.h = hash_bytes(s.data(), s.size()); return o; }; }
    }
    return o;
}
// the inputs of case k, and a change made to them in place: same sizes and addresses, other values
static Rng case_rng(uint64_t seed, long k) { return Rng(seed * 715225739 + k, 25); }
static Inputs make_inputs(Rng& r, int nmax) { Inputs in; for (auto& g : in.g) g = girg_case(r, r.i(2, nmax)); for (auto& h : in.h) h = hrg_case(r, r.i(2, nmax)); int m = in.g[0].w.size(); for (int q = r.i(0, 200); q--;) in.e.emplace_back(r.i(0, m - 1), r.i(0, m - 1)); return in; }
static void change(Inputs& in, Rng r) { int kind = r.i(1, 15);
    for (auto& g : in.g) { if (kind & 1) for (size_t i = g.w.size(); i > 1; --i) std::swap(g.w[i - 1], g.w[r.i(0, i - 1)]); if (kind & 2) { double f = r.u(1.05, 2); for (auto& w : g.w) w *= f; } if (kind & 4) std::reverse(g.x.begin(), g.x.end()); if (kind & 8) for (auto& x : g.x) for (auto& c : x) c = r.u(); }
    for (auto& h : in.h) { if (kind & 1) std::reverse(h.r.begin(), h.r.end()); if (kind & 2) for (auto& x : h.r) x = clampr(h.R - (h.R - x) * .8, h.R); if (kind & 4) std::reverse(h.a.begin(), h.a.end()); if (kind & 8) for (auto& x : h.a) x = r.u() * TWO_PI; }
    for (auto& p : in.e) if (kind & 1) std::swap(p.first, p.second); }
// a process that has made no call yet answers what a call returns there: every answer comes from a child of its own
struct Ask { long k; int op, changed; }; struct Reply { uint64_t h; uint64_t size; double approx[4000]; int n; };
static int g_ask[2], g_reply[2];
static bool rd(int f, void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t q = read(f, c, n); if (q <= 0) return false; c += q; n -= q; } return true; } static bool wr(int f, const void* p, size_t n) { auto c = (const char*)p; while (n) { ssize_t q = write(f, c, n); if (q <= 0) return false; c += q; n -= q; } return true; }
static void serve(uint64_t seed, int nmax) { Ask a; static Reply y; while (rd(g_ask[0], &a, sizeof a)) { pid_t p = fork(); if (!p) { Rng r = case_rng(seed, a.k); r.i(3, 9); Inputs in = make_inputs(r, nmax); Op o; for (int i = 0; i <= a.op; ++i) o = make_op(r, in, nmax); if (a.changed) change(in, Rng(seed + 99, a.k)); omp_set_num_threads(o.threads); Out x = o.run(o.threads); y.h = x.h; y.size = x.size; y.n = std::min<size_t>(4000, x.approx.size()); std::copy(x.approx.begin(), x.approx.begin() + y.n, y.approx); if (!wr(g_reply[1], &y, sizeof y)) _exit(4); _exit(0); }
        int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { y.n = -1; if (!wr(g_reply[1], &y, sizeof y)) _exit(4); } } _exit(0); }
static void start_server(uint64_t seed, int nmax) { if (pipe(g_ask) || pipe(g_reply)) exit(3); pid_t p = fork(); if (!p) { close(g_ask[1]); close(g_reply[0]); serve(seed, nmax); } close(g_ask[0]); close(g_reply[1]); }
static bool pristine(long k, int op, int changed, Out& x) { Ask a; memset(&a, 0, sizeof a); a.k = k; a.op = op; a.changed = changed; static Reply y; if (!wr(g_ask[1], &a, sizeof a) || !rd(g_reply[0], &y, sizeof y)) { printf("HARNESS no answer from the fresh process\n"); exit(3); } if (y.n < 0) return false; x.h = y.h; x.size = y.size; x.approx.assign(y.approx, y.approx + y.n); return true; }
// what a call prints on the standard streams
struct Spy : std::streambuf { std::mutex m; std::string text; std::streambuf *a = nullptr, *b = nullptr, *c = nullptr; void put(const char* s, size_t n) { std::lock_guard<std::mutex> l(m); if (text.size() < 200) text.append(s, std::min<size_t>(n, 200)); }
    int overflow(int ch) override { if (ch != EOF) { char q = (char)ch; put(&q, 1); } return 0; } std::streamsize xsputn(const char* s, std::streamsize n) override { put(s, n); return n; }
    void on() { text.clear(); a = std::cout.rdbuf(this); b = std::cerr.rdbuf(this); c = std::clog.rdbuf(this); } void off() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::clog.rdbuf(c); } };
// state a call could leave behind
struct Global { int omp, round, exc; std::ios::fmtflags c1, c2; std::streamsize p1, p2; std::string loc, cloc; bool operator==(const Global& o) const { return omp == o.omp && round == o.round && c1 == o.c1 && c2 == o.c2 && p1 == o.p1 && p2 == o.p2 && loc == o.loc && cloc == o.cloc; } };
static Global global() { Global g; g.omp = omp_get_max_threads(); g.round = std::fegetround(); g.c1 = std::cout.flags(); g.c2 = std::cerr.flags(); g.p1 = std::cout.precision(); g.p2 = std::cerr.precision(); g.loc = std::locale().name(); g.cloc = setlocale(LC_ALL, nullptr); g.exc = 0; return g; }
static int open_fds() { int k = 0; for (int i = 0; i < 256; ++i) k += fcntl(i, F_GETFD) >= 0; return k; }
static char g_now[512];
static void on_segv(int, siginfo_t*, void*) { char b[700]; int l = snprintf(b, sizeof b, "VIOL input-written write to a read-only input during %s\nDONE\n", g_now); (void)!write(1, b, l); _exit(1); }
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 20); int nmax = a.i("nmax", 400), protect = a.i("protect", 0); cell_budget() = a.f("cells", 5e4); g_tmp = a.s("tmp", "/tmp");
    signal(SIGPIPE, SIG_IGN); if (!protect) start_server(seed, nmax);
    for (long k = from; k < to; ++k) {
        Rng r = case_rng(seed, k); int nops = r.i(3, 9); if (vf_omp_sched) vf_omp_sched(0); if (vf_omp_team) vf_omp_team(0);
        Inputs in = make_inputs(r, nmax);
        if (protect) {   // every input array in pages of its own, read-only while the calls run
            if (!arena) { arena_size = 64 << 20; arena = (char*)mmap(nullptr, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
            arena_used = 0; arena_on = true; auto* cc = new Inputs(in); arena_on = false; Inputs& c = *cc; auto all = [&](int mode) { if (mprotect(arena, arena_size, mode)) { perror("mprotect"); exit(3); } };
            struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, nullptr);
            std::vector<Op> ops; for (int i = 0; i < nops; ++i) ops.push_back(make_op(r, c, nmax)); all(PROT_READ); R().stat("read_only_bytes", arena_used);
            for (auto& o : ops) { snprintf(g_now, sizeof g_now, "%s", o.name.c_str()); omp_set_num_threads(o.threads); o.run(o.threads); R().eval(); R().stat("calls_on_read_only_inputs"); }
            all(PROT_READ | PROT_WRITE); ops.clear(); cc->~Inputs(); signal(SIGSEGV, SIG_DFL); R().seen(mix(seed * 1000 + k)); R().sample(ops[0].name); continue;
        }
        std::vector<Op> ops; for (int i = 0; i < nops; ++i) ops.push_back(make_op(r, in, nmax)); const uint64_t ih = in.hash(); int fds = open_fds();
        auto ctx = [&](const Op& o, const char* how) { return fmt("%s threads=%d %s case %lu:%ld", o.name.c_str(), o.threads, how, seed, k); };
        auto ran = [&](Op& o, const char* how) { omp_set_num_threads(o.threads); Out x = o.run(o.threads); if (!same(x, o.alone)) R().viol(std::string("result-differs:") + o.name.substr(0, o.name.find(' ')), ctx(o, how) + fmt(" (%zu entries, %zu alone)", x.size, o.alone.size)); };
        // alone, checking what is left behind
        for (auto& o : ops) { omp_set_num_threads(o.threads); static Spy spy; auto g0 = global(); spy.on(); o.alone = o.run(o.threads); spy.off(); if (!(global() == g0)) R().viol("global-state-changed", ctx(o, "alone")); if (!spy.text.empty()) R().viol("prints", ctx(o, "alone") + ": " + spy.text); R().stat("silent_calls");
            if (o.name.find("Tree") != std::string::npos && r.p(.5)) { spy.on(); Out x = o.run(-o.threads); spy.off(); R().stat("profiled_calls"); R().stat("profiled_calls_with_report", spy.text.find("Time elapsed") != std::string::npos); if (!same(x, o.alone)) R().viol("profiling-changes-result", ctx(o, "with profiling") + fmt(" (%zu entries, %zu without)", x.size, o.alone.size)); }
            if (in.hash() != ih) { R().viol("input-modified", ctx(o, "alone")); break; } R().seen(o.alone.h ^ hash_vec(o.alone.approx)); }
        // in another order, one after the other
        for (int q = 0; q < nops; ++q) { auto& o = r.pick(ops); ran(const_cast<Op&>(o), "in sequence"); }
        // at the same time
        int callers = r.i(2, 5), each = r.i(2, 5); std::vector<std::vector<int>> plan(callers); bool samework = r.p(.3); int sw = r.i(0, nops - 1); for (auto& p : plan) for (int q = 0; q < each; ++q) p.push_back(samework ? sw : (int)r.i(0, nops - 1));
        if (vf_omp_sched) vf_omp_sched(mix(seed * 31 + k) | 1);
        std::atomic<int> gate{0}; std::vector<std::thread> th; for (int c = 0; c < callers; ++c) th.emplace_back([&, c] { if (vf_thread_begin) vf_thread_begin(); ++gate; while (gate < callers) sched_yield(); for (int q : plan[c]) ran(ops[q], "concurrently"); if (vf_thread_end) vf_thread_end(); });
        if (vf_join_begin) vf_join_begin(); for (auto& x : th) x.join(); if (vf_join_end) vf_join_end();
        if (in.hash() != ih) R().viol("input-modified", fmt("by concurrent calls, case %lu:%ld", seed, k)); if (open_fds() != fds) R().viol("file-left-open", fmt("case %lu:%ld", seed, k));
        // afterwards
        for (int q = 0; q < 3; ++q) { auto& o = r.pick(ops); ran(const_cast<Op&>(o), "after the concurrent calls"); }
        // in a process of its own without any history, and again after the inputs were changed in place
        auto fresh = [&](bool changed) { for (int i = 0; i < nops; ++i) { auto& o = ops[i]; if (o.approx_too_long() || !r.p(.5)) continue; const char* how = changed ? "after the inputs were changed in place" : "with a history of calls"; Out x; if (!pristine(k, i, changed, x)) { R().viol("fails-in-a-fresh-process", ctx(o, how)); continue; } omp_set_num_threads(o.threads); Out y = changed ? o.run(o.threads) : o.alone; R().eval(); R().stat(changed ? "changed_inputs_compared_with_fresh_process" : "compared_with_fresh_process"); if (!same(x, y)) R().viol(std::string("history-changes-result:") + o.name.substr(0, o.name.find(' ')), ctx(o, how) + fmt(" (%zu entries, %zu in a fresh process)", y.size, x.size)); } };
        fresh(false); change(in, Rng(seed + 99, k)); fresh(true);
        R().eval(callers * each + nops); R().stat("concurrent_calls", callers * each); R().stat("groups"); R().sample(ops[0].name + fmt(" callers=%d", callers));
    }
    return R().done();
}
