// P19: saveDot is read back by an independent strict reader of the dot language.
#include "proc.h"
#include <girgs/Generator.h>
#include <locale>
using namespace vf; using S = std::string;
struct Punct : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
int main(int argc, char** argv) {
    struct rlimit lim{400u << 20, 400u << 20}; setrlimit(RLIMIT_FSIZE, &lim);   // a writer that does not end
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 50), nmax = a.i("nmax", 300); S dir = a.s("tmp", "/tmp") + fmt("/dot_%d_%lu_%ld", (int)getpid(), (unsigned long)seed, from); mkdir(dir.c_str(), 0777); S prev;
    for (long k = from; k < to; ++k) { Rng r(seed * 1299709 + k, 19); int n = k % 101 == 50 ? r.i(65530, 70000) : k % 401 == 200 ? r.i(70000, 140000) : r.p(.05) ? 0 : r.p(.2) ? r.i(1, 4) : r.p(.03) ? r.i(10000, 60000) : r.i(1, nmax), d = r.p(.85) ? r.i(1, 5) : r.i(6, 9), wk = r.i(0, 6), pk = r.i(0, 3);
        std::vector<double> w(n); Pos x(n, std::vector<double>(d)); Edges e;
        for (auto& v : w) switch (wk) { case 0: v = 1 + r.logu(1e-3, 1e3); break; case 1: v = r.i(0, 400) * .005; break; case 2: v = r.logu(1e-308, 1e308); break; case 3: v = r.i(1, 1000000); break; case 4: v = r.logu(1e-9, 1e-1); break; case 5: v = std::nextafter(r.i(1, 2000) * .01 + .005, r.p(.5) ? 0 : 1e9); break; default: v = r.logu(1e5, 1e18); }
        for (auto& p : x) for (auto& c : p) c = pk == 0 ? r.u() : pk == 1 ? std::ldexp((double)r.i(0, 255), -8) : pk == 2 ? (r.p(.5) ? std::nextafter(1.0, 0.0) : r.logu(1e-300, 1e-5)) : (r.i(0, 999999) + .5) * 1e-6;
        long m = n ? (r.p(.1) ? 0 : r.p(.03) ? r.i(100000, 400000) : r.i(0, 3 * n)) : 0; for (; m--;) { int u = r.i(0, n - 1), v = r.i(0, n - 1); if (r.p(.05)) v = u; e.emplace_back(u, v); if (r.p(.05)) e.push_back(e.back()); }
        S f = dir + "/" + r.pick(std::vector<S>{"g.dot", "a b.dot", "noext", "g.dot"}); bool had = false; if (r.p(.3)) spit(f, S(r.i(1, 200000), '}')), had = true; else had = exists(f); bool loc = r.p(.25); if (loc) std::locale::global(std::locale(std::locale::classic(), new Punct));
        auto w0 = w; auto x0 = x; auto e0 = e; S ctx = fmt("n=%d d=%d edges=%zu weights=%d positions=%d locale=%d replaces=%d", n, d, e.size(), wk, pk, loc, had);
        try { girgs::saveDot(w, x, e, f); } catch (...) { vf::R().viol("throws", ctx); }
        if (loc) std::locale::global(std::locale::classic()); if (w != w0 || x != x0 || e != e0) vf::R().viol("arguments-modified", ctx);
        S s = slurp(f), er; DotGraph g; if (!parse_dot(s, g, er)) vf::R().viol("not-a-graph", er + "; " + ctx);
        else { if ((int)g.label.size() != n) vf::R().viol("node-count", fmt("%zu; ", g.label.size()) + ctx); for (int v = 0; v < n && v < (int)g.label.size(); ++v) { if (g.label[v] != fmt("%.2f", w[v])) { vf::R().viol("weight-label", fmt("node %d has %s instead of %.2f; ", v, g.label[v].c_str(), w[v]) + ctx); break; } bool ok = (int)g.pos[v].size() == d; for (int c = 0; ok && c < d; ++c) ok = g.pos[v][c] == fmt("%.6f", x[v][c]); if (!ok) { vf::R().viol("position", fmt("node %d; ", v) + ctx); break; } } if (g.e != e) vf::R().viol("edges", fmt("%zu read back; ", g.e.size()) + ctx); }
        if (r.p(.1)) for (auto& q : list_dir(dir)) unlink((dir + "/" + q).c_str()); vf::R().stat("nodes", n); vf::R().stat("edges", e.size()); vf::R().stat("bytes", s.size()); if (had) vf::R().stat("replaced_files"); if (loc) vf::R().stat("foreign_locale"); vf::R().eval(); if (n) vf::R().seen(hash_bytes(s.data(), s.size())); vf::R().sample(ctx); }
    wipe(dir); return vf::R().done();
}
