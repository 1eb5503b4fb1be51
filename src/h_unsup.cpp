// P31: requests the library does not support.
#include "girg_cases.h"
#include "proc.h"
#include <girgs/Generator.h>
#include <iostream>
using namespace vf; using S = std::string;
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 50); S dir = a.s("tmp", "/tmp") + fmt("/uns_%d", (int)getpid()); mkdir(dir.c_str(), 0777); const double INF = std::numeric_limits<double>::infinity();
    for (long k = from; k < to; ++k) { Rng r(seed * 32416190071ull + k, 3); int n = r.p(.3) ? r.i(1, 4) : r.i(1, 400); omp_set_num_threads(r.i(1, 6)); std::vector<double> w(n); for (auto& v : w) v = r.p(.3) ? 1 : r.logu(1, 50); S ctx;
        switch (r.i(0, 2)) {
            case 0: { int d = r.p(.2) ? 0 : r.p(.5) ? 6 : r.i(6, 40); Pos x(n, std::vector<double>(d)); for (auto& p : x) for (auto& c : p) c = r.u(); double al = r.p(.4) ? INF : r.u(.5, 5); ctx = fmt("generateEdges n=%d d=%d alpha=%g", n, d, al); auto w0 = w; auto x0 = x; std::ostringstream o; auto old = std::cout.rdbuf(o.rdbuf()); size_t e = 0; bool th = false; try { e = girgs::generateEdges(w, x, al, r.i(0, 1 << 30)).size(); } catch (...) { th = true; } std::cout.rdbuf(old);
                if (th) vf::R().viol("throws", ctx); if (e) vf::R().viol("edges-for-unsupported-dimension", fmt("%zu edges; ", e) + ctx); S s = o.str(); if (s.find("not supported") == S::npos || s.find(std::to_string(d)) == S::npos) vf::R().viol("silent", ctx + ": " + s); if (w != w0 || x != x0) vf::R().viol("arguments-modified", ctx); vf::R().stat("dimensions"); break; }
            case 1: { double al = r.pick(std::vector<double>{0, -0.0, 1, -1, -INF, -1e-300, -r.logu(1e-9, 1e9), 1, 0}); int d = r.i(1, 5); double deg = r.u(.5, std::max(1.0, n - 1.0)); ctx = fmt("scaleWeights n=%d alpha=%.17g d=%d deg=%g", n, al, d, deg); auto w0 = w; bool th = false; double f = 0; try { f = girgs::scaleWeights(w, deg, d, al); } catch (...) { th = true; } if (!th) vf::R().viol("no-exception", ctx + fmt(" returned %g", f)); if (w != w0) vf::R().viol("weights-modified", ctx); vf::R().stat("scaling"); break; }
            default: { S f = r.pick(std::vector<S>{dir + "/none/g.dot", dir, dir + "/" + S(300, 'x'), dir + "/file/g.dot", "", dir + "/loop", "/proc/vf/none"}); spit(dir + "/file", "text"); if (!exists(dir + "/loop")) if (symlink("loop", (dir + "/loop").c_str())) {} Pos x(n, {.5, .25}); Edges e; ctx = "saveDot " + (f.size() > 100 ? S("name too long") : f); bool th = false; S m; auto before = list_dir(dir); try { girgs::saveDot(w, x, e, f); } catch (const std::exception& ex) { th = true; m = ex.what(); } catch (...) { th = true; m = f; } if (!th) vf::R().viol("no-exception", ctx); else if (m.find(f) == S::npos) vf::R().viol("exception-does-not-name-path", ctx + ": " + m); if (list_dir(dir) != before || slurp(dir + "/file") != "text") vf::R().viol("files-changed", ctx); vf::R().stat("paths"); } }
        vf::R().eval(); vf::R().seen(mix(std::hash<S>()(ctx) + (ctx[1] == 'a' ? k : 0))); vf::R().sample(ctx); }
    wipe(dir); return vf::R().done();
}
