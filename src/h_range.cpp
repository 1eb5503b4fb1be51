// P18: parameter ranges of the command line tools, observed from outside.
#include "proc.h"
using namespace vf; using S = std::string; using V = std::vector<S>;
static S d17(double v) { return fmt("%.17g", v); }
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 50); S exe = a.s("exe"), tmp = a.s("tmp", "/tmp"), tool = a.s("tool"); bool hyp = tool == "genhrg";
    S dir = tmp + fmt("/rng_%d", (int)getpid()); mkdir(dir.c_str(), 0777); const double INF = std::numeric_limits<double>::infinity();
    for (long k = from; k < to; ++k) { Rng r(seed * 694847539 + k, 91); int maxthr = r.pick(std::vector<int>{1, 2, 3, 8}); ProcOpt o; o.cwd = dir; o.env = {fmt("OMP_NUM_THREADS=%d", maxthr)}; o.timeout = 40;
        int n = r.p(.3) ? r.i(2, 6) : r.i(10, 400); std::map<S, S> p; p["n"] = fmt("%d", n); p["deg"] = n < 10 ? "1" : "3"; p["file"] = "o"; p["edge"] = "1"; if (hyp) p["coord"] = "1"; else p["dot"] = "1"; S bad; bool info = false; V args;
        // valid values at and near the borders
        auto valid = [&](const S& nm) { if (nm == "deg") p[nm] = r.p(.3) ? "1" : r.p(.4) ? fmt("%d", n - 1) : d17(r.u(1, n - 1)); else if (nm == "threads") p[nm] = r.p(.5) ? fmt("%d", maxthr) : fmt("%ld", r.i(1, maxthr)); else if (nm == "d") p[nm] = fmt("%ld", r.i(1, 5)); else if (nm == "ple") p[nm] = r.p(.4) ? "3" : r.p(.4) ? d17(2 + r.logu(1e-9, .1)) : d17(r.u(2.01, 3)); else if (nm == "alpha" && !hyp) p[nm] = r.p(.3) ? "inf" : r.p(.3) ? d17(1 + r.logu(1e-9, .1)) : r.p(.2) ? "1e300" : d17(r.u(1, 9)); else if (nm == "alpha") p[nm] = r.p(.3) ? "1" : r.p(.4) ? d17(.5 + r.logu(1e-9, .1)) : d17(r.u(.51, 1)); else if (nm == "t") p[nm] = r.p(.3) ? "0" : r.p(.3) ? d17(1 - r.logu(1e-9, .1)) : r.p(.2) ? d17(r.logu(1e-100, 1e-3)) : d17(r.u(0, .99)); else p[nm] = fmt("%ld", r.p(.2) ? 2147483647 : r.p(.2) ? (long)-2147483648ll : r.i(-1000, 1000000)); };
        V names = hyp ? V{"alpha", "t", "deg", "threads", "rseed", "aseed", "sseed"} : V{"d", "ple", "alpha", "deg", "threads", "wseed", "pseed", "sseed"}; for (auto& nm : names) if (r.p(.35)) valid(nm);
        int kind = r.i(0, 9);   // 0-2 valid, 3-6 out of range, 7-8 not a number, 9 help and version
        if (kind >= 3 && kind <= 6) { auto off = [&](double lo, bool loOpen, double hi, bool hiOpen) -> S { switch (r.i(0, 7)) { case 0: return loOpen ? d17(lo) : lo == 0 ? "-1e-300" : d17(std::nextafter(lo, -INF)); case 1: return hi == INF ? d17(-INF) : hiOpen ? d17(hi) : d17(std::nextafter(hi, INF)); case 2: return "nan"; case 3: return hi == INF ? "-inf" : "inf"; case 4: return d17(lo - r.logu(1e-6, 1e6)); case 5: return hi == INF ? "-1" : d17(hi + r.logu(1e-6, 1e6)); case 6: return r.p(.5) ? "-nan" : "NaN"; default: return hi == INF ? "0" : "1e300"; } };
            auto offi = [&](long lo, long hi) -> S { return fmt("%ld", r.p(.3) ? lo - 1 : r.p(.4) ? hi + 1 : r.p(.5) ? lo - r.i(1, 1000000) : hi + r.i(1, 1000000)); };
            for (;;) { bad = names[r.i(0, names.size() - 1)]; if (bad == "d") p[bad] = offi(1, 5); else if (bad == "ple") p[bad] = off(2, true, 3, false); else if (bad == "alpha" && !hyp) p[bad] = off(1, true, INF, false); else if (bad == "alpha") p[bad] = off(.5, true, 1, false); else if (bad == "t") p[bad] = off(0, false, 1, true); else if (bad == "deg") { if (r.p(.25)) { n = r.p(.5) ? 1 : -(int)r.i(0, 100000); p["n"] = fmt("%d", n); p["deg"] = r.p(.5) ? "1" : "0"; } else p[bad] = off(1, false, n - 1.0, false); } else if (bad == "threads") p[bad] = offi(1, maxthr); else continue; break; }
            if (r.p(.15)) p["n"] = bad == "deg" ? p["n"] : "3000000"; }
        else if (kind == 7 || kind == 8) { bad = r.p(.2) ? "n" : names[r.i(0, names.size() - 1)]; p[bad] = r.pick(V{"abc", "-", ".", "x1", "one", "--", "e5", "+", "?", " ", "#1", "-x", "NULL"}); if ((bad == "alpha" || bad == "ple" || bad == "deg" || bad == "t") ? r.p(.1) : r.p(.2)) p[bad] = bad == "alpha" || bad == "ple" || bad == "deg" || bad == "t" ? "1e99999" : "99999999999999999999"; }
        if (kind == 9) { info = true; args = r.pick(std::vector<V>{{}, {"--help"}, {"-help"}, {"--version"}, {"--help", "-edge", "1", "-n", "50", "-file", "o"}, {"--version", "-edge", "1", "-n", "50", "-file", "o"}, {"--help", "-n", "abc"}}); }
        else { std::vector<std::pair<S, S>> l(p.begin(), p.end()); for (size_t i = l.size(); i-- > 1;) std::swap(l[i], l[r.i(0, i)]); for (auto& q : l) args.push_back("-" + q.first), args.push_back(q.second); }
        bool old = r.p(.4); V files = hyp ? V{"o.hyp", "o.txt"} : V{"o.dot", "o.txt"}; for (auto& f : list_dir(dir)) unlink((dir + "/" + f).c_str()); if (old) for (auto& f : files) spit(dir + "/" + f, "previous content of " + f);
        auto q = run_proc(exe, args, o, tmp); S ctx = tool + " " + join(args) + fmt(" (at most %d threads) ended with %s", maxthr, q.how().c_str()); auto v = [&](const char* key) { vf::R().viol(key, ctx + " " + q.err.substr(0, 300)); };
        if (memory_error(q)) v("memory-error"); if (q.timeout) { v("does-not-end"); break; }
        auto now = list_dir(dir); auto untouched = [&] { if (now != (old ? files : V{})) return false; if (old) for (auto& f : files) if (slurp(dir + "/" + f) != "previous content of " + f) return false; return true; };
        if (info) { if (!q.ok()) v("help-or-version-fails"); if (q.out.empty() && q.err.empty()) v("help-or-version-silent"); if (!untouched()) v("help-or-version-writes-files"); vf::R().stat("help_and_version"); }
        else if (kind <= 2) { if (!q.ok()) v("valid-parameters-rejected"); else if (now != files) v("valid-parameters-no-output"); vf::R().stat("valid"); }
        else { if (q.ok()) v(kind <= 6 ? "out-of-range-accepted" : "not-a-number-accepted"); if (!untouched()) v("rejected-but-output-written");
            if (kind <= 6) { bool named = false; for (size_t i = q.err.find(bad); i != S::npos; i = q.err.find(bad, i + 1)) { auto al = [&](size_t j) { return j < q.err.size() && (isalnum((unsigned char)q.err[j]) || q.err[j] == '_'); }; if (!(i && al(i - 1)) && !al(i + bad.size())) named = true; } if (!named) v("error-does-not-name-parameter"); vf::R().stat("out_of_range"); } else vf::R().stat("not_a_number"); vf::R().stat("rejected_" + bad); }
        vf::R().eval(); vf::R().seen(mix(std::hash<S>()(ctx))); vf::R().sample(ctx); }
    wipe(dir); return vf::R().done();
}
