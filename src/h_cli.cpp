// P16/P17: the command line tools against the library. The tool runs as a process, its files and log are compared with in-process results.
#include "proc.h"
#include <girgs/Generator.h>
#include <hypergirgs/Generator.h>
using namespace vf; using S = std::string;
static S num(Rng& r, double v, bool exact) { char b[64]; switch (r.i(0, exact ? 2 : 3)) { case 0: snprintf(b, 64, "%.17g", v); break; case 1: snprintf(b, 64, "%.17e", v); break; case 2: snprintf(b, 64, "+%.17g", v); break; default: snprintf(b, 64, "%.3f", v); } return b; }
static void norm(Edges& e) { for (auto& p : e) if (p.first > p.second) std::swap(p.first, p.second); std::sort(e.begin(), e.end()); }
static bool logged(const S& out, const S& name, S& val) { // "name = value" on a line of its own
    std::istringstream f(out); S l; while (std::getline(f, l)) { auto q = l.find('='); if (q == S::npos) continue; auto trim = [](S x) { auto a = x.find_first_not_of(" \t"), b = x.find_last_not_of(" \t\r"); return a == S::npos ? S() : x.substr(a, b - a + 1); }; if (trim(l.substr(0, q)) == name) { val = trim(l.substr(q + 1)); return true; } } return false; }
static bool after(const S& out, const S& key, double& v) { for (auto p = out.find(key); p != S::npos; p = out.find(key, p + 1)) if (sscanf(out.c_str() + p + key.size(), " = %lf", &v) == 1) return true; return false; }
template<class T> static S shown(T v) { std::ostringstream s; s << v; return s.str(); }
int main(int argc, char** argv) {
    Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 20); S exe = a.s("exe"), tmp = a.s("tmp", "/tmp"); bool hyp = a.s("tool") == "genhrg"; int nmax = a.i("nmax", 4000), nthr = 8;
    for (long k = from; k < to; ++k) { Rng r(seed * 472882027 + k, 55); S dir = tmp + fmt("/cli_%d_%ld", (int)getpid(), k); mkdir(dir.c_str(), 0777);
        // parameters: value, text, whether given
        std::vector<std::vector<S>> opts; auto give = [&](const S& name, const S& text) { opts.push_back({"-" + name, text}); };
        int n = 10000, threads = 1; double deg = 10; bool big = r.p(.12) || k % 67 == 33; bool hasn = r.p(.9) || k % 67 == 33; if (hasn) { n = k % 67 == 33 ? r.i(65530, 72000) : big ? r.i(20001, 45000) : r.p(.25) ? r.i(2, 12) : r.i(13, nmax); give("n", r.p(.1) ? fmt("+%d", n) : fmt("%d", n)); }
        bool hasdeg = n < 12 || r.p(.75); if (hasdeg) { double top = big || n > 5000 ? 15 : n - 1.0; deg = r.p(.1) ? 1 : r.p(.1) && n < 500 ? n - 1.0 : std::min(top, r.logu(1, std::min(top, 60.0) + .001)); deg = std::max(1.0, deg); S t = num(r, deg, true); give("deg", t); deg = strtod(t.c_str(), nullptr); }
        if (r.p(.5)) { threads = r.i(1, nthr); give("threads", fmt("%d", threads)); } auto sd = [&](const S& nm, int dflt, bool neg = false) { if (r.p(.6)) { int v = r.p(.1) ? 0 : r.p(.05) ? 2147483647 : neg ? -(int)r.i(1, 99) : (int)r.i(0, 1 << 30); give(nm, fmt("%d", v)); return v; } return dflt; };
        bool negative = r.p(.08); int s1, s2, s3; S name = "graph"; bool hasname = r.p(.85); if (hasname) { static const char* nm[] = {"out", "a.b", "with space", "sub/x", "x.txt", "graph2", "-odd", "./y", "9", "=z"}; name = nm[r.i(0, 9)]; if (name == "sub/x") mkdir((dir + "/sub").c_str(), 0777); give("file", name); }
        static const char* sw[] = {"1", "0", "1", "2", "true", "01", " 1", ""}; auto flag = [&](const S& nm, double p) { if (r.p(.12)) return false; S v = r.p(p) ? "1" : sw[r.i(0, 7)]; if (v.empty() && r.p(.5)) v = "0"; give(nm, v); return v == "1"; };
        int d = 1; double ple = 2.5, alpha = hyp ? .75 : std::numeric_limits<double>::infinity(), T = 0; bool nkr = false, dot = false, coord = false, edge;
        if (!hyp) { if (r.p(.75)) { d = n > 5000 ? r.i(1, 3) : n > 1500 ? r.i(1, 4) : r.i(1, 5); give("d", fmt("%d", d)); } if (r.p(.7)) { ple = r.p(.1) ? 3 : r.u(2.05, 3); S t = num(r, ple, true); give("ple", t); ple = strtod(t.c_str(), nullptr); }
            if (r.p(.7)) { static const char* inf[] = {"inf", "INF", "infinity", "Infinity"}; S t = r.p(.3) ? S(inf[r.i(0, 3)]) : num(r, r.p(.1) ? 50 : r.u(1.1, 6), true); give("alpha", t); alpha = strtod(t.c_str(), nullptr); } s1 = sd("wseed", 12, negative), s2 = sd("pseed", 130, negative), s3 = sd("sseed", 1400, negative); dot = flag("dot", .6); edge = flag("edge", .75); }
        else { if (r.p(.7)) { alpha = r.p(.1) ? 1 : r.u(.52, 1); S t = num(r, alpha, true); give("alpha", t); alpha = strtod(t.c_str(), nullptr); } if (r.p(.7)) { T = r.p(.2) ? 0 : r.p(.1) ? .999 : r.u(.01, .9); S t = num(r, T, true); give("t", t); T = strtod(t.c_str(), nullptr); } s1 = sd("rseed", 12, negative), s2 = sd("aseed", 130, negative), s3 = sd("sseed", 1400, negative); nkr = flag("nkr", .3); edge = flag("edge", .75); coord = flag("coord", .6); }
        for (size_t i = opts.size(); i-- > 1;) std::swap(opts[i], opts[r.i(0, i)]); std::vector<S> args; for (auto& o : opts) for (auto& x : o) args.push_back(x); if (r.p(.06)) args.insert(args.begin(), {"-n", "77"}), (hasn ? (void)0 : (void)(n = 77)); if (args.empty()) args = {"-threads", "1"}, threads = 1; deg = !hasdeg && n <= 10 ? deg : deg;
        // previous content must be replaced
        for (auto ext : {".txt", ".dot", ".hyp"}) if (r.p(.2)) { bool req = (S(ext) == ".txt" && edge) || (S(ext) == ".dot" && dot) || (S(ext) == ".hyp" && coord); if (req) spit(dir + "/" + name + ext, S(r.i(1, 3000000), 'Z')); }
        ProcOpt o; o.cwd = dir; o.env = {fmt("OMP_NUM_THREADS=%d", nthr)}; o.timeout = 150; S ctx = join(args);
        if (n < 2 || (!hasdeg && n < 12)) { wipe(dir); continue; }
        // reference
        omp_set_num_threads(threads); bool neg = s1 < 0 || s2 < 0 || s3 < 0; std::vector<double> w, ra, an; Pos x; Edges e; double scal = 0, R = 0;
        int tries = 0; std::vector<S> errs;
        for (; tries < 3; ++tries) { errs.clear(); auto bad = [&](const S& key, const S& m) { errs.push_back(key + " " + m); };
            if (!neg) { if (!hyp) { w = girgs::generateWeights(n, ple, s1, threads > 1); x = girgs::generatePositions(n, d, s2); scal = girgs::scaleWeights(w, deg, d, alpha); e = girgs::generateEdges(w, x, alpha, s3); } else { R = nkr ? hypergirgs::calculateRadiusLikeNetworKit(n, alpha, T, deg) : hypergirgs::calculateRadius(n, alpha, T, deg); ra = hypergirgs::sampleRadii(n, alpha, R, s1, threads > 1); an = hypergirgs::sampleAngles(n, s2, threads > 1); e = hypergirgs::generateEdges(ra, an, T, R, s3); } }
            auto p = run_proc(exe, args, o, tmp); if (!p.ok()) { bad("accepted-parameters-fail", p.how() + " " + p.err.substr(0, 200)); if (p.timeout) break; continue; }
            std::vector<S> want; auto base = [&](const S& ext) { S f = name + ext; auto q = f.find_last_of('/'); return q == S::npos ? f : f.substr(q + 1); }; if (edge) want.push_back(base(".txt")); if (dot) want.push_back(base(".dot")); if (coord) want.push_back(base(".hyp")); std::sort(want.begin(), want.end());
            auto got = list_dir(dir); if (name == "sub/x") { auto sub = list_dir(dir + "/sub"); got.erase(std::remove(got.begin(), got.end(), "sub"), got.end()); got.insert(got.end(), sub.begin(), sub.end()); } if (got != want) bad("files", "found {" + join(got) + "} instead of {" + join(want) + "}");
            Edges fe; bool have = false;
            if (edge) { long hn, hm; S er; Edges l; if (!parse_edges(slurp(dir + "/" + name + ".txt"), hn, hm, l, er)) bad("edge-list-format", er); else { if (hn != n || hm != (long)l.size()) bad("edge-list-header", fmt("%ld %ld for n=%d and %zu lines", hn, hm, n, l.size())); for (auto& q : l) if (q.first < 0 || q.second < 0 || q.first >= n || q.second >= n || q.first == q.second) { bad("edge-list-node", fmt("%d %d", q.first, q.second)); break; } norm(l); if (std::adjacent_find(l.begin(), l.end()) != l.end()) bad("edge-twice", ""); fe = l; have = true; } }
            if (!neg && have) { Edges q = e; norm(q); if (q != fe) bad("edges-differ-from-library", fmt("%zu edges in the file, the library yields %zu", fe.size(), q.size())); }
            if (dot) { DotGraph g; S er; if (!parse_dot(slurp(dir + "/" + name + ".dot"), g, er)) bad("dot-format", er); else { if ((int)g.label.size() != n) bad("dot-nodes", fmt("%zu nodes", g.label.size())); norm(g.e); if (have && g.e != fe) bad("dot-and-edge-list-differ", fmt("%zu and %zu edges", g.e.size(), fe.size())); if (!neg) { Edges q = e; norm(q); if (g.e != q) bad("dot-edges", fmt("%zu instead of %zu", g.e.size(), q.size())); for (int v = 0; v < n && v < (int)g.label.size(); ++v) { if (g.label[v] != fmt("%.2f", w[v])) { bad("dot-weight", fmt("node %d: %s instead of %.4f", v, g.label[v].c_str(), w[v])); break; } bool ok = (int)g.pos[v].size() == d; for (int c = 0; ok && c < d; ++c) ok = g.pos[v][c] == fmt("%.6f", x[v][c]); if (!ok) { bad("dot-position", fmt("node %d", v)); break; } } } } }
            if (coord) { S c = slurp(dir + "/" + name + ".hyp"); if (!neg) { S ref; for (int v = 0; v < n; ++v) ref += fmt("%.17f %.17f\n", ra[v], an[v]); if (c != ref) { size_t q = 0; while (q < c.size() && q < ref.size() && c[q] == ref[q]) ++q; bad("coordinates", fmt("differ at byte %zu of %zu (expected %zu bytes)", q, c.size(), ref.size())); }
                    std::istringstream f(c); double u, v2; for (int v = 0; v < n && f >> u >> v2; ++v) if ((ra[v] >= .0625 && u != ra[v]) || (an[v] >= .0625 && v2 != an[v])) { bad("coordinates-read-back", fmt("node %d", v)); break; } } else if (std::count(c.begin(), c.end(), '\n') != n) bad("coordinates", "line count"); }
            // log
            S v; auto lg = [&](const S& nm, const S& want) { if (!logged(p.out, nm, v)) bad("log-misses-parameter", nm); else if (v != want) bad("log-parameter", nm + " = " + v + " instead of " + want); };
            lg("n", shown(n)); lg("deg", shown(deg)); lg("threads", shown(threads)); lg("file", name); lg("alpha", shown(alpha)); lg("sseed", shown(s3)); lg("edge", shown(edge)); if (hyp) { lg("t", shown(T)); lg("rseed", shown(s1)); lg("aseed", shown(s2)); lg("nkr", shown(nkr)); lg("coord", shown(coord)); } else { lg("d", shown(d)); lg("ple", shown(ple)); lg("wseed", shown(s1)); lg("pseed", shown(s2)); lg("dot", shown(dot)); }
            double q; size_t m = neg ? fe.size() : e.size(); if (!neg || have) { if (!after(p.out, "avg deg", q)) bad("log-misses-average-degree", ""); else if (std::abs(q - 2.0 * m / n) > 1e-5 * std::max(1.0, 2.0 * m / n)) bad("log-average-degree", fmt("%g instead of %g", q, 2.0 * m / n)); }
            if (!neg && !hyp) { const double big = *std::max_element(w.begin(), w.end()) / scal; if (!after(p.out, "largest", q)) bad("log-misses-largest-weight", ""); else if (std::abs(q - big) > 2e-5 * big) bad("log-largest-weight", fmt("%g instead of %g", q, big)); } if (!neg && !hyp) { if (!after(p.out, "scaling", q)) bad("log-misses-scaling", ""); else if (std::abs(q - scal) > 2e-5 * scal) bad("log-scaling", fmt("%g instead of %g", q, scal)); } if (hyp) { double want = nkr ? hypergirgs::calculateRadiusLikeNetworKit(n, alpha, T, deg) : hypergirgs::calculateRadius(n, alpha, T, deg); auto pr = p.out.find("R = "); if (pr == S::npos || std::abs(atof(p.out.c_str() + pr + 4) - want) > 1e-4 * (1 + std::abs(want))) bad("log-radius", fmt("not %g", want)); }
            if (errs.empty()) break; if (threads == 1) { tries = 3; break; } }   // several threads: scaling factors are summed in any order, see P10
        if (!errs.empty()) for (auto& er : errs) vf::R().viol(er.substr(0, er.find(' ')), er.substr(er.find(' ') + 1) + "; " + a.s("tool") + " " + ctx); if (tries && errs.empty()) vf::R().stat("repeated_runs", tries);
        vf::R().eval(); vf::R().stat("edges_compared", e.size()); if (edge) vf::R().stat("edge_files"); if (dot) vf::R().stat("dot_files"); if (coord) vf::R().stat("coordinate_files"); if (neg) vf::R().stat("negative_seeds"); if (!hasname) vf::R().stat("default_name"); if (threads > 1) vf::R().stat("several_threads"); if (edge || dot || coord) vf::R().seen(mix(std::hash<S>()(ctx))); vf::R().sample(ctx + fmt(" -> %zu edges", e.size())); wipe(dir); }
    return vf::R().done();
}
