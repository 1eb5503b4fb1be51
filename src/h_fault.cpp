// P20: write faults. Success may only be reported for complete files.
#include "proc.h"
#include <girgs/Generator.h>
#include <stdexcept>
using namespace vf; using S = std::string; using V = std::vector<S>;
static int child(const Args& a) { Rng r(a.i("seed", 1), 5); int n = a.i("n", 10), m = a.i("m", 10), d = a.i("d", 2); std::vector<double> w(n); Pos x(n, std::vector<double>(d)); Edges e(m); for (auto& v : w) v = r.u(1, 100); for (auto& p : x) for (auto& c : p) c = r.u(); for (auto& q : e) q = {(int)r.i(0, n - 1), (int)r.i(0, n - 1)};
    try { girgs::saveDot(w, x, e, a.s("file")); } catch (const std::exception& ex) { fprintf(stderr, "exception: %s\n", ex.what()); return 3; } catch (...) { return 4; } return 0; }
int main(int argc, char** argv) {
    Args a(argc, argv); if (a.s("child") == "dot") return child(a);
    uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 50); S girg = a.s("girg"), hrg = a.s("hrg"), self = argv[0], pre = a.s("preload"), tmp = a.s("tmp", "/tmp"); { char b[4096]; if (self[0] != '/' && realpath(argv[0], b)) self = b; }
    S dir = tmp + fmt("/flt_%d", (int)getpid()); mkdir(dir.c_str(), 0777);
    for (long k = from; k < to; ++k) { Rng r(seed * 179424673 + k, 17); int who = r.i(0, 2); wipe(dir); mkdir(dir.c_str(), 0777); chmod(dir.c_str(), 0777); chmod(tmp.c_str(), 0777); mkdir((dir + "/ro").c_str(), 0755); mkdir((dir + "/ref").c_str(), 0777);
        int n = r.p(.3) ? r.i(2, 20) : (int)r.logu(20, 12000); S name = dir + "/f"; V exts, args; S exe, ctx; auto argv_for = [&](const S& nm) { V v; if (who == 0) { v = {"-n", fmt("%d", n), "-deg", "1", "-d", "2", "-file", nm}; for (auto& e : exts) v.insert(v.end(), {e == ".dot" ? "-dot" : "-edge", "1"}); } else if (who == 1) { v = {"-n", fmt("%d", n), "-deg", "1", "-file", nm}; for (auto& e : exts) v.insert(v.end(), {e == ".hyp" ? "-coord" : "-edge", "1"}); } else v = {"--child=dot", "--file=" + nm + ".dot", fmt("--n=%d", n), fmt("--m=%d", n), fmt("--seed=%ld", k)}; return v; };
        exe = who == 0 ? girg : who == 1 ? hrg : self; V all = who == 0 ? V{".dot", ".txt"} : who == 1 ? V{".txt", ".hyp"} : V{".dot"}; if (who == 2) exts = all; else { int q = r.i(1, 3); if (q & 1) exts.push_back(all[0]); if (q & 2) exts.push_back(all[1]); }
        ProcOpt o; o.cwd = dir; o.env = {"OMP_NUM_THREADS=2"}; auto p0 = run_proc(exe, argv_for(dir + "/ref/f"), o, tmp); if (!p0.ok()) { vf::R().viol("fails-without-fault", join(argv_for("f")) + " " + p0.how() + p0.err); continue; } std::map<S, S> ref; for (auto& e : exts) ref[e] = slurp(dir + "/ref/f" + e);
        S victim = r.pick(exts); int fault = r.i(0, 15); S nm = name, what; bool must = true; const S& body = ref[victim];   // must: the fault cannot be survived
        switch (fault) {
            case 0: nm = dir + "/missing/f"; what = "missing directory"; break;
            case 1: mkdir((nm + victim).c_str(), 0777); what = "path is a directory"; break;
            case 2: if (symlink("/dev/full", (nm + victim).c_str())) {} what = "full device"; break;
            case 3: case 4: case 5: { long big = 0; for (auto& q : ref) big = std::max(big, (long)q.second.size()); o.fsize = r.p(.2) ? 0 : r.p(.3) ? (long)body.size() - 1 : r.p(.2) ? (long)body.size() / 8191 * 8191 : r.i(0, body.size()); must = o.fsize < big; what = fmt("file size limit %ld of %zu", o.fsize, body.size()); break; }
            case 6: nm = dir + "/ro/f"; o.uid = 65534; what = "no permission for the directory"; break;
            case 7: spit(nm + victim, "old"); chmod((nm + victim).c_str(), 0444); o.uid = 65534; what = "file is read-only"; break;
            case 8: if (symlink((dir + "/gone/x").c_str(), (nm + victim).c_str())) {} what = "dangling link"; break;
            case 9: nm = dir + "/" + S(300, 'n'); what = "name too long"; break;
            default: { long writes = body.size() / 8191 + 2; static const char* kinds[] = {"eio", "enospc", "short", "eintr", "half", "once", "partonce", "half", "once", "partonce"}; S kd = kinds[r.i(0, 9)]; long at = r.i(0, std::max(0l, writes - 2)); o.env.push_back("LD_PRELOAD=" + pre); o.env.push_back(fmt("VF_FAULT=%s:%ld", kd.c_str(), at)); what = fmt("%s at write %ld", kd.c_str(), at); must = false; } }
        static std::vector<std::string> keep; auto p = run_proc(exe, argv_for(nm), o, tmp); if (p.exited() && WEXITSTATUS(p.status) >= 120 && WEXITSTATUS(p.status) <= 122) { vf::R().stat("not_startable_as_unprivileged_user"); continue; } bool complete = true; S where; for (auto& e : exts) if (slurp(nm + e) != ref[e]) complete = false, where = e; ctx = S(who == 2 ? "saveDot" : who ? "genhrg" : "gengirg") + fmt(" n=%d outputs={%s} ", n, join(exts).c_str()) + victim + ": " + what + ", ended with " + p.how();
        if (p.timeout) vf::R().viol("does-not-end", ctx); if (memory_error(p)) vf::R().viol("memory-error", ctx); if (p.ok() && (!complete || (must && fault != 2 && fault != 8))) vf::R().viol("success-for-incomplete-file", ctx + " " + where);
        if (p.ok() && must) vf::R().viol("success-despite-fault", ctx); if (who == 2 && !p.ok() && !(p.exited() && WEXITSTATUS(p.status) == 3)) vf::R().viol("no-exception", ctx + " " + p.err);
        vf::R().stat(fmt("fault_%s", fault <= 2 || (fault >= 6 && fault <= 9) ? "open_or_device" : fault <= 5 ? "size_limit" : "write_call")); vf::R().stat(p.ok() ? "completed_and_reported_success" : "failure_reported"); vf::R().eval(); vf::R().seen(mix(std::hash<S>()(ctx + fmt("%ld", k)))); vf::R().sample(ctx); }
    wipe(dir); return vf::R().done();
}
