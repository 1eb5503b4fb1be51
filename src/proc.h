#pragma once
// Running command line tools under supervision: arguments, scratch directory, limits, captured output.
#include "vf.h"
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/types.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
namespace vf {
struct ProcResult { int status = 0; bool timeout = false; double secs = 0; std::string out, err; bool exited() const { return WIFEXITED(status); } bool ok() const { return !timeout && WIFEXITED(status) && WEXITSTATUS(status) == 0; }
    std::string how() const { return timeout ? "timeout" : WIFEXITED(status) ? fmt("exit %d", WEXITSTATUS(status)) : fmt("signal %d", WTERMSIG(status)); } };
struct ProcOpt { std::string cwd; std::vector<std::string> env; long fsize = -1; int uid = 0; double timeout = 60; };
inline std::string slurp(const std::string& p) { struct stat st; if (stat(p.c_str(), &st) || !S_ISREG(st.st_mode)) return ""; std::ifstream f(p, std::ios::binary); std::ostringstream s; s << f.rdbuf(); return s.str(); }
inline void spit(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f << s; }
inline bool exists(const std::string& p) { struct stat s; return lstat(p.c_str(), &s) == 0; }
inline std::vector<std::string> list_dir(const std::string& p) { std::vector<std::string> r; if (DIR* d = opendir(p.c_str())) { while (auto e = readdir(d)) { std::string s = e->d_name; if (s != "." && s != "..") r.push_back(s); } closedir(d); } std::sort(r.begin(), r.end()); return r; }
inline void wipe(const std::string& p) { struct stat s; if (lstat(p.c_str(), &s)) return; if (S_ISDIR(s.st_mode)) { for (auto& e : list_dir(p)) wipe(p + "/" + e); rmdir(p.c_str()); } else unlink(p.c_str()); }
inline ProcResult run_proc(const std::string& exe, const std::vector<std::string>& args, const ProcOpt& o, const std::string& capdir) {
    ProcResult r; static std::atomic<int> ctr{0}; int id = ctr++; std::string fo = capdir + fmt("/cap_%d_%d.o", (int)getpid(), id), fe = capdir + fmt("/cap_%d_%d.e", (int)getpid(), id); double t0 = now_s();
    std::vector<char*> av; av.push_back((char*)exe.c_str()); for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr);
    int ofd = open(fo.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0666), efd = open(fe.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0666); fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        setpgid(0, 0); int nul = open("/dev/null", O_RDONLY); dup2(nul, 0); if (o.fsize < 0) { dup2(ofd, 1); dup2(efd, 2); } else { int ps = open("/dev/null", O_WRONLY); dup2(ps, 1); dup2(ps, 2); }
        if (!o.cwd.empty() && chdir(o.cwd.c_str())) _exit(120); for (auto& e : o.env) putenv((char*)e.c_str());
        struct rlimit nc{0, 0}; setrlimit(RLIMIT_CORE, &nc); if (o.fsize < 0) { struct rlimit l{1u << 30, 1u << 30}; setrlimit(RLIMIT_FSIZE, &l); } if (o.fsize >= 0) { signal(SIGXFSZ, SIG_IGN); struct rlimit l{(rlim_t)o.fsize, (rlim_t)o.fsize}; setrlimit(RLIMIT_FSIZE, &l); }
        if (o.uid) { if (setgid(o.uid) || setuid(o.uid)) _exit(121); }
        execv(exe.c_str(), av.data()); _exit(122);
    }
    for (;;) { pid_t w = waitpid(p, &r.status, WNOHANG); if (w == p) break; double el = now_s() - t0; if (el > o.timeout) { kill(-p, SIGKILL); waitpid(p, &r.status, 0); r.timeout = true; break; } usleep(el < .02 ? 300 : el < .2 ? 2000 : 10000); }
    close(ofd); close(efd); r.secs = now_s() - t0; r.out = slurp(fo); r.err = slurp(fe); unlink(fo.c_str()); unlink(fe.c_str()); return r;
}
inline std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) { s += s.empty() ? "" : " "; s += x.find(' ') == std::string::npos && !x.empty() ? x : "'" + x + "'"; } return s; }
inline bool memory_error(const ProcResult& p) { return p.err.find("AddressSanitizer") != std::string::npos || p.err.find("LeakSanitizer") != std::string::npos || p.err.find("runtime error:") != std::string::npos || (WIFSIGNALED(p.status) && (WTERMSIG(p.status) == SIGSEGV || WTERMSIG(p.status) == SIGBUS || WTERMSIG(p.status) == SIGFPE || WTERMSIG(p.status) == SIGILL)); }
// ---- strict readers of the documented formats
struct DotGraph { std::vector<std::string> label; std::vector<std::vector<std::string>> pos; Edges e; };
inline bool parse_dot(const std::string& s, DotGraph& g, std::string& err) { // tokens of the dot language
    std::vector<std::string> t; size_t i = 0, n = s.size();
    while (i < n) { unsigned char c = s[i]; if (isspace(c)) { ++i; continue; } if (c == '"') { size_t j = i + 1; while (j < n && s[j] != '"') j += s[j] == '\\' ? 2 : 1; if (j >= n) { err = "unterminated string"; return false; } t.push_back(s.substr(i, j - i + 1)); i = j + 1; continue; }
        if (c == '-' && i + 1 < n && s[i + 1] == '-') { t.push_back("--"); i += 2; continue; } if (strchr("{}[];,=", c)) { t.push_back(std::string(1, c)); ++i; continue; }
        size_t j = i; while (j < n && (isalnum((unsigned char)s[j]) || s[j] == '_' || s[j] == '.' || (s[j] == '-' && j == i))) ++j; if (j == i) { err = fmt("unexpected character %d at %zu", c, i); return false; } t.push_back(s.substr(i, j - i)); i = j; }
    size_t p = 0; auto at = [&](size_t k) -> std::string { return k < t.size() ? t[k] : ""; }; if (at(p) == "strict") { err = "strict graph drops multi edges"; return false; } if (at(p) != "graph") { err = "no graph keyword"; return false; } ++p; if (at(p) != "{") ++p; if (at(p) != "{") { err = "no {"; return false; } ++p;
    auto number = [](const std::string& x, long& v) { if (x.empty() || x.find_first_not_of("0123456789") != std::string::npos || x.size() > 10) return false; v = atol(x.c_str()); return true; };
    while (p < t.size() && at(p) != "}") { long u, v; if (at(p) == ";") { ++p; continue; } std::string id = at(p); if (id.size() > 2 && id[0] == '"') id = id.substr(1, id.size() - 2);
        if (at(p + 1) == "=") { p += 3; continue; }   // graph attribute
        if (id == "node" || id == "edge" || id == "graph") { ++p; if (at(p) == "[") { while (p < t.size() && at(p) != "]") ++p; ++p; } continue; }
        if (!number(id, u)) { err = "statement starts with " + at(p); return false; }
        if (at(p + 1) == "--") { std::string id2 = at(p + 2); if (!number(id2, v)) { err = "edge to " + id2; return false; } g.e.emplace_back((int)u, (int)v); p += 3; if (at(p) == "[") { while (p < t.size() && at(p) != "]") ++p; ++p; } }
        else if (at(p + 1) == "[") { p += 2; std::string lab, po; bool hl = false, hp = false; while (p < t.size() && at(p) != "]") { std::string k = at(p); if (k == "," || k == ";") { ++p; continue; } if (at(p + 1) != "=") { err = "attribute without value: " + k; return false; } std::string val = at(p + 2); if (val.size() >= 2 && val[0] == '"') val = val.substr(1, val.size() - 2); if (k == "label") lab = val, hl = true; if (k == "pos") po = val, hp = true; p += 3; } if (at(p) != "]") { err = "no ]"; return false; } ++p;
            if (!hl || !hp) { err = fmt("node %ld lacks label or pos", u); return false; } if (u != (long)g.label.size()) { err = fmt("node statement %ld where %zu is due", u, g.label.size()); return false; } g.label.push_back(lab); std::vector<std::string> c; std::string cur; for (char ch : po) if (ch == ',') c.push_back(cur), cur.clear(); else cur += ch; c.push_back(cur); g.pos.push_back(c); }
        else { err = "node statement without attributes"; return false; } }
    if (at(p) != "}") { err = "file ends inside the graph"; return false; } if (p + 1 != t.size()) { err = "text after the graph"; return false; } return true;
}
inline bool parse_edges(const std::string& s, long& n, long& m, Edges& e, std::string& err) { // "n m", blank line, "u v" lines
    size_t i = 0; auto line = [&](std::string& l) { if (i >= s.size()) return false; size_t j = s.find('\n', i); if (j == std::string::npos) { err = "last line not terminated"; return false; } l = s.substr(i, j - i); i = j + 1; return true; }; std::string l; int k = 0;
    auto two = [&](const std::string& l, long& a, long& b) { k = 0; return sscanf(l.c_str(), "%ld %ld%n", &a, &b, &k) == 2 && (size_t)k == l.size() && l == std::to_string(a) + " " + std::to_string(b); };
    if (!line(l) || !two(l, n, m)) { err = "header: " + l; return false; } if (!line(l) || !l.empty()) { err = "no blank line after the header"; return false; } long a, b; while (i < s.size()) { if (!line(l) || !two(l, a, b)) { err = "line: " + l; return false; } e.emplace_back((int)a, (int)b); } return true;
}
}
