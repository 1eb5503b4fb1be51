// A small OpenMP runtime (the GOMP_* / omp_* entry points gcc emits) for monitoring runs:
//  - built from pthread primitives only, so ThreadSanitizer sees every synchronisation and nothing else;
//  - team size granted may be smaller than requested (legal OpenMP behaviour), per VF_TEAM / vf_omp_team;
//  - thread start, barriers, critical sections are perturbed by seeded delays (vf_omp_sched);
//  - a monitor reports a deadlock when every thread of the program is blocked and nobody can wake it (exit 77).
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sched.h>
#include <time.h>
#include <errno.h>
#include <dlfcn.h>
#include <atomic>
#include <vector>
#include <map>
#include <string>

#if defined(__SANITIZE_THREAD__)
#define VF_TSAN 1
#else
#define VF_TSAN 0
#endif

namespace {
struct Lock { pthread_mutex_t& m; Lock(pthread_mutex_t& m):m(m){pthread_mutex_lock(&m);} ~Lock(){pthread_mutex_unlock(&m);} };

// ---- configuration
std::atomic<uint64_t> g_sched{0};      // 0: no perturbation
std::atomic<int> g_teammode{0};        // 0: full, k>0: at most k, -1: random size
std::atomic<int> g_teamlimit{0};
std::atomic<uint64_t> g_ticket{0};
int g_default_threads = 8;
struct Init { Init(){
    if (const char* e = getenv("OMP_NUM_THREADS")) g_default_threads = atoi(e) > 0 ? atoi(e) : 8;
    if (const char* e = getenv("VF_SCHED")) g_sched = strtoull(e, nullptr, 10);
    if (const char* e = getenv("VF_TEAM")) g_teammode = atoi(e);
} } g_init;

thread_local uint64_t t_rng = 0;
uint64_t rnd() {
    if (!t_rng) t_rng = (g_sched.load(std::memory_order_relaxed) + 1) * 0x9E3779B97F4A7C15ull + (g_ticket.fetch_add(1, std::memory_order_relaxed) + 1) * 0xBF58476D1CE4E5B9ull;
    t_rng += 0x9E3779B97F4A7C15ull; uint64_t z = t_rng;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
void nap_us(long us) { struct timespec t{us / 1000000, (us % 1000000) * 1000}; nanosleep(&t, nullptr); }
void perturb() {
    if (!g_sched.load(std::memory_order_relaxed)) return;
    switch (rnd() % 8) {
        case 0: case 1: sched_yield(); break;
        case 2: nap_us(1 + rnd() % 30); break;
        case 3: nap_us(1 + rnd() % 300); break;
        default: break;
    }
}

// ---- deadlock monitor: threads known to the runtime and whether they are blocked
std::atomic<int> g_threads{1}, g_blocked{0};
std::atomic<uint64_t> g_progress{0};
std::atomic<int> g_monitor{0};
std::atomic<int> g_foreign_idle{0};
void* monitor_main(void*) {
    uint64_t last = 0; int stable = 0;
    for (;;) {
        nap_us(200000);
        uint64_t p = g_progress.load(std::memory_order_relaxed);
        int th = g_threads.load(std::memory_order_relaxed), bl = g_blocked.load(std::memory_order_relaxed);
        if (th > 0 && bl >= th && p == last) { if (++stable >= 20) {
            fprintf(stderr, "DEADLOCK all %d threads blocked (barrier, condition or join) and no wake-up pending\n", th); fflush(stderr); _exit(77); } }
        else stable = 0;
        last = p;
    }
    return nullptr;
}
void start_monitor() {
    if (VF_TSAN) return;
    int z = 0;
    if (g_monitor.compare_exchange_strong(z, 1)) {
        pthread_t t; pthread_create(&t, nullptr, monitor_main, nullptr); pthread_detach(t);
    }
}
void progress() { g_progress.fetch_add(1, std::memory_order_relaxed); }
struct Blocked { Blocked(){ g_blocked.fetch_add(1, std::memory_order_relaxed);} ~Blocked(){ g_blocked.fetch_sub(1, std::memory_order_relaxed); progress(); } };

// ---- teams
struct WorkShare { long gen = 0; long next = 0, end = 0, incr = 1, chunk = 1; long ordered = 0; void* copy = nullptr; long sections = 0; };
struct Team {
    int n; int active_level;
    pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER;
    int arrived = 0; long generation = 0;
    std::atomic<long> single_slots[64]; // relaxed only: a single must not add happens-before edges
    pthread_mutex_t wm = PTHREAD_MUTEX_INITIALIZER;
    std::map<long, WorkShare> ws;
    void (*fn)(void*); void* data; int icv; int victim = -1;
    Team(int n) : n(n) { for (auto& s : single_slots) s.store(-1, std::memory_order_relaxed); }
};
thread_local Team* t_team = nullptr;
thread_local int t_tid = 0;
thread_local long t_ws = 0;          // work-sharing constructs met in this region
thread_local WorkShare* t_cur = nullptr;
thread_local int t_icv = 0;          // nthreads-var
int icv() { return t_icv > 0 ? t_icv : g_default_threads; }

void real_cond_wait(pthread_cond_t* c, pthread_mutex_t* m);
void real_cond_broadcast(pthread_cond_t* c);

void barrier(Team* t) {
    if (!t || t->n == 1) return;
    perturb();
    pthread_mutex_lock(&t->m);
    long g = t->generation;
    if (++t->arrived == t->n) { t->arrived = 0; t->generation++; progress();
        // waiters are runnable from here on
        g_blocked.fetch_sub(t->n - 1, std::memory_order_relaxed);
        real_cond_broadcast(&t->c); }
    else {
        g_blocked.fetch_add(1, std::memory_order_relaxed);
        while (t->generation == g) real_cond_wait(&t->c, &t->m);
        progress();
    }
    pthread_mutex_unlock(&t->m);
    perturb();
}
struct Start { Team* t; int tid; };
// now and then one thread of a team arrives very late: waits that give up after a while become visible
std::atomic<int> g_stall_ms{3000};   // left to spend in this process
int stall_victim(int n) {
    if (!g_sched.load(std::memory_order_relaxed) || n < 2 || g_stall_ms.load(std::memory_order_relaxed) <= 0 || rnd() % 48) return -1;
    return rnd() % 2 ? n - 1 : (int)(rnd() % n);
}
void stall() { int ms = rnd() % 12 == 0 ? 1100 : 160; g_stall_ms.fetch_sub(ms, std::memory_order_relaxed); nap_us(ms * 1000L); }
void region(Team* t, int tid) {
    Team* ot = t_team; int oi = t_tid; long ow = t_ws; int oc = t_icv; auto ocur = t_cur;
    t_team = t; t_tid = tid; t_ws = 0; t_icv = t->icv; t_cur = nullptr;
    perturb(); if (tid == t->victim) stall();
    t->fn(t->data);
    perturb();
    t_team = ot; t_tid = oi; t_ws = ow; t_icv = oc; t_cur = ocur;
}
void* worker(void* a) {
    Start* s = static_cast<Start*>(a);
    if (g_sched.load(std::memory_order_relaxed)) { rnd(); if (rnd() % 3 == 0) nap_us(rnd() % 2000); }
    region(s->t, s->tid);
    progress();
    g_threads.fetch_sub(1, std::memory_order_relaxed);
    return nullptr;
}
void parallel(void (*fn)(void*), void* data, unsigned req) {
    int n = req ? (int)req : icv();
    if (t_team && t_team->active_level >= 1) n = 1;
    int mode = g_teammode.load(std::memory_order_relaxed);
    if (mode > 0 && n > mode) n = mode;
    if (mode == -1 && n > 1) n = 1 + rnd() % n;
    if (n < 1) n = 1;
    Team t(n);
    t.active_level = (t_team ? t_team->active_level : 0) + (n > 1);
    t.fn = fn; t.data = data; t.icv = icv(); t.victim = stall_victim(n);
    if (n > 1) start_monitor();
    std::vector<pthread_t> th(n); std::vector<Start> st(n);
    g_threads.fetch_add(n - 1, std::memory_order_relaxed);
    std::vector<int> order; for (int i = 1; i < n; ++i) order.push_back(i);
    if (g_sched.load(std::memory_order_relaxed)) for (int i = (int)order.size() - 1; i > 0; --i) std::swap(order[i], order[rnd() % (i + 1)]);
    for (int i : order) {
        st[i] = Start{&t, i};
        int rc = pthread_create(&th[i], nullptr, worker, &st[i]);
        if (rc) { fprintf(stderr, "HARNESS pthread_create %d\n", rc); _exit(99); }
    }
    if (g_sched.load(std::memory_order_relaxed) && n > 1 && rnd() % 3 == 0) nap_us(rnd() % 1500);
    region(&t, 0);
    if (n > 1) { Blocked b; for (int i = 1; i < n; ++i) pthread_join(th[i], nullptr); }
    pthread_mutex_destroy(&t.m); pthread_cond_destroy(&t.c);
}
pthread_mutex_t g_critical = PTHREAD_MUTEX_INITIALIZER, g_atomic = PTHREAD_MUTEX_INITIALIZER, g_named = PTHREAD_MUTEX_INITIALIZER;

// dynamic loops and sections
WorkShare* ws_enter(long start, long end, long incr, long chunk) {
    static thread_local WorkShare solo;
    long id = t_ws++;
    if (!t_team) { solo = WorkShare(); solo.next = start; solo.end = end; solo.incr = incr; solo.chunk = chunk; t_cur = &solo; return t_cur; }
    Lock l(t_team->wm);
    auto it = t_team->ws.find(id);
    if (it == t_team->ws.end()) { WorkShare w; w.next = start; w.end = end; w.incr = incr; w.chunk = chunk > 0 ? chunk : 1; it = t_team->ws.emplace(id, w).first; }
    return t_cur = &it->second;
}
bool ws_next(long* istart, long* iend) {
    WorkShare* w = t_cur; if (!w) return false;
    perturb();
    if (t_team) pthread_mutex_lock(&t_team->wm);
    bool more = w->incr > 0 ? w->next < w->end : w->next > w->end;
    if (more) { *istart = w->next; long e = w->next + w->incr * w->chunk; if (w->incr > 0 ? e > w->end : e < w->end) e = w->end; *iend = e; w->next = e; }
    if (t_team) pthread_mutex_unlock(&t_team->wm);
    return more;
}
} // namespace

// ---- condition variables: interposed (not under TSan) so the monitor knows who waits
#if !VF_TSAN
namespace {
using cw_t = int (*)(pthread_cond_t*, pthread_mutex_t*);
using cs_t = int (*)(pthread_cond_t*);
using ctw_t = int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
cw_t r_wait() { static cw_t f = (cw_t)dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2"); return f; }
cs_t r_bc() { static cs_t f = (cs_t)dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2"); return f; }
cs_t r_sig() { static cs_t f = (cs_t)dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2"); return f; }
std::atomic<int> g_cvwaiters{0};
void real_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { r_wait()(c, m); }
void real_cond_broadcast(pthread_cond_t* c) { r_bc()(c); }
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    perturb();
    g_blocked.fetch_add(1, std::memory_order_relaxed);
    int r = r_wait()(c, m);
    g_blocked.fetch_sub(1, std::memory_order_relaxed); progress();
    return r;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) { progress(); return r_bc()(c); }
extern "C" int pthread_cond_signal(pthread_cond_t* c) { progress(); return r_sig()(c); }
#else
namespace {
void real_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { pthread_cond_wait(c, m); }
void real_cond_broadcast(pthread_cond_t* c) { pthread_cond_broadcast(c); }
}
#endif

extern "C" {
// ---- control
void vf_omp_sched(uint64_t s) { g_sched = s; t_rng = 0; g_ticket = 0; }
void vf_omp_team(int mode) { g_teammode = mode; }
int vf_omp_is_mini() { return 1; }
// application threads a harness starts itself tell the monitor about their life span
void vf_thread_begin() { g_threads.fetch_add(1); start_monitor(); }
void vf_thread_end() { progress(); g_threads.fetch_sub(1); }
void vf_join_begin() { g_blocked.fetch_add(1); }
void vf_join_end() { g_blocked.fetch_sub(1); progress(); }

// ---- GOMP ABI
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); return n ? n : icv(); }
void GOMP_barrier() { barrier(t_team); }
bool GOMP_barrier_cancel() { barrier(t_team); return false; }
bool GOMP_single_start() {
    perturb();
    long id = t_ws++;
    if (!t_team || t_team->n == 1) return true;
    auto& s = t_team->single_slots[id % 64];
    long cur = s.load(std::memory_order_relaxed);
    while (cur < id) if (s.compare_exchange_weak(cur, id, std::memory_order_relaxed)) return true;
    return false;
}
void* GOMP_single_copy_start() {
    if (!t_team || t_team->n == 1) return nullptr;
    long id = t_ws;
    if (GOMP_single_start()) return nullptr;
    barrier(t_team);
    Lock l(t_team->wm); return t_team->ws[-1 - id].copy;
}
void GOMP_single_copy_end(void* d) {
    if (!t_team || t_team->n == 1) return;
    { Lock l(t_team->wm); t_team->ws[-t_ws].copy = d; }
    barrier(t_team);
}
void GOMP_critical_start() { perturb(); pthread_mutex_lock(&g_critical); perturb(); }
void GOMP_critical_end() { pthread_mutex_unlock(&g_critical); perturb(); }
void GOMP_critical_name_start(void** p) {
    perturb(); pthread_mutex_t* m;
    { Lock l(g_named); if (!*p) { auto x = (pthread_mutex_t*)malloc(sizeof(pthread_mutex_t)); pthread_mutex_init(x, nullptr); static std::vector<void*> keep; keep.push_back(x); *p = x; } m = (pthread_mutex_t*)*p; }
    pthread_mutex_lock(m); perturb();
}
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock((pthread_mutex_t*)*p); perturb(); }
void GOMP_atomic_start() { perturb(); pthread_mutex_lock(&g_atomic); }
void GOMP_atomic_end() { pthread_mutex_unlock(&g_atomic); }

#define LOOP(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* is, long* ie) { ws_enter(s, e, i, c); return ws_next(is, ie); } \
bool GOMP_loop_##NAME##_next(long* is, long* ie) { return ws_next(is, ie); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
LOOP(ordered_static) LOOP(ordered_dynamic) LOOP(ordered_guided)
#define LOOPR(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long* is, long* ie) { ws_enter(s, e, i, 1); return ws_next(is, ie); } \
bool GOMP_loop_##NAME##_next(long* is, long* ie) { return ws_next(is, ie); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime) LOOPR(ordered_runtime)
#define LOOPU(NAME) \
bool GOMP_loop_ull_##NAME##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) { ws_enter((long)s, (long)e, (long)i, (long)c); return ws_next((long*)is, (long*)ie); } \
bool GOMP_loop_ull_##NAME##_next(unsigned long long* is, unsigned long long* ie) { return ws_next((long*)is, (long*)ie); }
LOOPU(dynamic) LOOPU(guided) LOOPU(nonmonotonic_dynamic) LOOPU(nonmonotonic_guided)
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* is, unsigned long long* ie) { ws_enter((long)s, (long)e, (long)i, 1); return ws_next((long*)is, (long*)ie); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(unsigned long long* is, unsigned long long* ie) { return ws_next((long*)is, (long*)ie); }
void GOMP_loop_end() { t_cur = nullptr; barrier(t_team); }
bool GOMP_loop_end_cancel() { t_cur = nullptr; barrier(t_team); return false; }
void GOMP_loop_end_nowait() { t_cur = nullptr; perturb(); }

struct PL { void (*fn)(void*); void* data; long s, e, i, c; };
static void pl_run(void* p) { PL* q = (PL*)p; ws_enter(q->s, q->e, q->i, q->c); q->fn(q->data); }
#define PARLOOP(NAME) void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { PL q{fn, d, s, e, i, c}; parallel(pl_run, &q, n); }
PARLOOP(dynamic) PARLOOP(guided) PARLOOP(nonmonotonic_dynamic) PARLOOP(nonmonotonic_guided) PARLOOP(static)
#define PARLOOPR(NAME) void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { PL q{fn, d, s, e, i, 1}; parallel(pl_run, &q, n); }
PARLOOPR(runtime) PARLOOPR(maybe_nonmonotonic_runtime) PARLOOPR(nonmonotonic_runtime)

unsigned GOMP_sections_start(unsigned cnt) { ws_enter(1, (long)cnt + 1, 1, 1); long a, b; return ws_next(&a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next() { long a, b; return ws_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { t_cur = nullptr; barrier(t_team); }
void GOMP_sections_end_nowait() { t_cur = nullptr; }
bool GOMP_sections_end_cancel() { t_cur = nullptr; barrier(t_team); return false; }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cnt, unsigned) { PL q{fn, d, 1, (long)cnt + 1, 1, 1}; parallel(pl_run, &q, n); }
void GOMP_ordered_start() {} void GOMP_ordered_end() {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) {
    if (cpy) { char* b = (char*)malloc(sz + al); char* a = (char*)(((uintptr_t)b + al - 1) / al * al); cpy(a, data); fn(a); free(b); } else fn(data);
}
void GOMP_taskwait() {} void GOMP_taskyield() {} void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {}
bool GOMP_cancel(int, bool) { return false; } bool GOMP_cancellation_point(int) { return false; }

// ---- omp API
int omp_get_max_threads() { return icv(); }
int omp_get_num_threads() { return t_team ? t_team->n : 1; }
int omp_get_thread_num() { return t_tid; }
void omp_set_num_threads(int n) { t_icv = n > 0 ? n : 1; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return t_team && t_team->active_level > 0; }
void omp_set_dynamic(int) {} int omp_get_dynamic() { return g_teammode != 0; }
void omp_set_nested(int) {} int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {} int omp_get_max_active_levels() { return 1; }
int omp_get_level() { return t_team ? 1 : 0; } int omp_get_active_level() { return t_team ? t_team->active_level : 0; }
int omp_get_thread_limit() { return 1 << 20; }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : t_tid; }
int omp_get_team_size(int l) { return l == 0 ? 1 : omp_get_num_threads(); }
int omp_get_cancellation() { return 0; }
void omp_set_schedule(int, int) {} void omp_get_schedule(int* a, int* b) { *a = 1; *b = 0; }
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void** l) { auto m = (pthread_mutex_t*)malloc(sizeof(pthread_mutex_t)); pthread_mutex_init(m, nullptr); *l = m; }
void omp_destroy_lock(void** l) { pthread_mutex_destroy((pthread_mutex_t*)*l); free(*l); }
void omp_set_lock(void** l) { perturb(); pthread_mutex_lock((pthread_mutex_t*)*l); }
void omp_unset_lock(void** l) { pthread_mutex_unlock((pthread_mutex_t*)*l); perturb(); }
int omp_test_lock(void** l) { return pthread_mutex_trylock((pthread_mutex_t*)*l) == 0; }
}
