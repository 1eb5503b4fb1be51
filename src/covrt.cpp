// Runtime of -fsanitize-coverage=trace-pc: counts executed basic blocks, injects seeded delays at them,
// and stops the program when a step budget is exceeded (logical time, not wall clock; exit 78).
#include <atomic>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
namespace {
std::atomic<uint64_t> g_steps{0}, g_budget{0}, g_delay{0}, g_ticket{0};
thread_local uint64_t t_pending = 0, t_until = 0, t_rng = 0;
uint64_t rnd() { if (!t_rng) t_rng = (g_delay.load(std::memory_order_relaxed) + 1) * 0x9E3779B97F4A7C15ull + (g_ticket.fetch_add(1, std::memory_order_relaxed) + 1) * 0xD1342543DE82EF95ull;
    t_rng += 0x9E3779B97F4A7C15ull; uint64_t z = t_rng; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
struct Flush { ~Flush() { g_steps.fetch_add(t_pending, std::memory_order_relaxed); t_pending = 0; } };
thread_local Flush t_flush;
struct Init { Init() { if (const char* e = getenv("VF_DELAY")) g_delay = strtoull(e, nullptr, 10); if (const char* e = getenv("VF_BUDGET")) g_budget = strtoull(e, nullptr, 10); } } g_init;
}
extern "C" {
__attribute__((no_sanitize_address)) void __sanitizer_cov_trace_pc() {
    if (++t_pending >= 4096) {
        (void)&t_flush;
        uint64_t s = g_steps.fetch_add(t_pending, std::memory_order_relaxed) + t_pending; t_pending = 0;
        uint64_t b = g_budget.load(std::memory_order_relaxed);
        if (b && s > b) { fprintf(stderr, "STEPBUDGET exceeded: %llu basic blocks executed, budget %llu\n", (unsigned long long)s, (unsigned long long)b); fflush(stderr); _exit(78); }
    }
    if (g_delay.load(std::memory_order_relaxed)) {
        if (t_until == 0) {
            t_until = 1 + rnd() % 20000;
            uint64_t k = rnd() % 6;
            if (k < 2) sched_yield(); else if (k == 2) { struct timespec t{0, (long)(rnd() % 100000)}; nanosleep(&t, nullptr); }
        }
        --t_until;
    }
}
uint64_t vf_steps() { return g_steps.load(std::memory_order_relaxed) + t_pending; }
void vf_steps_reset(uint64_t budget) { t_pending = 0; g_steps = 0; g_budget = budget; }
void vf_delay(uint64_t seed) { g_delay = seed; }
int vf_has_cov() { return 1; }
}
