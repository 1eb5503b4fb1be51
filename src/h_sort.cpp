// P23: integer sort. SORT_HEADER selects which of the two copies of the header is monitored.
#include "vf.h"
#include <memory>
#include SORT_HEADER
using namespace vf;
struct El { uint64_t key; uint32_t idx; uint32_t tag; }; struct Small { uint16_t key; uint32_t idx; };
template<class E, class K> static void one(Rng& r, size_t n, K maxkey, int dist, int form, int t) {
    struct Ex { K operator()(const E& e) const { return (K)e.key; } }; std::vector<E> v(n); uint64_t span = (uint64_t)maxkey + 1; size_t few = r.i(1, 5); std::vector<uint64_t> pool(few); for (auto& x : pool) x = span ? r.next() % span : r.next();
    for (size_t i = 0; i < n; ++i) { uint64_t k; switch (dist) { case 0: k = span ? r.next() % span : r.next(); break; case 1: k = pool[r.next() % few]; break; case 2: k = (uint64_t)((long double)maxkey * i / n); break; case 3: k = (uint64_t)((long double)maxkey * (n - 1 - i) / n); break; case 4: k = r.p(.99) ? 0 : maxkey; break; case 5: k = maxkey; break; case 6: { k = 1; k <<= r.i(0, 63); k -= r.p(.5); if (k > (uint64_t)maxkey) k = maxkey; break; } default: k = r.next() >> r.i(0, 63); if (k > (uint64_t)maxkey) k = span ? k % span : k; } v[i].key = k; v[i].idx = i; }
    auto want = v; std::stable_sort(want.begin(), want.end(), [](const E& a, const E& b) { return a.key < b.key; }); std::vector<E> got; K mk = maxkey;
    switch (form) { case 0: got = v; intsort::intsort(got, Ex{}, mk); break; case 1: { std::vector<E> pad(n + 2); pad[0].idx = pad[n + 1].idx = 4242; std::copy(v.begin(), v.end(), pad.begin() + 1); intsort::intsort(pad.begin() + 1, pad.begin() + 1 + n, Ex{}, mk); if (pad[0].idx != 4242 || pad[n + 1].idx != 4242) vf::R().viol("writes-outside-the-range", fmt("n=%zu", n)); got.assign(pad.begin() + 1, pad.begin() + 1 + n); break; }
        case 2: { std::unique_ptr<E[]> p(new E[n + 1]); std::copy(v.begin(), v.end(), p.get()); intsort::intsort(p, n, Ex{}, mk); got.assign(p.get(), p.get() + n); break; } case 3: { std::shared_ptr<E[]> p(new E[n + 1]); std::copy(v.begin(), v.end(), p.get()); intsort::intsort(p, n, Ex{}, mk); got.assign(p.get(), p.get() + n); break; } }
    std::string ctx = fmt("n=%zu key bits=%zu max key=%#lx keys=%d form=%d threads=%d", n, sizeof(K) * 8, (unsigned long)maxkey, dist, form, t); bool ok = got.size() == n, sorted = ok, perm = ok; if (ok) { for (size_t i = 0; i < n; ++i) if (got[i].key != want[i].key || got[i].idx != want[i].idx) ok = false; if (!ok) { for (size_t i = 1; i < n; ++i) if (got[i].key < got[i - 1].key) sorted = false; std::vector<char> s(n); for (auto& e : got) if (e.idx >= n || s[e.idx]++ || e.key != v[e.idx].key) perm = false; } }
    if (!ok) vf::R().viol(!perm ? "not-a-permutation" : !sorted ? "not-sorted" : "equal-keys-reordered", ctx); vf::R().eval(); vf::R().stat("elements", n); if (n > 131072 && t > 1) vf::R().stat("parallel_sorts"); if (n > 1) vf::R().seen(hash_vec(got)); vf::R().sample(ctx); }
int main(int argc, char** argv) { Args a(argc, argv); uint64_t seed = a.i("seed", 1); long from = a.i("from", 0), to = a.i("to", 100); long nmax = a.i("nmax", 5000); bool big = a.i("big", 0); const std::vector<int> th{1, 2, 3, 4, 5, 7, 8, 16};
    for (long k = from; k < to; ++k) { Rng r(seed * 49979687 + k, 8); int t = r.pick(th); omp_set_num_threads(t); if (vf_omp_sched) vf_omp_sched(mix(seed + k) | 1); if (vf_omp_team) vf_omp_team(r.p(.3) ? (r.p(.5) ? -1 : r.i(1, 4)) : 0); size_t n = big ? r.i(131000, nmax) : r.p(.25) ? r.i(0, 4) : r.p(.1) ? r.i(131070, 131080) : r.i(2, nmax); int bits = r.i(0, 32), dist = r.i(0, 7), form = r.i(0, 3);
        auto mk = [&](int b) { uint64_t top = b >= 64 ? ~0ull : (1ull << b) - 1; return r.p(.5) ? top : r.p(.3) && b < 63 ? top + 1 : (b ? (1ull << (b - 1)) + r.next() % (1ull << (b - 1)) : 0); };
        switch (r.i(0, 3)) { case 0: one<El, uint64_t>(r, n, mk(r.i(0, 64)), dist, form, t); break; case 1: one<Small, unsigned>(r, n, (unsigned)std::min<uint64_t>(mk(std::min(bits, 16)), 65535), dist, form, t); break; default: one<El, unsigned>(r, n, (unsigned)std::min<uint64_t>(mk(bits), 0xffffffffu), dist, form, t); } }
    return vf::R().done(); }
