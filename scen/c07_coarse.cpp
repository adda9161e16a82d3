// C07: the coarse suballocator over a strict-ledger provider or fixed regions.
#include "common.h"
#include <algorithm>
#include <deque>
extern "C" {
#include "coarse.h"
}
using namespace simx;

namespace {
enum { ALLOC, FREE, SPLIT, MERGE, ADD, BADFREE, BADSPLIT, STATS, NOPS };
enum St { S_FREE, S_BUSY, S_LIVE };
struct Slot {
    St st = S_FREE;
    uintptr_t p = 0;
    size_t n = 0;
    uint64_t tag = 0;
};
struct Coarse : Scenario {
    Provider prov;
    void *ph = nullptr;
    coarse_t *c = nullptr;
    bool fixed = false, cbfree = true;
    int strategy = 0;
    std::deque<Slot> slots;
    std::map<uintptr_t, Slot *> live;
    uint64_t tags = 0;
    int inflight = 0;
    uint64_t started = 0;
    int pending = 0;
    Baseline base;
    const char *op_name(uint32_t k) override {
        static const char *n[] = {"alloc", "free",     "split",    "merge",
                                  "add",   "bad_free", "bad_split", "stats"};
        return n[k % NOPS];
    }
    const char *real_parts() override { return "coarse, ravl, base_alloc"; }
    const char *stub_parts() override { return "memory provider callbacks, OS"; }
    void generate(Rng &r, Program &p, bool thorough) override {
        p.cfg["fixed"] = r.chance(1, 2);
        p.cfg["cbfree"] = r.chance(2, 3);
        p.cfg["strat"] = r.range(0, 2);
        p.cfg["slots"] = r.range(3, 20);
        p.cfg["pages"] = r.range(1, r.chance(1, 2) ? 16 : 120);
        p.cfg["oddbase"] = r.chance(1, 6);
        p.cfg["mergeok"] = !r.chance(1, 8);
        p.cfg["splitok"] = !r.chance(1, 12);
        int nt = (int)r.range(1, 3), per = (int)r.range(10, thorough ? 120 : 50);
        int odd = (int)r.below(3);
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < per; i++) {
                int k = (int)r.pick(std::vector<int>{
                    ALLOC, ALLOC, ALLOC, ALLOC, FREE, FREE, FREE, SPLIT, MERGE,
                    MERGE, STATS});
                if (r.chance(1, 40))
                    k = ADD;
                else if (r.chance(1, 30))
                    k = r.chance(1, 2) ? BADFREE : BADSPLIT;
                size_t n = 4096 * (r.below(r.chance(1, 2) ? 3 : 12) + 1);
                if (odd == 1 || (odd == 2 && r.chance(1, 4)))
                    n = r.below(20000) + 1;
                if (r.chance(1, 60))
                    n = r.chance(1, 2) ? (size_t)0 - r.below(3 * 4096) : 0;
                size_t al = 0;
                if (r.chance(1, 3))
                    al = (size_t)1 << r.below(18);
                p.add((uint32_t)t, (uint32_t)k, (int64_t)r.below(64),
                      (int64_t)r.below(64), (int64_t)n, (int64_t)al,
                      (int64_t)r.below(1 << 20));
            }
        pick_faults(r, p,
                    {F_META, F_META, F_BAMMAP, F_PROV_ALLOC, F_PROV_SPLIT,
                     F_PROV_MERGE},
                    75);
    }
    static umf_result_t cb_alloc(void *h, size_t n, size_t al, void **ptr) {
        return provider_ops()->alloc(((Coarse *)h)->ph, n, al, ptr);
    }
    static umf_result_t cb_free(void *h, void *ptr, size_t n) {
        return provider_ops()->free(((Coarse *)h)->ph, ptr, n);
    }
    static umf_result_t cb_split(void *h, void *ptr, size_t t, size_t f) {
        return provider_ops()->ext.allocation_split(((Coarse *)h)->ph, ptr, t,
                                                    f);
    }
    static umf_result_t cb_merge(void *h, void *lo, void *hi, size_t t) {
        return provider_ops()->ext.allocation_merge(((Coarse *)h)->ph, lo, hi,
                                                    t);
    }
    // a region that the user of the coarse library owns
    void *new_region(size_t n, size_t off) {
        Unchecked u;
        size_t m = (n + off + 4095) / 4096 * 4096;
        void *a = os::reserve(m, 4096);
        Block b;
        b.size = n;
        b.map_base = a;
        b.map_size = m;
        b.serial = ++prov.n_alloc;
        arena_refs[(uintptr_t)a] = {1, m};
        prov.live[(uintptr_t)a + off] = b;
        prov.bytes += n;
        return (char *)a + off;
    }
    void setup(const Program &p) override {
        meta_oracle(true);
        base = baseline();
        lib_init();
        fixed = p.get("fixed");
        cbfree = p.get("cbfree", 1);
        strategy = (int)(p.get("strat") % 3);
        slots.resize((size_t)std::max<int64_t>(1, p.get("slots", 8)));
        prov.merge_ok = p.get("mergeok", 1);
        prov.split_ok = p.get("splitok", 1);
        provider_ops()->initialize(&prov, &ph);
        prov.before_free = [this](uintptr_t a, size_t n) {
            if (Slot *s = overlap(a, a + n, nullptr))
                violate("freed-under-user",
                        "provider got back [%#lx,+%zu) while [%#lx,+%zu) is "
                        "in use", (unsigned long)a, n, (unsigned long)s->p,
                        s->n);
        };
        coarse_params_t cp;
        memset(&cp, 0, sizeof cp);
        cp.provider = this;
        cp.page_size = 4096;
        cp.allocation_strategy = (coarse_strategy_t)strategy;
        if (!fixed) {
            cp.cb.alloc = cb_alloc;
            if (cbfree)
                cp.cb.free = cb_free;
        }
        cp.cb.split = cb_split;
        cp.cb.merge = cb_merge;
        if (coarse_new(&cp, &c))
            violate("create-failed", "coarse_new without faults");
        size_t n = 4096 * (size_t)std::max<int64_t>(1, p.get("pages", 8));
        if (fixed) {
            void *a = new_region(n, p.get("oddbase") ? 272 : 0);
            if (coarse_add_memory_fixed(c, a, n))
                violate("create-failed", "coarse_add_memory_fixed");
        } else if (coarse_add_memory_from_provider(c, n))
            violate("create-failed", "coarse_add_memory_from_provider");
    }
    Slot *overlap(uintptr_t a, uintptr_t e, const Slot *self) {
        auto it = live.lower_bound(e);
        while (it != live.begin()) {
            --it;
            Slot *s = it->second;
            if (s != self)
                return s->p + s->n > a && s->p < e ? s : nullptr;
        }
        return nullptr;
    }
    // used ranges and maximal free ranges of the provider's ledger
    std::vector<std::pair<uintptr_t, size_t>> shape() {
        std::vector<std::pair<uintptr_t, size_t>> v;
        const void *last = nullptr;
        bool last_free = false;
        for (auto &kv : prov.live) {
            bool fr = !live.count(kv.first);
            if (fr && last_free && last == kv.second.map_base &&
                v.back().first + v.back().second == kv.first)
                v.back().second += kv.second.size;
            else
                v.push_back({kv.first, kv.second.size});
            last_free = fr;
            last = kv.second.map_base;
        }
        return v;
    }
    size_t free_block_ge(size_t n) {
        for (auto &kv : prov.live)
            if (!live.count(kv.first) && kv.second.size >= n)
                return kv.first;
        return 0;
    }
    void check_exact(Slot &s, const char *what) {
        auto it = prov.live.find(s.p);
        if (it == prov.live.end() || it->second.size != s.n)
            violate("not-partition",
                    "%s: the block [%#lx,+%zu) is not exactly one range of the "
                    "memory taken from the provider", what, (unsigned long)s.p,
                    s.n);
        if (Slot *o = overlap(s.p, s.p + s.n, &s))
            violate("overlap", "%s: block [%#lx,+%zu) overlaps live block "
                               "[%#lx,+%zu)", what, (unsigned long)s.p, s.n,
                    (unsigned long)o->p, o->n);
    }
    void check_content(Slot &s, const char *when) {
        long o = verify((void *)s.p, s.n, s.tag);
        if (o >= 0)
            violate("content-lost", "%s: byte %ld of [%#lx,+%zu) is not what "
                                    "its owner wrote", when, o,
                    (unsigned long)s.p, s.n);
    }
    void take(Slot &s, uintptr_t p, size_t n, const char *what) {
        s.p = p;
        s.n = n;
        check_exact(s, what);
        s.tag = ++tags;
        fill((void *)p, n, s.tag);
        live[p] = &s;
        s.st = S_LIVE;
    }
    struct Guard { // knows whether the operation ran alone
        Coarse &c;
        uint64_t at, f0, m0;
        bool first;
        std::vector<std::pair<uintptr_t, size_t>> before;
        size_t bytes;
        explicit Guard(Coarse &k) : c(k) {
            first = c.inflight++ == 0;
            at = ++c.started;
            f0 = faults_fired();
            m0 = faults_fired_kind(F_PROV_MERGE);
            before = c.shape();
            bytes = c.prov.bytes;
        }
        ~Guard() { c.inflight--; }
        bool alone() { return first && c.started == at; }
        bool no_fault() { return faults_fired() == f0; }
        void unchanged(const char *what, umf_result_t r) {
            if (!c.fixed && !c.cbfree && !no_fault())
                c.pending++;
            if (!alone())
                return;
            // memory of a provider that cannot take it back stays for later
            if (!c.fixed && !c.cbfree && c.prov.bytes != bytes) {
                probe("memory kept for a later allocation");
                return;
            }
            if (c.prov.bytes != bytes)
                violate("failed-op-changed",
                        "a failed %s (%s) changed the memory taken from the "
                        "provider from %zu to %zu bytes", what, res_name(r),
                        bytes, c.prov.bytes);
            if (c.shape() != before)
                violate("failed-op-changed", "a failed %s (%s) changed the "
                                             "partition of the memory", what,
                        res_name(r));
        }
    };
    void exec(const Op &op) override {
        size_t k = slots.size();
        Slot &s = slots[(size_t)op.a[0] % k], &s2 = slots[(size_t)op.a[1] % k];
        size_t n = (size_t)op.a[2];
        int code = (int)(op.code % NOPS);
        if (code == ALLOC) {
            if (s.st != S_FREE)
                return;
            size_t al = (size_t)op.a[3];
            size_t eff = al < 4096 ? 4096 : al;
            s.st = S_BUSY;
            Guard g(*this);
            uintptr_t have = n + eff > n ? free_block_ge(n + eff) : 0;
            void *ptr = (void *)(uintptr_t)0xbad;
            umf_result_t r = coarse_alloc(c, n, al, &ptr);
            if (r) {
                s.st = S_FREE;
                if (!valid_result(r))
                    violate("bad-result", "alloc returned %d", (int)r);
                g.unchanged("allocation", r);
                if (have && n && g.alone() && g.no_fault() && prov.split_ok)
                    violate("capacity-lost",
                            "allocation of %zu bytes aligned to %zu failed "
                            "(%s), though the free range at %#lx is big enough",
                            n, eff, res_name(r), (unsigned long)have);
                if (!fixed && g.alone() && g.no_fault() && n &&
                    n < (1u << 30) && prov.split_ok)
                    violate("alloc-failed", "allocation of %zu bytes failed "
                                            "(%s) without any fault", n,
                            res_name(r));
                probe("allocation failed");
                return;
            }
            uintptr_t p = (uintptr_t)ptr;
            if (!p || p % eff)
                violate("misaligned", "got %p for alignment %zu", ptr, eff);
            if (have && g.alone() && g.no_fault() && prov.bytes != g.bytes &&
                prov.split_ok)
                violate("capacity-lost",
                        "new memory was taken for %zu bytes aligned to %zu "
                        "though the free range at %#lx is big enough", n, eff,
                        (unsigned long)have);
            take(s, p, n, "alloc");
        } else if (code == FREE) {
            if (s.st != S_LIVE)
                return;
            check_content(s, "before free");
            s.st = S_BUSY;
            check_exact(s, "before free");
            live.erase(s.p);
            Guard g(*this);
            umf_result_t r =
                coarse_free(c, (void *)s.p, op.a[4] % 3 ? s.n : 0);
            if (r)
                violate("free-failed", "free of [%#lx,+%zu) failed (%s)",
                        (unsigned long)s.p, s.n, res_name(r));
            s.st = S_FREE;
        } else if (code == SPLIT) {
            if (s.st != S_LIVE || &s == &s2 || s2.st != S_FREE || s.n < 2)
                return;
            size_t first = (size_t)op.a[4] % (s.n - 1) + 1;
            if (op.a[3] % 3 && s.n > 4096)
                first = (first / 4096 + 1) * 4096;
            if (first >= s.n)
                return;
            check_content(s, "before split");
            s.st = s2.st = S_BUSY;
            umf_result_t r;
            Guard g(*this);
            r = coarse_split(c, (void *)s.p, s.n, first);
            if (r) {
                if (g.alone() && g.no_fault() && prov.split_ok)
                    violate("split-failed", "split failed (%s) without fault",
                            res_name(r));
                g.unchanged("split", r);
                check_exact(s, "after a failed split");
                check_content(s, "after a failed split");
                s.st = S_LIVE;
                s2.st = S_FREE;
                probe("split failed");
                return;
            }
            check_content(s, "after split");
            uintptr_t p = s.p;
            size_t tot = s.n;
            live.erase(p);
            take(s, p, first, "split");
            take(s2, p + first, tot - first, "split");
            probe("split");
        } else if (code == MERGE) {
            if (s.st != S_LIVE)
                return;
            auto it = live.find(s.p + s.n);
            if (it == live.end() || it->second->st != S_LIVE)
                return;
            Slot &hi = *it->second;
            bool same = prov.live[s.p].map_base == prov.live[hi.p].map_base;
            check_content(s, "before merge");
            check_content(hi, "before merge");
            s.st = hi.st = S_BUSY;
            umf_result_t r;
            Guard g(*this);
            r = coarse_merge(c, (void *)s.p, (void *)hi.p, s.n + hi.n);
            if (r) {
                if (g.alone() && g.no_fault() && prov.merge_ok && same)
                    violate("merge-failed", "merge failed (%s) without fault",
                            res_name(r));
                g.unchanged("merge", r);
                check_exact(s, "after a failed merge");
                check_exact(hi, "after a failed merge");
                s.st = hi.st = S_LIVE;
                probe("merge failed");
                return;
            }
            check_content(s, "after merge");
            check_content(hi, "after merge");
            live.erase(hi.p);
            live.erase(s.p);
            size_t tot = s.n + hi.n;
            hi.st = S_FREE;
            take(s, s.p, tot, "merge");
            probe("merge");
        } else if (code == ADD) {
            size_t sz = 4096 * ((size_t)op.a[4] % 16 + 1);
            umf_result_t r;
            if (fixed) {
                void *a = new_region(sz, op.a[3] & 1 ? 64 : 0);
                Guard g(*this);
                r = coarse_add_memory_fixed(c, a, sz);
                if (r) {
                    if (g.alone() && g.no_fault())
                        violate("add-failed", "add_memory_fixed failed (%s) "
                                              "without fault", res_name(r));
                    // the region was not accepted: its owner takes it back
                    auto it = prov.live.find((uintptr_t)a);
                    if (it == prov.live.end() || it->second.size != sz)
                        violate("failed-op-changed", "a refused region was "
                                                     "used all the same");
                    Unchecked u;
                    prov.live.erase(it);
                    prov.bytes -= sz;
                    probe("region refused");
                }
            } else {
                Guard g(*this);
                r = coarse_add_memory_from_provider(c, sz);
                if (r)
                    g.unchanged("add_memory", r);
            }
        } else if (code == BADFREE) {
            if (s.st != S_LIVE || s.n < 3)
                return;
            s.st = S_BUSY;
            Guard g(*this);
            umf_result_t r =
                op.a[4] & 1
                    ? coarse_free(c, (void *)(s.p + 1), 0)
                    : coarse_free(c, (void *)s.p, s.n + 1 + (size_t)op.a[4] % 5);
            if (!r)
                violate("bad-free-accepted", "a free with a wrong pointer or "
                                             "size succeeded");
            g.unchanged("free", r);
            check_exact(s, "after a refused free");
            s.st = S_LIVE;
        } else if (code == BADSPLIT) {
            if (s.st != S_LIVE)
                return;
            s.st = S_BUSY;
            Guard g(*this);
            umf_result_t r;
            if (op.a[4] & 1)
                r = coarse_split(c, (void *)s.p, s.n + 4096, 4096);
            else if (op.a[4] & 2)
                r = coarse_split(c, (void *)s.p, s.n, s.n);
            else
                r = coarse_merge(c, (void *)s.p, (void *)(s.p + s.n),
                                 s.n + 1 + (size_t)op.a[4] % 7);
            // the block behind may have just the size the merge asked for
            if (!r && (op.a[4] & 3))
                violate("bad-split-accepted", "a wrong split succeeded");
            if (!r) {
                // fold the merged neighbour in (nobody else could free it)
                auto it = live.find(s.p + s.n);
                if (it == live.end())
                    violate("bad-merge-accepted", "merged with a block that is "
                                                  "not allocated");
                size_t tot = s.n + it->second->n;
                it->second->st = S_FREE;
                live.erase(it);
                live.erase(s.p);
                take(s, s.p, tot, "merge");
                return;
            }
            g.unchanged("split or merge", r);
            check_exact(s, "after a refused split");
            s.st = S_LIVE;
        } else {
            Guard g(*this);
            coarse_stats_t st = coarse_get_stats(c);
            check_stats(st, g.alone() ? "alone" : nullptr);
        }
    }
    void check_stats(const coarse_stats_t &st, const char *quiet) {
        if (st.alloc_size < st.used_size)
            violate("stats", "used %zu of %zu bytes", st.used_size,
                    st.alloc_size);
        if (!quiet)
            return;
        size_t used = 0;
        for (auto &kv : live)
            used += kv.second->n;
        if (pending) { // some memory may not be counted yet
            if (st.used_size != used || st.alloc_size > prov.bytes)
                violate("stats", "%s: the allocator reports %zu used, %zu are",
                        quiet, st.used_size, used);
            return;
        }
        if (st.used_size != used || st.alloc_size != prov.bytes)
            violate("stats", "%s: the allocator reports %zu used of %zu bytes, "
                             "%zu of %zu are", quiet, st.used_size,
                    st.alloc_size, used, prov.bytes);
        if (st.num_all_blocks != prov.live.size())
            violate("stats", "%s: %zu blocks reported, the memory is in %zu "
                             "pieces", quiet, st.num_all_blocks,
                    prov.live.size());
    }
    void finish() override {
        for (auto &s : slots)
            if (s.st == S_LIVE) {
                check_content(s, "at the end");
                check_exact(s, "at the end");
            }
        if (pending) {
            void *ptr = nullptr; // free(nullptr) is harmless
            if ((coarse_alloc(c, 4096, 0, &ptr) && prov.split_ok) ||
                coarse_free(c, ptr, 4096))
                violate("alloc-failed", "one page without faults");
            pending = 0;
        }
        check_stats(coarse_get_stats(c), "at the end");
        for (auto &s : slots)
            if (s.st == S_LIVE) {
                live.erase(s.p);
                s.st = S_FREE;
                if (coarse_free(c, (void *)s.p, s.n))
                    violate("free-failed", "free without faults failed");
            }
        check_stats(coarse_get_stats(c), "after freeing everything");
        size_t big = 0;
        if (prov.merge_ok && !faults_fired_kind(F_PROV_MERGE)) {
            std::map<void *, int> parts;
            for (auto &kv : prov.live) {
                if (++parts[kv.second.map_base] > 1)
                    violate("not-merged",
                            "after everything was freed the range at %#lx is "
                            "not one block", (unsigned long)kv.first);
            }
        }
        uintptr_t at = 0;
        for (auto &kv : prov.live)
            if (kv.second.size > big)
                big = kv.second.size, at = kv.first;
        if (prov.split_ok && (strategy == 1 || at % 4096))
            big = big > 8192 ? big - 8192 : 0;
        bool all_aligned = true; // the strategies may look at one block only
        for (auto &kv : prov.live)
            all_aligned &= kv.first % 4096 == 0;
        if (big && (all_aligned || strategy == 1)) {
            size_t bytes = prov.bytes;
            void *ptr = nullptr;
            umf_result_t r = coarse_alloc(c, big, 0, &ptr);
            if (prov.split_ok || strategy != 1) {
                if (r || prov.bytes != bytes)
                    violate("capacity-lost",
                            "after everything was freed, the largest range "
                            "(%zu bytes) cannot be allocated (%s)", big,
                            res_name(r));
                Slot s;
                s.p = (uintptr_t)ptr;
                s.n = big;
                check_exact(s, "largest");
                probe("largest range allocated again");
            }
            if (!r && coarse_free(c, ptr, big))
                violate("free-failed", "free of the largest range");
        }
        coarse_delete(c);
        if (!fixed && cbfree && !prov.live.empty())
            violate("not-released", "%zu ranges were not given back to the "
                                    "provider", prov.live.size());
        umfTearDown();
        check_no_leak(base, "everything");
    }
};
SIM_SCENARIO("C07.coarse", Coarse)
} // namespace
