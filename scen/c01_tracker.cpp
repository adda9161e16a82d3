// C01: address -> (pool, block) tracking under concurrency, nesting, split and
// merge, and failing metadata / provider calls.
#include "common.h"
#include "provider_tracking.h"
using namespace simx;

namespace {
enum { ALLOC, FREE, LOOKUP, SPLIT, MERGE, DEAD, UFREE, OUTER, NOPS };
enum { PA, PB, PN, PC, NPOOLS };

struct Root {
    uintptr_t p;
    size_t n;
    int pins = 0;
};
enum St { S_FREE, S_BUSY, S_LIVE, S_LOST };
struct Slot {
    St st = S_FREE;
    int pool = 0;
    uintptr_t p = 0;
    size_t n = 0;
    Root *root = nullptr;
    uintptr_t dead = 0;
    size_t dead_n = 0;
};
typedef std::pair<uintptr_t, size_t> Seg;
struct Active { // a lookup in flight
    uintptr_t addr;
    std::set<Seg> ok;
};
struct Inflight { // split or merge in flight
    uintptr_t p, mid;
    size_t n;
};

// Hands out single pages of the lower half of one block of pool A.
struct Carve {
    uintptr_t base = 0;
    size_t pages = 64;
    std::set<uintptr_t> used;
};
umf_result_t c_init(void *p, void **o) {
    *o = p;
    return UMF_RESULT_SUCCESS;
}
void c_fini(void *) {}
umf_result_t c_alloc(void *h, size_t size, size_t, void **ptr) {
    Carve *c = (Carve *)h;
    point();
    if (size > 4096 || fault(F_PROV_ALLOC))
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    // every fourth page stays with the outer block
    std::vector<uintptr_t> v;
    for (size_t i = 0; i < c->pages / 2; i++)
        if (i % 4 != 3 && !c->used.count(c->base + i * 4096))
            v.push_back(c->base + i * 4096);
    if (v.empty())
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    uintptr_t a = v[addr_rand() % v.size()];
    c->used.insert(a);
    *ptr = (void *)a;
    return UMF_RESULT_SUCCESS;
}
umf_result_t c_free(void *h, void *ptr, size_t) {
    Carve *c = (Carve *)h;
    point();
    if (!c->used.count((uintptr_t)ptr))
        violate("provider-bad-free", "%p was not handed out", ptr);
    if (fault(F_PROV_FREE))
        return UMF_RESULT_ERROR_UNKNOWN;
    c->used.erase((uintptr_t)ptr);
    return UMF_RESULT_SUCCESS;
}
void c_err(void *, const char **m, int32_t *e) {
    if (m)
        *m = "";
    if (e)
        *e = 0;
}
umf_result_t c_rec(void *, size_t, size_t *o) {
    *o = 4096;
    return UMF_RESULT_SUCCESS;
}
umf_result_t c_min(void *, void *, size_t *o) {
    *o = 4096;
    return UMF_RESULT_SUCCESS;
}
const char *c_name(void *) { return "CARVE"; }

struct Tracker : Scenario {
    Provider a, b;
    ThinPool pool[NPOOLS];
    PoolProvider np;
    Carve carve;
    umf_memory_provider_handle_t hc = nullptr;
    int nslots = 0, per = 8;
    std::vector<Slot> slots;
    std::vector<Active *> active;
    std::vector<Inflight> inflight;
    Baseline base;
    uint64_t lookups = 0;

    const char *op_name(uint32_t c) override {
        static const char *n[] = {"alloc", "free",  "lookup", "split", "merge",
                                  "dead",  "ufree", "outer"};
        return n[c % NOPS];
    }
    const char *real_parts() override {
        return "provider_tracking, critnib, base_alloc, memory_pool, "
               "memory_provider";
    }
    const char *stub_parts() override {
        return "upstream provider (strict ledger), pass-through pool, OS";
    }
    void generate(Rng &r, Program &p, bool thorough) override {
        int nt = (int)r.range(2, 4);
        int mode = (int)r.below(4); // 0 mixed, 1 nested, 2 split/merge, 3 churn
        int per_task = (int)r.range(8, thorough ? 60 : 28);
        p.cfg["mode"] = mode;
        int carve = (int)r.range(8, 64);
        p.cfg["carve"] = carve;
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < per_task; i++) {
                int c;
                int pl = (int)r.below(NPOOLS);
                switch (mode) {
                case 1:
                    pl = r.chance(3, 4) ? PC : (r.chance(1, 2) ? PN : PA);
                    c = (int)r.pick(std::vector<int>{ALLOC, ALLOC, FREE, UFREE,
                                                     OUTER, OUTER, LOOKUP,
                                                     LOOKUP, DEAD});
                    break;
                case 2:
                    pl = r.chance(3, 4) ? PA : PB;
                    c = (int)r.pick(std::vector<int>{ALLOC, FREE, SPLIT, SPLIT,
                                                     MERGE, MERGE, LOOKUP,
                                                     LOOKUP, LOOKUP, DEAD});
                    break;
                case 3:
                    pl = r.chance(3, 4) ? PA : PN;
                    c = (int)r.pick(std::vector<int>{ALLOC, ALLOC, FREE, FREE,
                                                     UFREE, LOOKUP, DEAD});
                    break;
                default:
                    c = (int)r.below(NOPS);
                    if (i < 4 && r.chance(1, 2))
                        c = ALLOC;
                }
                p.add((uint32_t)t, (uint32_t)c, (int64_t)r.below(32), pl,
                      r.range(1, 8), (int64_t)r.below(1000), (int64_t)r.below(4));
            }
        pick_faults(r, p,
                    {F_META, F_BAMMAP, F_PROV_ALLOC, F_PROV_FREE, F_PROV_SPLIT,
                     F_PROV_MERGE},
                    50);
    }
    void setup(const Program &p) override {
        meta_oracle(true);
        base = baseline();
        lib_init();
        carve.pages = (size_t)std::max<int64_t>(8, p.get("carve", 64));
        make_provider(&a);
        make_provider(&b);
        a.name = "A";
        b.name = "B";
        auto mk = [&](int i, umf_memory_provider_handle_t h) {
            if (make_thin_pool(&pool[i], h, 0))
                violate("create-failed", "umfPoolCreate failed without faults");
        };
        mk(PA, a.h);
        mk(PB, b.h);
        np.pool = pool[PA].h;
        if (umfMemoryProviderCreate(pool_provider_ops(), &np, &np.h))
            violate("create-failed", "provider");
        mk(PN, np.h);
        carve.base =
            (uintptr_t)umfPoolAlignedMalloc(pool[PA].h, carve.pages * 4096, 0);
        static umf_memory_provider_ops_t co;
        co.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
        co.initialize = c_init;
        co.finalize = c_fini;
        co.alloc = c_alloc;
        co.free = c_free;
        co.get_last_native_error = c_err;
        co.get_recommended_page_size = c_rec;
        co.get_min_page_size = c_min;
        co.get_name = c_name;
        if (umfMemoryProviderCreate(&co, &carve, &hc))
            violate("create-failed", "provider");
        mk(PC, hc);
        nslots = per * (int)(p.ntasks ? p.ntasks : 1);
        slots.resize((size_t)nslots);
    }

    // ------------------------------------------------------------ checks
    void check_hit(uintptr_t addr, int pl, const std::set<Seg> &ok,
                   const char *what) {
        umf_alloc_info_t info;
        memset(&info, 0, sizeof info);
        umf_result_t r = umfMemoryTrackerGetAllocInfo((void *)addr, &info);
        lookups++;
        if (r != UMF_RESULT_SUCCESS)
            violate("lookup-miss", "%s: address %#lx of a live block of pool "
                                   "%d resolves to nothing (%s)",
                    what, (unsigned long)addr, pl, res_name(r));
        if (info.pool != pool[pl].h)
            violate("lookup-wrong-pool",
                    "%s: address %#lx of a live block of pool %d resolves to "
                    "another pool", what, (unsigned long)addr, pl);
        if (!ok.count({(uintptr_t)info.base, info.baseSize}))
            violate("lookup-wrong-block",
                    "%s: address %#lx resolves to [%p,+%zu), block is "
                    "[%#lx,+%zu)", what, (unsigned long)addr, info.base,
                    info.baseSize, (unsigned long)ok.begin()->first,
                    ok.begin()->second);
    }
    void check_pool(uintptr_t addr, int pl) {
        umf_memory_pool_handle_t h = umfPoolByPtr((void *)addr);
        if (h != pool[pl].h)
            violate(h ? "lookup-wrong-pool" : "lookup-miss",
                    "umfPoolByPtr(%#lx) returned %s, block belongs to pool %d",
                    (unsigned long)addr, h ? "another pool" : "null", pl);
    }
    bool in_live(uintptr_t addr, int pl) {
        if (pl == PC)
            return carve.used.count(addr & ~4095ul);
        return a.find(addr) || b.find(addr);
    }
    Slot *free_slot(int t) {
        for (int i = 0; i < per; i++) {
            Slot &s = slots[(size_t)((t - 1) * per + i)];
            if (s.st == S_FREE)
                return &s;
        }
        return nullptr;
    }
    Slot *own(int t, int64_t k) {
        return &slots[(size_t)((t - 1) * per + (int)(k % per))];
    }
    void do_free(Slot &s, bool by_ptr) {
        s.st = S_BUSY;
        uint64_t f0 = faults_fired();
        ThinPool &tp = pool[s.pool];
        uint64_t n0 = tp.frees;
        umf_result_t r = by_ptr ? umfFree((void *)s.p)
                                : umfPoolFree(tp.h, (void *)s.p);
        if (r != UMF_RESULT_SUCCESS) {
            if (faults_fired() == f0)
                violate("free-failed", "free of a live block failed (%s) "
                                       "without any fault", res_name(r));
            // still owned, but which parts survived is unspecified when the
            // provider refused and the metadata allocator did too
            s.st = S_LOST;
            return;
        }
        if (tp.frees == n0)
            violate("free-missed-pool", "umfFree(%#lx) reported success but "
                                        "never reached the pool that owns it",
                    (unsigned long)s.p);
        s.dead = s.p;
        s.dead_n = s.n;
        s.st = S_FREE;
    }
    void check_dead(uintptr_t addr, int pl) {
        NoPreempt np_;
        bool live = pl == PC ? carve.used.count(addr & ~4095ul)
                             : (a.find(addr) || b.find(addr));
        if (live)
            return; // already reused
        umf_memory_pool_handle_t h = umfPoolByPtr((void *)addr);
        if (pl == PC) {
            if (h == pool[PC].h)
                violate("stale-lookup", "address %#lx still resolves to the "
                                        "inner pool after its block was freed",
                        (unsigned long)addr);
        } else if (h) {
            violate("stale-lookup", "address %#lx still resolves to a pool "
                                    "after its block went back to the provider",
                    (unsigned long)addr);
        }
        probe("dead lookup");
    }
    void exec(const Op &op) override {
        int t = task_id();
        if (t < 1)
            return;
        switch (op.code % NOPS) {
        case ALLOC: {
            Slot &s = *own(t, op.a[0]);
            if (s.st != S_FREE)
                return;
            int pl = (int)(op.a[1] % NPOOLS);
            size_t n = pl == PC ? 4096 : (size_t)(op.a[2] % 9 + 1) * 4096;
            if (pl != PC && op.a[4] == 3)
                n -= 1 + (size_t)op.a[3] % 1000;
            s.st = S_BUSY;
            uint64_t f0 = faults_fired();
            void *q = umfPoolAlignedMalloc(pool[pl].h, n, 0);
            if (!q) {
                if (faults_fired() == f0 && pl != PC)
                    violate("alloc-failed", "allocation failed without faults");
                if (faults_fired() != f0)
                    probe("alloc failed");
                s.st = S_FREE;
                return;
            }
            s.pool = pl;
            s.p = (uintptr_t)q;
            s.n = n;
            s.root = new Root{s.p, s.n, 0};
            s.st = S_LIVE;
            std::set<Seg> ok{{s.p, s.n}};
            s.root->pins++;
            check_hit(s.p + (uintptr_t)op.a[3] * s.n / 1000, pl, ok,
                      "after alloc");
            s.root->pins--;
            break;
        }
        case FREE:
        case UFREE: {
            Slot &s = *own(t, op.a[0]);
            if (s.st != S_LIVE || s.root->pins)
                return;
            do_free(s, op.code % NOPS == UFREE);
            if (s.st == S_FREE)
                check_dead(s.dead + (uintptr_t)op.a[3] * s.dead_n / 1000,
                           s.pool);
            break;
        }
        case LOOKUP: {
            Slot *s = &slots[(size_t)(op.a[0] * 7 + op.a[2]) % slots.size()];
            if (s->st != S_LIVE) {
                for (size_t k = 0; k < slots.size() && s->st != S_LIVE; k++)
                    s = &slots[(size_t)(op.a[0] + (int64_t)k) % slots.size()];
                if (s->st != S_LIVE)
                    return;
            }
            Active ac;
            uintptr_t off = op.a[4] == 0   ? 0
                            : op.a[4] == 1 ? s->n - 1
                                           : (uintptr_t)op.a[3] * s->n / 1000;
            ac.addr = s->p + off;
            ac.ok.insert({s->p, s->n});
            for (auto &f : inflight)
                allow(ac, f);
            Root *root = s->root;
            int pl = s->pool;
            root->pins++;
            active.push_back(&ac);
            if (s != own(t, (int64_t)(s - &slots[0])))
                probe("lookup of another task's block");
            if (op.a[4] & 1)
                check_pool(ac.addr, pl);
            check_hit_active(ac, pl);
            for (size_t i = 0; i < active.size(); i++)
                if (active[i] == &ac) {
                    active.erase(active.begin() + (long)i);
                    break;
                }
            root->pins--;
            break;
        }
        case OUTER: {
            uintptr_t addr;
            size_t half = carve.pages / 2;
            if (op.a[4] & 1)
                addr = carve.base + (half + (size_t)op.a[3] % half) * 4096;
            else { // the pages that are never carved out
                size_t k = half / 4;
                addr = carve.base + (4 * ((size_t)op.a[3] % k) + 3) * 4096;
            }
            addr += (uintptr_t)op.a[3] % 4096;
            std::set<Seg> ok{{carve.base, carve.pages * 4096}};
            check_hit(addr, PA, ok, "outer block with inner blocks");
            break;
        }
        case SPLIT: {
            Slot &s = *own(t, op.a[0]);
            if (s.st != S_LIVE || s.pool > PB || s.n < 64)
                return;
            Slot *h = free_slot(t);
            if (!h)
                return;
            size_t first = s.n >= 8192 && op.a[4] != 3
                               ? 4096 * (1 + (size_t)op.a[3] % (s.n / 4096 - 1))
                               : 1 + (size_t)op.a[3] * 7919 % (s.n - 1);
            ThinPool &tp = pool[s.pool];
            Inflight f{s.p, s.p + first, s.n};
            begin(f);
            h->st = S_BUSY;
            uint64_t f0 = faults_fired();
            uintptr_t mid = s.p + first;
            tp.blocks[s.p] = first;
            tp.blocks[mid] = s.n - first;
            umf_result_t r = umfMemoryProviderAllocationSplit(
                tp.provider, (void *)s.p, s.n, first);
            if (r == UMF_RESULT_SUCCESS) {
                h->pool = s.pool;
                h->p = mid;
                h->n = s.n - first;
                h->root = s.root;
                s.n = first;
                h->st = S_LIVE;
                probe("split");
                end(f);
                check_hit(h->p + std::min<size_t>(8, h->n / 2), h->pool, {{h->p, h->n}}, "after split");
            } else {
                tp.blocks[s.p] = s.n;
                tp.blocks.erase(mid);
                h->st = S_FREE;
                if (faults_fired() == f0)
                    violate("split-failed", "split failed without faults (%s)",
                            res_name(r));
                Provider &up = s.pool == PA ? a : b;
                auto it = up.live.find(s.p);
                if (it == up.live.end() || it->second.size != s.n)
                    violate("split-half-done",
                            "split reported %s but the provider's block was "
                            "split", res_name(r));
                probe("split failed");
                end(f);
                check_hit(s.p + s.n - 1, s.pool, {{s.p, s.n}},
                          "after failed split");
            }
            check_hit(s.p, s.pool, {{s.p, s.n}}, "after split");
            break;
        }
        case MERGE: {
            Slot *lo = nullptr, *hi = nullptr;
            for (int i = 0; i < per && !hi; i++) {
                Slot *x = own(t, op.a[0] + i);
                if (x->st != S_LIVE || x->pool > PB)
                    continue;
                for (int k = 0; k < per; k++) {
                    Slot *y = own(t, k);
                    if (y->st == S_LIVE && y->root == x->root &&
                        x->p + x->n == y->p) {
                        lo = x;
                        hi = y;
                        break;
                    }
                }
            }
            if (!hi)
                return;
            ThinPool &tp = pool[lo->pool];
            Inflight f{lo->p, hi->p, lo->n + hi->n};
            begin(f);
            hi->st = S_BUSY;
            uint64_t f0 = faults_fired();
            umf_result_t r = umfMemoryProviderAllocationMerge(
                tp.provider, (void *)lo->p, (void *)hi->p, f.n);
            if (r == UMF_RESULT_SUCCESS) {
                lo->n = f.n;
                hi->st = S_FREE;
                tp.blocks[lo->p] = f.n;
                tp.blocks.erase(f.mid);
                probe("merge");
            } else {
                if (faults_fired() == f0)
                    violate("merge-failed", "merge failed without faults (%s)",
                            res_name(r));
                hi->st = S_LIVE;
                Provider &up = lo->pool == PA ? a : b;
                if (!up.live.count(lo->p) || !up.live.count(hi->p))
                    violate("merge-half-done", "merge reported %s but the "
                                               "provider merged", res_name(r));
                probe("merge failed");
            }
            end(f);
            check_hit(f.mid, lo->pool,
                      {r == UMF_RESULT_SUCCESS ? Seg{lo->p, lo->n}
                                               : Seg{hi->p, hi->n}},
                      "after merge");
            break;
        }
        case DEAD: {
            Slot &s = *own(t, op.a[0]);
            if (s.st == S_FREE && s.dead)
                check_dead(s.dead + (uintptr_t)op.a[3] * s.dead_n / 1000,
                           s.pool);
            break;
        }
        }
    }
    void check_hit_active(Active &ac, int pl) {
        umf_alloc_info_t info;
        memset(&info, 0, sizeof info);
        umf_result_t r = umfMemoryTrackerGetAllocInfo((void *)ac.addr, &info);
        lookups++;
        if (r != UMF_RESULT_SUCCESS)
            violate("lookup-miss", "address %#lx of a live block of pool %d "
                                   "resolves to nothing (%s)",
                    (unsigned long)ac.addr, pl, res_name(r));
        if (info.pool != pool[pl].h)
            violate("lookup-wrong-pool", "address %#lx of a live block of pool "
                                         "%d resolves to another pool",
                    (unsigned long)ac.addr, pl);
        if (!ac.ok.count({(uintptr_t)info.base, info.baseSize}))
            violate("lookup-wrong-block",
                    "address %#lx resolves to [%p,+%zu), block is [%#lx,+%zu)",
                    (unsigned long)ac.addr, info.base, info.baseSize,
                    (unsigned long)ac.ok.begin()->first,
                    ac.ok.begin()->second);
    }
    void allow(Active &ac, const Inflight &f) {
        if (ac.addr < f.p || ac.addr >= f.p + f.n)
            return;
        ac.ok.insert({f.p, f.n});
        if (ac.addr < f.mid)
            ac.ok.insert({f.p, f.mid - f.p});
        else
            ac.ok.insert({f.mid, f.p + f.n - f.mid});
    }
    void begin(const Inflight &f) {
        inflight.push_back(f);
        for (auto *ac : active)
            if (ac->addr >= f.p && ac->addr < f.p + f.n) {
                allow(*ac, f);
                probe("lookup during split or merge");
            }
    }
    void end(const Inflight &f) {
        for (size_t i = 0; i < inflight.size(); i++)
            if (inflight[i].p == f.p && inflight[i].mid == f.mid) {
                inflight.erase(inflight.begin() + (long)i);
                return;
            }
    }
    void finish() override {
        // everything live resolves exactly; then it is freed and does not
        for (auto &s : slots)
            if (s.st == S_LIVE)
                for (size_t off : {(size_t)0, s.n / 2, s.n - 1})
                    check_hit(s.p + off, s.pool, {{s.p, s.n}}, "at the end");
        bool lost = false;
        size_t want_a = 1, want_b = 0, want_c = 0;
        for (auto &s : slots) {
            lost |= s.st == S_LOST;
            if (s.st == S_LIVE || s.st == S_LOST) {
                if (s.pool == PA || s.pool == PN)
                    want_a++;
                else if (s.pool == PB)
                    want_b++;
                else
                    want_c++;
            }
        }
        if (!lost && (a.live.size() != want_a || b.live.size() != want_b ||
                      carve.used.size() != want_c) &&
            !faults_fired_kind(F_PROV_FREE))
            violate("failed-op-kept-memory",
                    "provider holds %zu/%zu/%zu blocks, pools own %zu/%zu/%zu",
                    a.live.size(), b.live.size(), carve.used.size(), want_a,
                    want_b, want_c);
        for (auto &s : slots)
            if (s.st == S_LIVE) {
                do_free(s, false);
                check_dead(s.p + s.n / 2, s.pool);
            }
        if (lost || faults_fired_kind(F_PROV_FREE))
            return;
        umfPoolDestroy(pool[PC].h);
        umfMemoryProviderDestroy(hc);
        umfPoolDestroy(pool[PN].h);
        umfMemoryProviderDestroy(np.h);
        if (umfPoolFree(pool[PA].h, (void *)carve.base))
            violate("free-failed", "outer block");
        check_dead(carve.base + 100, PA);
        umfPoolDestroy(pool[PA].h);
        umfPoolDestroy(pool[PB].h);
        umfMemoryProviderDestroy(a.h);
        umfMemoryProviderDestroy(b.h);
        umfTearDown();
        check_no_leak(base, "destroying everything and tearing down");
    }
};
SIM_SCENARIO("C01.tracker", Tracker)
} // namespace
