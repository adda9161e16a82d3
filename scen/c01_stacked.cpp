// C01: pools stacked on each other, two to nine levels deep (the tracker has
// room for eight; a ninth may fail, but only cleanly). Every level's
// provider carves chunks out of blocks it takes from the pool below, so one
// address may be the start of a block at several levels. Blocks are split and
// merged at every level, including blocks that contain inner blocks.
#include "common.h"
#include "provider_tracking.h"
#include <deque>
using namespace simx;

namespace {
enum { ALLOC, FREE, UFREE, LOOKUP, SPLIT, MERGE, JOIN, TRIM, NOPS };
const size_t UNIT = 256;
const int MAXD = 9, SURE = 8; // levels; levels that must work
// size of the blocks level k takes
size_t region_size(int k, int depth) {
    static const size_t few[] = {0, 65536, 16384, 4096, 2048};
    return depth <= 4 ? few[k] : (size_t)131072 >> k;
}

struct Stack;
struct Region {
    size_t size = 0;
    std::map<uintptr_t, size_t> used; // chunks
    uintptr_t twin = 0;               // upper half it was split from
    bool busy = false;
};
struct Sub { // provider of level k >= 1
    Stack *s = nullptr;
    int k = 0;
    umf_memory_provider_handle_t h = nullptr;
    std::map<uintptr_t, Region> regions;
    uint64_t lost = 0;
};
enum St { S_FREE, S_BUSY, S_LIVE, S_LOST };
struct Slot {
    St st = S_FREE;
    int k = 0;
    uintptr_t p = 0;
    size_t n = 0;
    int *pins = nullptr;
    uintptr_t dead = 0;
    size_t dead_n = 0;
};
struct Cut {
    uintptr_t p, mid;
    size_t n;
};
typedef std::pair<uintptr_t, size_t> Seg;
struct Active {
    uintptr_t addr;
    std::set<Seg> ok;
};

umf_result_t s_init(void *p, void **o) {
    *o = p;
    return UMF_RESULT_SUCCESS;
}
void s_fini(void *) {}
umf_result_t s_alloc(void *h, size_t size, size_t align, void **ptr);
umf_result_t s_free(void *h, void *ptr, size_t size);
umf_result_t s_split(void *h, void *ptr, size_t total, size_t first);
umf_result_t s_merge(void *h, void *lo, void *hi, size_t total);
void s_err(void *, const char **m, int32_t *e) {
    *m = "";
    *e = 0;
}
umf_result_t s_rec(void *, size_t, size_t *o) {
    *o = UNIT;
    return UMF_RESULT_SUCCESS;
}
umf_result_t s_min(void *, void *, size_t *o) {
    *o = UNIT;
    return UMF_RESULT_SUCCESS;
}
const char *s_name(void *) { return "SUB"; }

struct Stack : Scenario {
    int depth = 3, per = 6;
    Provider base_prov;
    ThinPool pool[MAXD];
    Sub sub[MAXD];
    int inflight_ops[MAXD] = {}, joining[MAXD] = {};
    std::deque<Slot> slots;
    std::vector<Active *> active;
    std::vector<Cut> cuts;
    Baseline base;

    const char *op_name(uint32_t c) override {
        static const char *n[] = {"alloc", "free",  "ufree", "lookup",
                                  "split", "merge", "join",  "trim"};
        return n[c % NOPS];
    }
    const char *real_parts() override {
        return "provider_tracking, critnib, base_alloc, memory_pool, "
               "memory_provider";
    }
    const char *stub_parts() override {
        return "upstream provider and carving providers, pass-through pools, "
               "OS";
    }
    void generate(Rng &r, Program &p, bool thorough) override {
        int nt = (int)r.range(1, 4);
        int d = r.chance(1, 6) ? (int)r.range(5, MAXD) : (int)r.range(2, 4);
        p.cfg["depth"] = d;
        p.cfg["halves"] = (int)r.below(2);
        int per_task = (int)r.range(10, thorough ? 60 : 30);
        int top = (int)r.below(2); // mostly at the top level
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < per_task; i++) {
                int c = (int)r.pick(std::vector<int>{
                    ALLOC, ALLOC, ALLOC, FREE, UFREE, FREE, LOOKUP, LOOKUP,
                    SPLIT, SPLIT, MERGE, MERGE, JOIN, TRIM});
                if (i < 3)
                    c = ALLOC;
                int k = top && r.chance(2, 3) ? d - 1 : (int)r.below((uint32_t)d);
                p.add((uint32_t)t, (uint32_t)c, (int64_t)r.below(32), k,
                      r.range(1, 1000), (int64_t)r.below(1000),
                      (int64_t)r.below(8));
            }
        pick_faults(r, p, {F_META, F_BAMMAP, F_PROV_ALLOC, F_PROV_SPLIT,
                           F_PROV_MERGE}, 40);
    }
    void setup(const Program &p) override {
        meta_oracle(true);
        base = baseline();
        lib_init();
        depth = (int)std::min<int64_t>(MAXD, std::max<int64_t>(2, p.get("depth", 3)));
        halves = p.get("halves", 0) != 0;
        make_provider(&base_prov);
        auto mk = [&](int k, umf_memory_provider_handle_t h) {
            if (make_thin_pool(&pool[k], h, 0))
                violate("create-failed", "umfPoolCreate failed without faults");
        };
        mk(0, base_prov.h);
        static umf_memory_provider_ops_t o;
        o.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
        o.initialize = s_init;
        o.finalize = s_fini;
        o.alloc = s_alloc;
        o.free = s_free;
        o.get_last_native_error = s_err;
        o.get_recommended_page_size = s_rec;
        o.get_min_page_size = s_min;
        o.get_name = s_name;
        o.ext.allocation_split = s_split;
        o.ext.allocation_merge = s_merge;
        for (int k = 1; k < depth; k++) {
            sub[k].s = this;
            sub[k].k = k;
            if (umfMemoryProviderCreate(&o, &sub[k], &sub[k].h))
                violate("create-failed", "provider");
            mk(k, sub[k].h);
        }
        slots.resize((size_t)per * (p.ntasks ? p.ntasks : 1));
    }
    bool halves = false;

    // every operation on the blocks of level k; none is in flight while
    // blocks of the level below that contain them are merged
    void enter(int k) {
        yield_until([&] { return !joining[k]; });
        inflight_ops[k]++;
    }
    void leave(int k) { inflight_ops[k]--; }

    bool get_region(Sub *s) {
        int b = s->k - 1;
        size_t n = region_size(s->k, depth);
        enter(b);
        void *q = umfPoolMalloc(pool[b].h, n);
        leave(b);
        if (!q)
            return false;
        uintptr_t a = (uintptr_t)q;
        if (halves) {
            ThinPool &tp = pool[b];
            size_t f = n / 2;
            tp.blocks[a] = f;
            tp.blocks[a + f] = f;
            if (umfMemoryProviderAllocationSplit(tp.provider, q, n, f) ==
                UMF_RESULT_SUCCESS) {
                s->regions[a].size = f;
                s->regions[a].twin = a + f;
                s->regions[a + f].size = f;
                probe("region in two halves");
                return true;
            }
            tp.blocks[a] = n;
            tp.blocks.erase(a + f);
        }
        s->regions[a].size = n;
        return true;
    }
    // joins two halves that hold inner blocks
    void join(int t, int k, int64_t pick) {
        (void)t;
        Sub *s = &sub[k];
        std::vector<uintptr_t> v;
        for (auto &e : s->regions)
            if (e.second.twin && !e.second.busy &&
                !s->regions[e.second.twin].busy)
                v.push_back(e.first);
        if (v.empty() || inflight_ops[k] || joining[k])
            return;
        uintptr_t a = v[(size_t)pick % v.size()];
        Region &lo = s->regions[a];
        uintptr_t b = lo.twin;
        Region &hi = s->regions[b];
        lo.busy = hi.busy = true;
        joining[k]++;
        ThinPool &tp = pool[k - 1];
        size_t n = lo.size + hi.size, kids = lo.used.size() + hi.used.size();
        uint64_t f0 = faults_fired();
        umf_result_t r = umfMemoryProviderAllocationMerge(
            tp.provider, (void *)a, (void *)b, n);
        joining[k]--;
        if (r == UMF_RESULT_SUCCESS) {
            lo.size = n;
            lo.twin = 0;
            lo.used.insert(hi.used.begin(), hi.used.end());
            s->regions.erase(b);
            tp.blocks[a] = n;
            tp.blocks.erase(b);
            probe(kids ? "merge of blocks with inner blocks" : "join");
        } else if (faults_fired() == f0)
            violate("merge-failed", "merge of two blocks of pool %d with %zu "
                    "inner blocks failed without faults (%s)", k - 1, kids,
                    res_name(r));
        Region &g = s->regions[a]; // busy: no one takes or gives back
        if (g.used.empty())
            check_hit(a + n / 2 - 1, k - 1, Seg{a, g.size}, "after join");
        g.busy = false;
        if (r != UMF_RESULT_SUCCESS)
            hi.busy = false;
    }
    // gives an empty region back to the pool below
    bool trim(Sub *s, bool all) {
        for (auto &e : s->regions) {
            Region &g = e.second;
            if (g.used.size() || g.busy)
                continue;
            if (!all && inflight_ops[s->k])
                return false; // its last chunk may still be on its way out
            uintptr_t a = e.first, tw = g.twin;
            size_t n = g.size;
            for (auto &x : s->regions)
                if (x.second.twin == a)
                    x.second.twin = 0;
            (void)tw;
            s->regions.erase(a);
            int b = s->k - 1;
            uint64_t f0 = faults_fired(), n0 = pool[b].frees;
            enter(b);
            umf_result_t r = umfPoolFree(pool[b].h, (void *)a);
            leave(b);
            if (r != UMF_RESULT_SUCCESS) {
                if (faults_fired() == f0)
                    violate("free-failed", "free of a block of pool %d (%zu "
                            "bytes) that has no inner block any more failed "
                            "(%s)", b, n, res_name(r));
                s->lost++;
            } else if (pool[b].frees == n0)
                violate("free-missed-pool", "free of a block of pool %d", b);
            else
                check_dead(a + n / 3, b);
            probe("region given back");
            return true;
        }
        return false;
    }

    // ------------------------------------------------------------- checks
    void check_hit(uintptr_t addr, int k, Seg want, const char *what) {
        Active ac;
        ac.addr = addr;
        ac.ok.insert(want);
        look(ac, k, what, true);
    }
    void look(Active &ac, int k, const char *what, bool info_too) {
        umf_memory_pool_handle_t h = umfPoolByPtr((void *)ac.addr);
        if (h != pool[k].h)
            violate(h ? "lookup-wrong-pool" : "lookup-miss",
                    "%s: umfPoolByPtr(%#lx) returned %s, the innermost block "
                    "is of level %d", what, (unsigned long)ac.addr,
                    h ? "another pool" : "null", k);
        if (!info_too)
            return;
        umf_alloc_info_t info;
        memset(&info, 0, sizeof info);
        umf_result_t r = umfMemoryTrackerGetAllocInfo((void *)ac.addr, &info);
        if (r != UMF_RESULT_SUCCESS)
            violate("lookup-miss", "%s: address %#lx of a live block of level "
                    "%d resolves to nothing (%s)", what,
                    (unsigned long)ac.addr, k, res_name(r));
        if (info.pool != pool[k].h)
            violate("lookup-wrong-pool", "%s: address %#lx of a live block of "
                    "level %d resolves to another pool", what,
                    (unsigned long)ac.addr, k);
        if (!ac.ok.count({(uintptr_t)info.base, info.baseSize}))
            violate("lookup-wrong-block", "%s: address %#lx resolves to "
                    "[%p,+%zu), block is [%#lx,+%zu)", what,
                    (unsigned long)ac.addr, info.base, info.baseSize,
                    (unsigned long)ac.ok.begin()->first,
                    ac.ok.begin()->second);
    }
    // the chunk or block of level k around an address, by the ledgers
    bool covered(uintptr_t addr, int k) {
        if (k == 0)
            return base_prov.find(addr) != nullptr;
        for (auto &e : sub[k].regions)
            for (auto &u : e.second.used)
                if (addr >= u.first && addr < u.first + u.second)
                    return true;
        return false;
    }
    void check_dead(uintptr_t addr, int k) {
        NoPreempt np;
        if (covered(addr, k))
            return; // already reused
        umf_memory_pool_handle_t h = umfPoolByPtr((void *)addr);
        for (int i = k; i < depth; i++)
            if (h == pool[i].h)
                violate("stale-lookup", "address %#lx still resolves to level "
                        "%d after its block of level %d was freed",
                        (unsigned long)addr, i, k);
        if (k == 0 && h)
            violate("stale-lookup", "address %#lx still resolves to a pool "
                    "after its block went back to the provider",
                    (unsigned long)addr);
    }
    Slot *own(int t, int64_t i) {
        return &slots[(size_t)((t - 1) * per + (int)(i % per))];
    }
    void do_free(Slot &s, bool by_ptr) {
        s.st = S_BUSY;
        uint64_t f0 = faults_fired();
        ThinPool &tp = pool[s.k];
        uint64_t n0 = tp.frees;
        enter(s.k);
        umf_result_t r =
            by_ptr ? umfFree((void *)s.p) : umfPoolFree(tp.h, (void *)s.p);
        leave(s.k);
        if (r != UMF_RESULT_SUCCESS) {
            if (faults_fired() == f0)
                violate("free-failed", "free of a live block of level %d "
                        "failed (%s) without any fault", s.k, res_name(r));
            s.st = S_LOST;
            lost = true;
            return;
        }
        if (tp.frees == n0)
            violate("free-missed-pool", "umfFree(%#lx) reported success but "
                    "never reached level %d, which owns it",
                    (unsigned long)s.p, s.k);
        s.dead = s.p;
        s.dead_n = s.n;
        s.st = S_FREE;
    }
    bool lost = false;
    void begin(const Cut &c) {
        cuts.push_back(c);
        for (auto *ac : active)
            allow(*ac, c);
    }
    void allow(Active &ac, const Cut &c) {
        if (ac.addr < c.p || ac.addr >= c.p + c.n)
            return;
        ac.ok.insert({c.p, c.n});
        if (ac.addr < c.mid)
            ac.ok.insert({c.p, c.mid - c.p});
        else
            ac.ok.insert({c.mid, c.p + c.n - c.mid});
    }
    void end(const Cut &c) {
        for (size_t i = 0; i < cuts.size(); i++)
            if (cuts[i].p == c.p && cuts[i].mid == c.mid) {
                cuts.erase(cuts.begin() + (long)i);
                return;
            }
    }
    void exec(const Op &op) override {
        int t = task_id();
        if (t < 1 || (size_t)(t * per) > slots.size())
            return;
        int k = (int)((uint64_t)op.a[1] % (uint64_t)depth);
        switch (op.code % NOPS) {
        case ALLOC: {
            Slot &s = *own(t, op.a[0]);
            if (s.st != S_FREE)
                return;
            size_t top = k ? region_size(k, depth) / 2 : 4 * 65536;
            size_t n = UNIT * (1 + (size_t)op.a[2] * (top / UNIT - 1) / 1000);
            if (op.a[4] == 3)
                n -= 100;
            s.st = S_BUSY;
            uint64_t f0 = faults_fired();
            enter(k);
            void *q = umfPoolMalloc(pool[k].h, n);
            leave(k);
            if (!q) {
                if (k >= SURE)
                    probe("more levels than the tracker has");
                if (faults_fired() == f0 && k < SURE)
                    violate("alloc-failed", "allocation at level %d failed "
                                            "without faults", k);
                s.st = S_FREE;
                return;
            }
            s.k = k;
            s.p = (uintptr_t)q;
            s.n = n;
            s.pins = new int(0);
            s.st = S_LIVE;
            if (k == SURE - 1)
                probe("block at the last level");
            ++*s.pins;
            check_hit(s.p + (uintptr_t)op.a[3] * s.n / 1000, k, {s.p, s.n},
                      "after alloc");
            --*s.pins;
            break;
        }
        case FREE:
        case UFREE: {
            Slot &s = *own(t, op.a[0]);
            if (s.st != S_LIVE || *s.pins)
                return;
            do_free(s, op.code % NOPS == UFREE);
            if (s.st == S_FREE)
                check_dead(s.dead + (uintptr_t)op.a[3] * s.dead_n / 1000, s.k);
            break;
        }
        case LOOKUP: {
            Slot *s = nullptr;
            for (size_t i = 0; i < slots.size() && !s; i++) {
                Slot *x = &slots[((size_t)op.a[2] + i) % slots.size()];
                if (x->st == S_LIVE)
                    s = x;
            }
            if (!s)
                return;
            Active ac;
            ac.addr = s->p + (op.a[4] == 0   ? 0
                              : op.a[4] == 1 ? s->n - 1
                                             : (uintptr_t)op.a[3] * s->n / 1000);
            ac.ok.insert({s->p, s->n});
            for (auto &c : cuts)
                allow(ac, c);
            int *pins = s->pins, lv = s->k;
            ++*pins;
            active.push_back(&ac);
            look(ac, lv, "lookup", true);
            for (size_t i = 0; i < active.size(); i++)
                if (active[i] == &ac) {
                    active.erase(active.begin() + (long)i);
                    break;
                }
            --*pins;
            break;
        }
        case SPLIT: {
            Slot &s = *own(t, op.a[0]), *h = nullptr;
            if (s.st != S_LIVE || s.n < 2 * UNIT || s.n % UNIT)
                return;
            for (int i = 0; i < per && !h; i++)
                if (own(t, i)->st == S_FREE)
                    h = own(t, i);
            if (!h)
                return;
            size_t first =
                UNIT * (1 + (size_t)op.a[3] % (s.n / UNIT - 1));
            if (s.k == 0 && s.n % 4096 == 0 && s.n > 4096)
                first = std::max<size_t>(4096, first / 4096 * 4096);
            if (first >= s.n)
                return;
            ThinPool &tp = pool[s.k];
            uintptr_t mid = s.p + first;
            Cut c{s.p, mid, s.n};
            begin(c);
            h->st = S_BUSY;
            uint64_t f0 = faults_fired();
            tp.blocks[s.p] = first;
            tp.blocks[mid] = s.n - first;
            enter(s.k);
            umf_result_t r = umfMemoryProviderAllocationSplit(
                tp.provider, (void *)s.p, s.n, first);
            leave(s.k);
            if (r == UMF_RESULT_SUCCESS) {
                h->k = s.k;
                h->p = mid;
                h->n = s.n - first;
                h->pins = s.pins;
                s.n = first;
                h->st = S_LIVE;
                probe(s.k ? "split at an inner level" : "split");
                end(c);
                check_hit(h->p + h->n / 2, h->k, {h->p, h->n}, "after split");
            } else {
                tp.blocks[s.p] = s.n;
                tp.blocks.erase(mid);
                h->st = S_FREE;
                end(c);
                if (faults_fired() == f0)
                    violate("split-failed", "split failed without faults (%s)",
                            res_name(r));
                check_hit(s.p + s.n - 1, s.k, {s.p, s.n}, "after failed split");
            }
            check_hit(s.p, s.k, {s.p, s.n}, "after split");
            break;
        }
        case MERGE: {
            Slot *lo = nullptr, *hi = nullptr;
            for (int i = 0; i < per && !hi; i++)
                for (int j = 0; j < per && !hi; j++) {
                    Slot *x = own(t, op.a[0] + i), *y = own(t, j);
                    if (x->st == S_LIVE && y->st == S_LIVE &&
                        x->pins == y->pins && x->k == y->k &&
                        x->p + x->n == y->p)
                        lo = x, hi = y;
                }
            if (!hi)
                return;
            ThinPool &tp = pool[lo->k];
            Cut c{lo->p, hi->p, lo->n + hi->n};
            begin(c);
            hi->st = S_BUSY;
            uint64_t f0 = faults_fired();
            enter(lo->k);
            umf_result_t r = umfMemoryProviderAllocationMerge(
                tp.provider, (void *)lo->p, (void *)hi->p, c.n);
            leave(lo->k);
            if (r == UMF_RESULT_SUCCESS) {
                lo->n = c.n;
                hi->st = S_FREE;
                tp.blocks[lo->p] = c.n;
                tp.blocks.erase(c.mid);
                probe(lo->k ? "merge at an inner level" : "merge");
            } else {
                hi->st = S_LIVE;
                if (faults_fired() == f0)
                    violate("merge-failed", "merge failed without faults (%s)",
                            res_name(r));
            }
            end(c);
            check_hit(c.mid, lo->k,
                      r == UMF_RESULT_SUCCESS ? Seg{lo->p, lo->n}
                                              : Seg{hi->p, hi->n},
                      "after merge");
            break;
        }
        case JOIN:
            if (k)
                join(t, k, op.a[0]);
            break;
        case TRIM:
            if (k)
                trim(&sub[k], false);
            break;
        }
    }
    void finish() override {
        for (auto &s : slots)
            if (s.st == S_LIVE)
                for (size_t off : {(size_t)0, s.n / 2, s.n - 1})
                    check_hit(s.p + off, s.k, {s.p, s.n}, "at the end");
        // addresses of a region no chunk covers belong to the region
        for (int k = 1; k < depth; k++)
            for (auto &e : sub[k].regions) {
                uintptr_t at = e.first;
                for (auto &u : e.second.used) {
                    if (u.first > at && !lost)
                        check_hit(u.first - 1, k - 1, {e.first, e.second.size},
                                  "between inner blocks");
                    at = u.first + u.second;
                    if (!lost && !e.second.used.count(at) &&
                        at < e.first + e.second.size) // right behind it
                        check_hit(at, k - 1, {e.first, e.second.size},
                                  "right behind an inner block");
                }
                if (at < e.first + e.second.size && !lost)
                    check_hit(e.first + e.second.size - 1, k - 1,
                              {e.first, e.second.size}, "behind inner blocks");
            }
        for (auto &s : slots)
            if (s.st == S_LIVE)
                do_free(s, false);
        if (lost)
            return;
        for (int k = depth - 1; k >= 1; k--) {
            while (trim(&sub[k], true))
                ;
            if (sub[k].lost)
                return;
            if (sub[k].regions.size())
                violate("failed-op-kept-memory", "level %d holds a block of "
                        "level %d with chunks no one owns", k, k - 1);
            umfPoolDestroy(pool[k].h);
            umfMemoryProviderDestroy(sub[k].h);
        }
        if (base_prov.live.size())
            violate("failed-op-kept-memory", "the provider still holds %zu "
                    "blocks", base_prov.live.size());
        umfPoolDestroy(pool[0].h);
        umfMemoryProviderDestroy(base_prov.h);
        umfTearDown();
        check_no_leak(base, "destroying everything and tearing down");
    }
};

umf_result_t s_alloc(void *h, size_t size, size_t align, void **ptr) {
    Sub *s = (Sub *)h;
    (void)align;
    point();
    if (fault(F_PROV_ALLOC))
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    size_t need = (size + UNIT - 1) / UNIT * UNIT;
    for (int round = 0; round < 8; round++) {
        std::vector<std::pair<Region *, uintptr_t>> v;
        std::vector<std::pair<Region *, uintptr_t>> starts;
        for (auto &e : s->regions) {
            if (e.second.busy)
                continue;
            uintptr_t at = e.first, end = e.first + e.second.size;
            auto room = [&](uintptr_t lo, uintptr_t hi) {
                for (uintptr_t x = lo; x + need <= hi; x += UNIT)
                    (x == e.first ? starts : v).push_back({&e.second, x});
            };
            for (auto &u : e.second.used) {
                room(at, u.first);
                at = u.first + (u.second + UNIT - 1) / UNIT * UNIT;
            }
            room(at, end);
        }
        auto &w = starts.size() && (v.empty() || addr_rand() % 2) ? starts : v;
        if (w.size()) {
            auto c = w[addr_rand() % w.size()];
            c.first->used[c.second] = size;
            *ptr = (void *)c.second;
            return UMF_RESULT_SUCCESS;
        }
        if (!s->s->get_region(s))
            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    }
    // others keep taking the room
    probe("starved");
    if (!s->s->get_region(s))
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    return s_alloc(h, size, align, ptr);
}
Region *region_of(Sub *s, uintptr_t a) {
    auto it = s->regions.upper_bound(a);
    if (it == s->regions.begin())
        return nullptr;
    --it;
    return a < it->first + it->second.size ? &it->second : nullptr;
}
umf_result_t s_free(void *h, void *ptr, size_t size) {
    Sub *s = (Sub *)h;
    point();
    Region *g = region_of(s, (uintptr_t)ptr);
    if (!g || !g->used.count((uintptr_t)ptr))
        violate("free-not-owned", "level %d was asked to free %p, which it "
                "does not hold", s->k, ptr);
    if (g->used[(uintptr_t)ptr] != size)
        violate("free-wrong-size", "level %d was asked to free %zu bytes of a "
                "chunk of %zu", s->k, size, g->used[(uintptr_t)ptr]);
    g->used.erase((uintptr_t)ptr);
    point();
    return UMF_RESULT_SUCCESS;
}
umf_result_t s_split(void *h, void *ptr, size_t total, size_t first) {
    Sub *s = (Sub *)h;
    point();
    if (fault(F_PROV_SPLIT))
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    Region *g = region_of(s, (uintptr_t)ptr);
    if (!g || !g->used.count((uintptr_t)ptr) || g->used[(uintptr_t)ptr] != total)
        violate("split-not-owned", "level %d was asked to split %p", s->k, ptr);
    g->used[(uintptr_t)ptr] = first;
    g->used[(uintptr_t)ptr + first] = total - first;
    return UMF_RESULT_SUCCESS;
}
umf_result_t s_merge(void *h, void *lo, void *hi, size_t total) {
    Sub *s = (Sub *)h;
    point();
    if (fault(F_PROV_MERGE))
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    Region *g = region_of(s, (uintptr_t)lo);
    if (!g || !g->used.count((uintptr_t)lo) || !g->used.count((uintptr_t)hi))
        violate("merge-not-owned", "level %d was asked to merge %p and %p",
                s->k, lo, hi);
    g->used.erase((uintptr_t)hi);
    g->used[(uintptr_t)lo] = total;
    return UMF_RESULT_SUCCESS;
}
SIM_SCENARIO("C01.stacked", Stack)
} // namespace
