// C03 / C04 / C05: disjoint pools over strict-ledger providers.
#include "common.h"
#include <deque>
#include <umf/pools/pool_disjoint.h>
using namespace simx;

namespace {
enum { ALLOC, FREE, UFREE, USABLE, DESTROY, HUGE_, RETRY, CHECK, NOPS };
const size_t CUTOFF = (size_t)1 << 31;

enum St { S_FREE, S_BUSY, S_LIVE, S_LOST };
struct Slot {
    St st = S_FREE;
    uintptr_t p = 0;
    size_t n = 0, ext = 0; // requested / known usable extent
    int pool = 0;
    uint64_t tag = 0;
};
struct Failed {
    int pool;
    size_t n, align;
};
struct P { // one pool with its provider
    Provider prov;
    umf_memory_pool_handle_t h = nullptr;
    bool open = false, closing = false;
    int inflight = 0;
    uint64_t ops = 0; // started so far
    size_t slab_min, max_pool, capacity, min_bucket;
    int trace;
    bool own, shared;
    std::map<uint64_t, size_t> cls; // provider block -> bucket size (0 direct)
};

struct Disjoint : Scenario {
    int mode = 3;
    P pools[3];
    int npools = 1;
    std::deque<Slot> slots;
    std::map<uintptr_t, Slot *> live; // by address
    std::vector<Failed> failed;
    umf_disjoint_pool_shared_limits_handle_t limits = nullptr;
    size_t limit = 0;
    uint64_t tags = 0;
    bool no_leak = false;
    Baseline base;

    explicit Disjoint(int m) : mode(m) {}
    const char *op_name(uint32_t c) override {
        static const char *n[] = {"alloc",   "free", "ufree", "usable",
                                  "destroy", "huge", "retry", "check"};
        return n[c % NOPS];
    }
    const char *real_parts() override {
        return "pool_disjoint, memory_pool, memory_provider, "
               "provider_tracking, critnib, base_alloc";
    }
    const char *stub_parts() override {
        return "upstream provider (strict ledger), OS";
    }
    static size_t ref_bucket(size_t n, size_t minb) {
        size_t b = std::max<size_t>(minb, 8);
        if (n <= b)
            return b;
        while (true) {
            if (n <= b)
                return b;
            if (n <= b + b / 2)
                return b + b / 2;
            b *= 2;
        }
    }
    void generate(Rng &r, Program &p, bool thorough) override {
        int nt = (int)r.range(1, 4);
        int per = (int)r.range(10, thorough ? 90 : 40);
        p.cfg["pools"] = mode == 4 ? r.range(1, 3) : r.range(1, 2);
        p.cfg["slots"] = r.range(4, 24);
        static const int64_t slab[] = {0, 1000, 4096, 4096, 8192, 16384, 65536};
        static const int64_t maxp[] = {0, 64, 1000, 4096, 16384, 65536, 262144};
        static const int64_t minb[] = {1, 8, 8, 64, 256, 4096, 65536};
        for (int i = 0; i < 3; i++) {
            std::string k = std::to_string(i);
            p.cfg["slab" + k] = slab[r.below(7)];
            p.cfg["maxp" + k] = maxp[std::max(r.below(7), r.below(7))];
            p.cfg["cap" + k] = r.range(0, 3);
            p.cfg["minb" + k] = minb[std::min(r.below(7), r.below(7))];
            p.cfg["trace" + k] = r.chance(1, 2) ? 0 : r.range(1, 3);
            p.cfg["own" + k] = r.chance(1, 4);
            p.cfg["page" + k] = r.chance(1, 3) ? r.below(2) * 64 : 4096;
            p.cfg["shared" + k] = mode == 4 ? !r.chance(1, 4) : r.chance(1, 4);
            p.cfg["err" + k] = r.range(1, 4);
        }
        p.cfg["limit"] = r.chance(1, 6) ? 0 : (int64_t)(4096ull << r.below(6));
        int big = (int)r.below(3); // size profile
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < per; i++) {
                int c = (int)r.pick(std::vector<int>{ALLOC, ALLOC, ALLOC, FREE,
                                                     FREE, UFREE, USABLE});
                if (r.chance(1, mode == 4 ? 15 : 60))
                    c = DESTROY;
                else if (r.chance(1, 40))
                    c = HUGE_;
                else if (r.chance(1, 40))
                    c = RETRY;
                size_t n;
                switch (r.below(big == 0 ? 3 : 6)) {
                case 0:
                    n = r.below(64) + 1;
                    break;
                case 1:
                    n = ref_bucket(r.below(4096) + 1, 8) + r.below(3) - 1;
                    break;
                case 2:
                    n = r.below(2048) + 1;
                    break;
                case 3:
                    n = ((size_t)256 << r.below(10)) + r.below(3) - 1;
                    break;
                case 4:
                    n = (size_t)1 << r.range(3, 17);
                    break;
                default:
                    n = r.below(big == 1 ? 20000 : 270000) + 1;
                }
                if (r.chance(1, 3)) // popular sizes fill slabs
                    n = r.chance(1, 2) ? 3000 : 24;
                size_t al = 0;
                if (r.chance(1, 4))
                    al = (size_t)1 << r.below(r.chance(1, 4) ? 18 : 13);
                p.add((uint32_t)t, (uint32_t)c, (int64_t)r.below(64),
                      (int64_t)r.below(3), (int64_t)n, (int64_t)al,
                      (int64_t)r.below(1000));
            }
        if (mode == 5)
            pick_faults(r, p,
                        {F_META, F_BAMMAP, F_PROV_ALLOC, F_PROV_ALLOC,
                         F_PROV_FREE},
                        90);
        else
            pick_faults(r, p, {F_META, F_BAMMAP, F_PROV_ALLOC}, 25);
    }
    Slot *overlap(uintptr_t a, uintptr_t e, const Slot *self) {
        auto it = live.lower_bound(e);
        while (it != live.begin()) {
            --it;
            Slot *s = it->second;
            if (s != self && s->p + std::max(s->ext, s->n) > a && s->p < e)
                return s;
            // extents are disjoint, so one step beyond `self` is enough
            if (s != self)
                break;
        }
        return nullptr;
    }
    bool open_pool(P &q, bool must) {
        Unchecked *u = nullptr;
        (void)u;
        umf_disjoint_pool_params_handle_t pr = nullptr;
        bool f = faults_enabled();
        faults_enable(false);
        if (umfDisjointPoolParamsCreate(&pr) != UMF_RESULT_SUCCESS)
            violate("create-failed", "params without faults");
        umfDisjointPoolParamsSetSlabMinSize(pr, q.slab_min);
        umfDisjointPoolParamsSetMaxPoolableSize(pr, q.max_pool);
        umfDisjointPoolParamsSetCapacity(pr, q.capacity);
        umfDisjointPoolParamsSetMinBucketSize(pr, q.min_bucket);
        umfDisjointPoolParamsSetTrace(pr, q.trace);
        umfDisjointPoolParamsSetName(pr, "sim");
        if (q.shared)
            umfDisjointPoolParamsSetSharedLimits(pr, limits);
        if (!q.prov.h)
            make_provider(&q.prov);
        faults_enable(f);
        uint64_t f0 = faults_fired();
        umf_result_t r = umfPoolCreate(
            umfDisjointPoolOps(), q.prov.h, pr,
            q.own ? UMF_POOL_CREATE_FLAG_OWN_PROVIDER : 0, &q.h);
        umfDisjointPoolParamsDestroy(pr);
        if (r != UMF_RESULT_SUCCESS) {
            if (must || faults_fired() == f0)
                violate("create-failed", "umfPoolCreate failed (%s) without "
                                         "faults", res_name(r));
            probe("pool creation failed");
            return false;
        }
        q.open = true;
        q.closing = false;
        return true;
    }
    void setup(const Program &p) override {
        meta_oracle(true);
        base = baseline();
        lib_init();
        npools = (int)(p.get("pools", 1) - 1) % 3 + 1;
        slots.resize((size_t)std::max<int64_t>(1, p.get("slots", 8)));
        limit = (size_t)p.get("limit", 65536);
        limits = umfDisjointPoolSharedLimitsCreate(limit);
        if (!limits)
            violate("create-failed", "shared limits without faults");
        static const umf_result_t errs[] = {
            UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY,
            UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC,
            UMF_RESULT_ERROR_OUT_OF_RESOURCES, UMF_RESULT_ERROR_UNKNOWN};
        for (int i = 0; i < npools; i++) {
            P &q = pools[i];
            std::string k = std::to_string(i);
            auto get = [&](const char *n, int64_t d) {
                return (size_t)p.get((n + k).c_str(), d);
            };
            q.slab_min = get("slab", 4096);
            q.max_pool = get("maxp", 4096);
            q.capacity = get("cap", 1);
            q.min_bucket = get("minb", 8);
            q.trace = (int)get("trace", 0);
            q.own = get("own", 0);
            q.shared = get("shared", 0);
            q.prov.page = get("page", 4096);
            if (!q.prov.page)
                q.prov.no_page = true;
            q.prov.min_align = std::max<size_t>(q.prov.page, 64);
            q.prov.jitter = q.prov.page < 4096;
            q.prov.err = errs[get("err", 1) % 4];
            q.prov.before_free = [this, i](uintptr_t a, size_t n) {
                Slot *s = overlap(a, a + n, nullptr);
                if (s)
                    violate("freed-under-user",
                            "provider got back [%#lx,+%zu) while the live "
                            "block [%#lx,+%zu) of pool %d lies in it",
                            (unsigned long)a, n, (unsigned long)s->p, s->n, i);
            };
            open_pool(q, true);
        }
    }
    // ------------------------------------------------------------ retention
    struct Empties {
        std::map<size_t, std::pair<size_t, size_t>> by_cls; // count, bytes
        std::vector<size_t> sizes;
        size_t unknown = 0, bytes = 0;
    };
    Empties empties(P &q) {
        Empties e;
        for (auto &kv : q.prov.live) {
            const Block &b = kv.second;
            if (q.prov.refused.count(b.serial))
                continue;
            if (overlap(kv.first, kv.first + b.size, nullptr))
                continue;
            bool lost = false;
            for (auto &s : slots)
                if (s.st == S_LOST && s.p >= kv.first && s.p < kv.first + b.size)
                    lost = true;
            if (lost)
                continue;
            auto c = q.cls.find(b.serial);
            if (c == q.cls.end())
                e.unknown++;
            else {
                e.by_cls[c->second].first++;
                e.by_cls[c->second].second += b.size;
            }
            e.sizes.push_back(b.size);
            e.bytes += b.size;
        }
        return e;
    }
    void check_retention(const char *when) {
        size_t shared_bytes = 0;
        int shared_infl = 0;
        std::vector<size_t> sizes;
        for (int i = 0; i < npools; i++) {
            P &q = pools[i];
            if (!q.open)
                continue;
            Empties e = empties(q);
            if (e.unknown > (size_t)q.inflight)
                violate("failed-op-kept-memory",
                        "%s: pool %d keeps %zu provider blocks that serve no "
                        "allocation with %d operations in flight", when, i,
                        e.unknown, q.inflight);
            for (auto &kv : e.by_cls) {
                size_t cap = kv.first == 0 ? 0
                             : kv.first <= q.slab_min / 2
                                 ? std::max<size_t>(1, 0)
                                 : q.capacity;
                if (kv.second.first > cap + (size_t)q.inflight)
                    violate("retained-too-much",
                            "%s: pool %d retains %zu unused blocks for bucket "
                            "%zu, capacity %zu (%d operations in flight)",
                            when, i, kv.second.first, kv.first, cap,
                            q.inflight);
                if (kv.second.first)
                    probe(kv.second.first > 1 ? "several blocks retained"
                                              : "block retained");
            }
            if (q.shared) {
                shared_bytes += e.bytes;
                shared_infl += q.inflight;
                sizes.insert(sizes.end(), e.sizes.begin(), e.sizes.end());
            }
        }
        std::sort(sizes.rbegin(), sizes.rend());
        size_t sum = 0;
        for (size_t i = (size_t)shared_infl; i < sizes.size(); i++)
            sum += sizes[i];
        if (sum > limit)
            violate("shared-limit", "%s: pools sharing a limit of %zu bytes "
                                    "retain %zu (of %zu, %d operations in "
                                    "flight)",
                    when, limit, sum, shared_bytes, shared_infl);
    }
    // ------------------------------------------------------------ operations
    void check_content(Slot &s, const char *when) {
        long o = verify((void *)s.p, s.ext, s.tag);
        if (o >= 0)
            violate("content-lost", "%s: byte %ld of block [%#lx,+%zu) of pool "
                                    "%d is not what its owner wrote", when, o,
                    (unsigned long)s.p, s.n, s.pool);
    }
    void check_inside(Slot &s, size_t ext, const char *what) {
        uintptr_t b;
        Block *blk = pools[s.pool].prov.find(s.p, &b);
        if (!blk || s.p + ext > b + blk->size)
            violate("outside-provider",
                    "%s: block [%#lx,+%zu) of pool %d is not inside memory the "
                    "provider handed out", what, (unsigned long)s.p, ext,
                    s.pool);
        Slot *o = overlap(s.p, s.p + ext, &s);
        if (o)
            violate("overlap", "%s: block [%#lx,+%zu) of pool %d overlaps live "
                               "block [%#lx,+%zu) of pool %d", what,
                    (unsigned long)s.p, ext, s.pool, (unsigned long)o->p,
                    o->ext, o->pool);
    }
    bool do_alloc(Slot &s, int pi, size_t n, size_t align, bool must) {
        P &q = pools[pi];
        q.inflight++;
        uint64_t op0 = ++q.ops;
        bool alone = q.inflight == 1;
        uint64_t f0 = faults_fired();
        size_t bytes0 = q.prov.bytes, ref0 = q.prov.refused.size();
        s.st = S_BUSY;
        void *ptr = align ? umfPoolAlignedMalloc(q.h, n, align)
                          : umfPoolMalloc(q.h, n);
        if (!ptr) {
            umf_result_t e = umfPoolGetLastAllocationError(q.h);
            if (faults_fired() == f0)
                violate("alloc-failed", "allocation of %zu (align %zu) from "
                                        "pool %d failed (%s) without any fault",
                        n, align, pi, res_name(e));
            if (must)
                violate("not-recovered", "allocation of %zu (align %zu) still "
                                         "fails after the refusals stopped", n,
                        align);
            if (e == UMF_RESULT_SUCCESS || !valid_result(e))
                violate("no-error-code", "allocation of %zu failed but the last "
                                         "allocation error is %d", n, (int)e);
            if (alone && q.ops == op0 && q.prov.bytes != bytes0 &&
                q.prov.refused.size() == ref0)
                violate("failed-op-kept-memory",
                        "failed allocation of %zu changed the memory taken "
                        "from the provider by %zd", n,
                        (ssize_t)(q.prov.bytes - bytes0));
            probe("allocation failed");
            failed.push_back({pi, n, align});
            s.st = S_FREE;
            q.inflight--;
            return false;
        }
        s.p = (uintptr_t)ptr;
        s.n = s.ext = n;
        s.pool = pi;
        s.tag = ++tags;
        if (align && s.p % align)
            violate("misaligned", "block %p of size %zu is not aligned to %zu",
                    ptr, n, align);
        check_inside(s, n, "allocation");
        live[s.p] = &s;
        // which bucket serves it
        size_t an = n;
        if (align > 1)
            an = align <= q.prov.page ? (n + align - 1) / align * align
                                      : n + align - 1;
        uintptr_t b;
        Block *blk = q.prov.find(s.p, &b);
        size_t c = an > q.max_pool ? 0 : ref_bucket(an, q.min_bucket);
        q.cls[blk->serial] = c;
        if (c > q.slab_min && align > q.prov.page)
            probe("aligned block in a big slab");
        fill(ptr, n, s.tag);
        size_t us = umfPoolMallocUsableSize(q.h, ptr);
        if (us < n)
            violate("usable-size", "block %p of %zu bytes (align %zu) reports "
                                   "usable size %zu", ptr, n, align, us);
        check_inside(s, us, "usable size");
        s.ext = us;
        s.tag = ++tags;
        fill(ptr, us, s.tag);
        q.inflight--;
        s.st = S_LIVE;
        return true;
    }
    void do_free(Slot &s, bool any) {
        P &q = pools[s.pool];
        q.inflight++;
        q.ops++;
        s.st = S_BUSY;
        check_content(s, "before free");
        live.erase(s.p);
        uint64_t m0 = faults_fired_kind(F_META) + faults_fired_kind(F_BAMMAP);
        uint64_t f0 = faults_fired();
        uintptr_t b = 0;
        Block *blk = q.prov.find(s.p, &b);
        uint64_t serial = blk->serial;
        umf_result_t r = any ? umfFree((void *)s.p)
                             : umfPoolFree(q.h, (void *)s.p);
        if (r != UMF_RESULT_SUCCESS) {
            if (faults_fired() == f0)
                violate("free-failed", "free of a live block failed (%s) "
                                       "without any fault", res_name(r));
            Block *now_ = q.prov.find(s.p, &b);
            if (!now_ || now_->serial != serial)
                violate("free-lied", "free reported %s but the provider has "
                                     "the memory back", res_name(r));
            bool m = faults_fired_kind(F_META) + faults_fired_kind(F_BAMMAP) !=
                     m0;
            if (m) {
                s.st = S_LOST;
                no_leak = true;
            } else {
                Slot *o = overlap(s.p, s.p + s.ext, &s);
                if (o)
                    violate("overlap", "block [%#lx,+%zu) whose free failed "
                                       "was handed out again",
                            (unsigned long)s.p, s.ext);
                q.prov.refused.erase(serial);
                live[s.p] = &s;
                s.st = S_LIVE;
                check_content(s, "after failed free");
                probe("direct free failed");
            }
        } else
            s.st = S_FREE;
        q.inflight--;
    }
    void check_destroyed(P &q, int i) {
        for (auto &kv : q.prov.live)
            if (!q.prov.refused.count(kv.second.serial))
                violate("not-returned",
                        "pool %d was destroyed but [%#lx,+%zu) was not given "
                        "back to the provider", i, (unsigned long)kv.first,
                        kv.second.size);
        if (q.own) {
            if (q.prov.alive)
                violate("owned-provider", "provider owned by pool %d outlives "
                                          "it", i);
            q.prov.h = nullptr;
        }
        if (!q.prov.live.empty())
            no_leak = true;
    }
    void close_pool(P &q, int i) {
        umfPoolDestroy(q.h);
        q.open = false;
        q.h = nullptr;
        check_destroyed(q, i);
    }
    void exec(const Op &op) override {
        if (task_id() < 1)
            return;
        int pi = (int)((size_t)op.a[1] % (size_t)npools);
        P &q = pools[pi];
        Slot &s = slots[(size_t)op.a[0] % slots.size()];
        switch (op.code % NOPS) {
        case ALLOC:
            if (s.st != S_FREE || !q.open || q.closing)
                return;
            do_alloc(s, pi, (size_t)op.a[2], (size_t)op.a[3], false);
            break;
        case FREE:
        case UFREE:
            if (s.st != S_LIVE || pools[s.pool].closing)
                return;
            do_free(s, op.code % NOPS == UFREE);
            break;
        case USABLE: {
            if (s.st != S_LIVE || pools[s.pool].closing)
                return;
            // keep the owner from freeing it meanwhile
            s.st = S_BUSY;
            P &o = pools[s.pool];
            o.inflight++;
            size_t us = umfPoolMallocUsableSize(o.h, (void *)s.p);
            if (us != s.ext)
                violate("usable-size", "usable size of a live block changed "
                                       "from %zu to %zu", s.ext, us);
            check_content(s, "usable");
            o.inflight--;
            s.st = S_LIVE;
            break;
        }
        case DESTROY: {
            if (q.closing)
                return;
            if (!q.open) {
                q.closing = true; // one at a time
                open_pool(q, false);
                q.closing = false;
                return;
            }
            q.closing = true;
            yield_until([&] { return q.inflight == 0; });
            for (auto &x : slots)
                if (x.st == S_LIVE && x.pool == pi) {
                    do_free(x, false);
                    if (x.st == S_LIVE) {
                        q.closing = false; // provider refused, keep it
                        return;
                    }
                }
            for (auto &x : slots)
                if (x.st == S_LOST && x.pool == pi) {
                    q.closing = false;
                    return;
                }
            if (!q.prov.refused.empty()) {
                q.closing = false;
                return;
            }
            probe("pool destroyed while others run");
            umfPoolDestroy(q.h);
            q.open = false;
            q.h = nullptr;
            check_destroyed(q, pi);
            q.closing = false;
            break;
        }
        case HUGE_: {
            if (!q.open || q.closing)
                return;
            q.inflight++;
            size_t n = SIZE_MAX - (size_t)op.a[4] * (op.a[4] % 3 ? 1 : 4096);
            size_t al = (size_t)op.a[3];
            void *ptr = al ? umfPoolAlignedMalloc(q.h, n, al)
                           : umfPoolMalloc(q.h, n);
            if (ptr)
                violate("impossible-alloc", "allocation of %zu bytes (align "
                                            "%zu) returned %p", n, al, ptr);
            if (umfPoolGetLastAllocationError(q.h) == UMF_RESULT_SUCCESS)
                violate("no-error-code", "failed allocation of %zu bytes left "
                                         "no error", n);
            q.inflight--;
            break;
        }
        case RETRY: {
            if (failed.empty() || s.st != S_FREE)
                return;
            Failed f = failed[(size_t)op.a[4] % failed.size()];
            if (!pools[f.pool].open || pools[f.pool].closing)
                return;
            do_alloc(s, f.pool, f.n, f.align, false);
            break;
        }
        }
        check_retention("after an operation");
    }
    void finish() override {
        for (auto &s : slots)
            if (s.st == S_LIVE)
                check_content(s, "at the end");
        check_retention("at the end");
        // refusals have stopped: what failed succeeds now
        for (auto &f : failed) {
            if (!pools[f.pool].open)
                continue;
            Slot x;
            slots.push_back(x);
            break;
        }
        size_t tries = 0;
        if (!failed.empty() && slots.back().st == S_FREE)
            for (auto it = failed.begin(); it != failed.end() && tries < 8;
                 ++it, ++tries) {
                Failed f = *it;
                if (!pools[f.pool].open)
                    continue;
                Slot &s = slots.back();
                // `failed` grows when this fails, which is a violation anyway
                do_alloc(s, f.pool, f.n, f.align, true);
                do_free(s, false);
                probe("failed request retried");
            }
        int order[3] = {0, 1, 2};
        uint64_t o = addr_rand();
        std::swap(order[0], order[o % (uint64_t)npools]);
        for (auto &s : slots)
            if (s.st == S_LIVE)
                do_free(s, o & 8);
        check_retention("after freeing everything");
        int last = -1;
        bool refused = false, lost = false;
        for (auto &s : slots)
            lost |= s.st == S_LOST;
        for (int k = 0; k < npools; k++) {
            P &q = pools[order[k]];
            refused |= !q.prov.refused.empty();
            if (q.open && q.shared)
                last = order[k];
        }
        for (int k = 0; k < npools; k++) {
            int i = order[k];
            P &q = pools[i];
            if (!q.open)
                continue;
            if (i == last && !refused && !lost && q.capacity && q.max_pool)
                give_back(q, i);
            close_pool(q, i);
        }
        umfDisjointPoolSharedLimitsDestroy(limits);
        for (int k = 0; k < npools; k++)
            if (pools[k].prov.h)
                umfMemoryProviderDestroy(pools[k].prov.h);
        umfTearDown();
        if (!no_leak && !refused && !lost)
            check_no_leak(base, "destroying every pool and provider");
    }
    // Every other pool that shared the limit is gone: the limit is this
    // pool's alone, so it retains up to the limit.
    void give_back(P &q, int i) {
        // the largest request that is still pooled
        size_t n = std::min<size_t>(q.max_pool, limit);
        size_t bucket = ref_bucket(n, q.min_bucket);
        size_t slab = std::max(bucket, q.slab_min);
        Empties e = empties(q);
        if (e.bytes + slab > limit)
            return;
        size_t cap = bucket <= q.slab_min / 2 ? 1 : q.capacity;
        size_t have = e.by_cls.count(bucket) ? e.by_cls[bucket].first : 0;
        if (have >= cap)
            return;
        probe("limit given back");
        // use up what is retained in that bucket, then one more
        Slot s;
        std::vector<Slot> v(have + 1);
        for (auto &x : v)
            do_alloc(x, i, n, 0, true);
        if (q.prov.live.empty())
            return;
        uintptr_t b = 0;
        std::set<uintptr_t> bases;
        for (auto &x : v) {
            if (q.prov.find(x.p, &b))
                bases.insert(b);
        }
        size_t want = e.sizes.size() - have + bases.size();
        for (auto &x : v)
            do_free(x, false);
        if (q.prov.live.size() < want)
            violate("limit-not-returned",
                    "the only pool left sharing a limit of %zu retains %zu "
                    "bytes and yet may not retain a slab of %zu", limit,
                    q.prov.bytes, slab);
    }
};
struct D3 : Disjoint {
    D3() : Disjoint(3) {}
};
struct D4 : Disjoint {
    D4() : Disjoint(4) {}
};
struct D5 : Disjoint {
    D5() : Disjoint(5) {}
};
SIM_SCENARIO("C03.disjoint", D3)
SIM_SCENARIO("C04.disjoint", D4)
SIM_SCENARIO("C05.disjoint", D5)
} // namespace
