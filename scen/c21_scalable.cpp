// C21: scalable pool over a strict provider, real TBB malloc inside.
#include "stubs.h"
#include <deque>
#include <umf/pools/pool_scalable.h>
using namespace simx;
namespace {
enum { MALLOC, CALLOC, REALLOC, ALIGNED, FREE, USABLE, GETERR, RECREATE, HUGE_, NOPS };
struct Slot {
    uintptr_t ptr = 0;
    size_t size = 0;
    uint64_t tag = 0;
    int pool = 0;
    bool busy = false;
};
struct P {
    Provider prov;
    umf_memory_pool_handle_t h = nullptr;
    int inflight = 0;
    bool exclusive = false;
    bool track = true;
};
struct Scalable : Scenario {
    std::deque<P> pools;
    std::deque<Slot> slots;
    std::map<uintptr_t, size_t> live; // all pools
    std::map<int, std::pair<int, umf_result_t>> last; // task -> pool, error
    Baseline base;
    size_t gran = 0;
    bool keep = false;
    uint64_t tags = 0;
    int np = 1;

    const char *op_name(uint32_t c) override {
        static const char *n[] = {"malloc", "calloc", "realloc", "aligned_malloc",
                                  "free", "usable_size", "last_error", "recreate",
                                  "huge"};
        return n[c % NOPS];
    }
    const char *real_parts() override {
        return "pool_scalable, TBB malloc 2.11, tracking provider, tracker, base "
               "allocator, loader";
    }
    const char *stub_parts() override { return "upstream provider (strict ledger)"; }
    static size_t pick_size(Rng &r) {
        switch (r.below(8)) {
        case 0: return 1 + r.below(16);
        case 1: return 1 + r.below(256);
        case 2: return 1 + r.below(1024);
        case 3: return 1 + r.below(8200);
        case 4: return 1 + r.below(70000);
        case 5: return 1u << r.below(20);
        case 6: return 1 + r.below(1 << 20);
        default: return 1 + r.below(3 << 20);
        }
    }
    void generate(Rng &r, Program &p, bool thorough) override {
        int nt = (int)r.range(1, 4), k = (int)r.range(4, thorough ? 40 : 24);
        p.cfg["pools"] = r.chance(1, 3) ? 2 : 1;
        static const int64_t g[] = {0, 4096, 65536, 1 << 20, 2 << 20, 4 << 20};
        p.cfg["gran"] = g[r.below(6)];
        p.cfg["keep"] = (int64_t)r.below(2);
        p.cfg["track"] = r.chance(4, 5);
        p.cfg["slots"] = r.range(2, 14);
        p.cfg["err"] = (int64_t)r.below(3);
        int re = (int)r.below(4);
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < k; i++) {
                unsigned x = (unsigned)r.below(100);
                int c = x < 28 ? MALLOC : x < 38 ? CALLOC : x < 52 ? REALLOC
                        : x < 62 ? ALIGNED : x < 84 ? FREE : x < 88 ? USABLE
                        : x < 94 ? GETERR : x < 96 ? (re ? FREE : RECREATE) : HUGE_;
                p.add((uint32_t)t, (uint32_t)c, (int64_t)r.below(16),
                      (int64_t)pick_size(r), (int64_t)r.below(13),
                      (int64_t)r.below(2));
            }
        pick_faults(r, p, {F_PROV_ALLOC, F_PROV_ALLOC, F_META, F_BAMMAP, F_PROV_FREE},
                    55);
    }
    void create(P &q) {
        bool f = faults_enabled();
        faults_enable(false);
        umf_scalable_pool_params_handle_t pr = nullptr;
        if (umfScalablePoolParamsCreate(&pr))
            violate("create-failed", "params");
        if (gran && umfScalablePoolParamsSetGranularity(pr, gran))
            violate("create-failed", "granularity %zu refused", gran);
        umfScalablePoolParamsSetKeepAllMemory(pr, keep);
        faults_enable(f);
        umf_result_t r = UMF_RESULT_ERROR_UNKNOWN;
        for (int i = 0; i < 50 && r; i++) {
            uint64_t f0 = faults_fired();
            q.h = nullptr;
            r = umfPoolCreate(umfScalablePoolOps(), q.prov.h, pr,
                              q.track ? 0 : UMF_POOL_CREATE_FLAG_DISABLE_TRACKING,
                              &q.h);
            if (r && f0 == faults_fired())
                violate("create-failed", "umfPoolCreate failed (%s) without "
                                         "faults", res_name(r));
            if (r && i == 10)
                faults_enable(false);
        }
        faults_enable(f);
        umfScalablePoolParamsDestroy(pr);
    }
    void setup(const Program &p) override {
        loader_install();
        base = baseline();
        lib_init();
        gran = (size_t)p.get("gran");
        keep = p.get("keep");
        np = (int)p.get("pools", 1);
        for (int i = 0; i < np; i++) {
            pools.emplace_back();
            P &q = pools.back();
            static const umf_result_t errs[] = {
                UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY,
                UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC,
                UMF_RESULT_ERROR_OUT_OF_RESOURCES};
            q.prov.err = errs[p.get("err") % 3];
            q.track = p.get("track", 1);
            q.prov.before_free = [this](uintptr_t a, size_t n) {
                auto it = live.lower_bound(a);
                if (it != live.end() && it->first < a + n)
                    violate("slab-with-live-block", "memory %#lx+%zu given back "
                            "while block %#lx lies in it", (unsigned long)a, n,
                            (unsigned long)it->first);
            };
            make_provider(&q.prov);
            create(q);
        }
        slots.resize((size_t)p.get("slots", 4));
    }
    // refusals this task met so far
    uint64_t fails() {
        uint64_t n = 0;
        for (auto &q : pools)
            n += q.prov.fails[task_id()];
        return n;
    }
    void claim(Slot &s, int pi, void *ptr, size_t size, size_t align,
               const char *what) {
        P &q = pools[(size_t)pi];
        uintptr_t a = (uintptr_t)ptr;
        if (align && a % align)
            violate("misaligned", "%s(%zu) returned %p, alignment %zu", what,
                    size, ptr, align);
        uintptr_t b = 0;
        Block *blk = q.prov.find(a, &b);
        if (!blk || a + size > b + blk->size)
            violate("outside-provider", "%s(%zu) returned %p, which is not "
                                        "inside memory of its provider", what,
                    size, ptr);
        auto it = live.lower_bound(a);
        if (it != live.end() && it->first < a + size)
            violate("overlap", "%s(%zu) returned %p, overlapping live %#lx+%zu",
                    what, size, ptr, (unsigned long)it->first, it->second);
        if (it != live.begin()) {
            --it;
            if (it->first + it->second > a)
                violate("overlap", "%s(%zu) returned %p, overlapping live "
                                   "%#lx+%zu", what, size, ptr,
                        (unsigned long)it->first, it->second);
        }
        live[a] = size;
        s.ptr = a;
        s.size = size;
        s.pool = pi;
        s.tag = ++tags;
    }
    void failed(int pi, const char *what, size_t size, uint64_t f0, uint64_t nf,
                bool must_fail) {
        umf_result_t e = umfPoolGetLastAllocationError(pools[(size_t)pi].h);
        last[task_id()] = {pi, e};
        if (e == UMF_RESULT_SUCCESS)
            violate("no-error", "%s(%zu) returned NULL but the last allocation "
                                "error is SUCCESS", what, size);
        if (!must_fail && faults_fired() == f0)
            violate("spurious-failure", "%s(%zu) failed (%s) without any "
                                        "refusal", what, size, res_name(e));
        if (fails() != nf && e != UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY)
            violate("wrong-error", "%s(%zu) met a provider refusal and reports "
                                   "%s", what, size, res_name(e));
        probe("allocation refused");
    }
    void check(Slot &s, size_t n, const char *what) {
        long o = verify((void *)s.ptr, n, s.tag);
        if (o >= 0)
            violate("corrupt", "%s: byte %ld of block %#lx (%zu) changed", what, o,
                    (unsigned long)s.ptr, s.size);
    }
    void exec(const Op &op) override {
        int me = task_id();
        Slot &s = slots[(size_t)op.a[0] % slots.size()];
        size_t size = (size_t)op.a[1];
        int pi = (int)(op.a[3] % np);
        uint32_t c = op.code % NOPS;
        if (c == GETERR) {
            auto it = last.find(me);
            if (it == last.end())
                return;
            umf_result_t e = umfPoolGetLastAllocationError(
                pools[(size_t)it->second.first].h);
            if (e != it->second.second)
                violate("error-of-other-thread", "the last allocation error of "
                        "this thread was %s, now reads %s",
                        res_name(it->second.second), res_name(e));
            probe("error read again");
            return;
        }
        if (c == RECREATE) {
            recreate(pi);
            return;
        }
        if (s.busy)
            return;
        s.busy = true;
        if (s.ptr)
            pi = s.pool;
        P &q = pools[(size_t)pi];
        yield_until([&] { return !q.exclusive; });
        if (s.ptr == 0)
            ;
        q.inflight++;
        uint64_t f0 = faults_fired();
        uint64_t nf0 = fails();
        auto done_alloc = [&](void *p, size_t align, const char *w, bool zero,
                              bool must_fail) {
            if (!p) {
                failed(pi, w, size, f0, nf0, must_fail);
                return;
            }
            last.erase(me);
            if (must_fail)
                violate("overflow", "%s succeeded with an impossible size", w);
            claim(s, pi, p, size, align, w);
            if (zero) {
                const unsigned char *b = (const unsigned char *)p;
                for (size_t i = 0; i < size; i++)
                    if (b[i])
                        violate("not-zeroed", "calloc(%zu): byte %zu is %#x",
                                size, i, b[i]);
            }
            fill(p, size, s.tag);
        };
        switch (c) {
        case MALLOC:
        case CALLOC:
        case ALIGNED:
        case HUGE_:
            if (s.ptr)
                break;
            if (c == MALLOC)
                done_alloc(umfPoolMalloc(q.h, size), size >= 16 ? 16 : 8, "malloc",
                           false, false);
            else if (c == CALLOC) {
                size_t n = 1 + (size_t)op.a[2];
                size_t each = size / n ? size / n : 1;
                size = n * each;
                done_alloc(umfPoolCalloc(q.h, n, each), 0, "calloc", true, false);
            } else if (c == ALIGNED) {
                size_t al = (size_t)8 << op.a[2];
                done_alloc(umfPoolAlignedMalloc(q.h, size, al), al,
                           "aligned_malloc", false, false);
            } else {
                switch (op.a[2] % 4) {
                case 0: {
                    size = SIZE_MAX - (size_t)op.a[1];
                    done_alloc(umfPoolMalloc(q.h, size), 0, "malloc", false, true);
                    break;
                }
                case 1:
                    size = SIZE_MAX;
                    done_alloc(umfPoolCalloc(q.h, SIZE_MAX / 2 + 1, 2), 0,
                               "calloc", false, true);
                    break;
                case 2:
                    size = SIZE_MAX;
                    done_alloc(umfPoolCalloc(q.h, ((size_t)1 << 60) + 1, 32), 0,
                               "calloc", false, true);
                    break;
                default:
                    size = SIZE_MAX - (size_t)op.a[1];
                    done_alloc(umfPoolAlignedMalloc(q.h, size, 64), 0,
                               "aligned_malloc", false, true);
                }
            }
            break;
        case REALLOC: {
            if (!s.ptr)
                break;
            check(s, s.size, "before realloc");
            uintptr_t old = s.ptr;
            size_t osz = s.size;
            uint64_t otag = s.tag;
            live.erase(old);
            void *p = umfPoolRealloc(q.h, (void *)old, size);
            if (!p) {
                live[old] = osz;
                failed(pi, "realloc", size, f0, nf0, false);
                check(s, osz, "after a failed realloc");
                break;
            }
            last.erase(me);
            claim(s, pi, p, size, 0, "realloc");
            size_t keepn = std::min(osz, size);
            // the pattern of large blocks depends on the size: compare the
            // head that both layouts share
            {
                Slot t = s;
                t.tag = otag;
                size_t n = osz <= 8192 ? keepn : std::min<size_t>(keepn, 512);
                const unsigned char *b = (const unsigned char *)p;
                std::vector<unsigned char> want(n <= 8192 ? n : 8192);
                fill(want.data(), want.size(), otag);
                for (size_t i = 0; i < want.size(); i++)
                    if (b[i] != want[i])
                        violate("realloc-lost", "realloc(%zu -> %zu): byte %zu "
                                                "not preserved", osz, size, i);
                (void)t;
            }
            fill(p, size, s.tag);
            probe("realloc");
            break;
        }
        case FREE: {
            if (!s.ptr)
                break;
            check(s, s.size, "before free");
            live.erase(s.ptr);
            void *p = (void *)s.ptr;
            s.ptr = 0;
            umf_result_t r = op.a[2] & 1 && q.track ? umfFree(p) : umfPoolFree(q.h, p);
            if (r && faults_fired() == f0)
                violate("free-failed", "free of a live block failed (%s)",
                        res_name(r));
            break;
        }
        case USABLE: {
            if (!s.ptr)
                break;
            size_t u = umfPoolMallocUsableSize(q.h, (void *)s.ptr);
            if (u < s.size)
                violate("usable-size", "usable size %zu of a block of %zu", u,
                        s.size);
            check(s, s.size, "usable size");
            // everything up to it belongs to the block
            auto it = live.upper_bound(s.ptr);
            if (it != live.end() && s.ptr + u > it->first)
                violate("usable-size", "usable size %zu of %#lx reaches the next "
                                       "live block", u, (unsigned long)s.ptr);
            break;
        }
        }
        q.inflight--;
        s.busy = false;
    }
    void drain(int pi) {
        for (auto &s : slots)
            if (s.ptr && s.pool == pi) {
                check(s, s.size, "at the end");
                live.erase(s.ptr);
                void *p = (void *)s.ptr;
                s.ptr = 0;
                umfPoolFree(pools[(size_t)pi].h, p);
            }
    }
    void destroy(int pi) {
        P &q = pools[(size_t)pi];
        uint64_t fr0 = faults_fired_kind(F_PROV_FREE);
        umfPoolDestroy(q.h);
        q.h = nullptr;
        size_t n = 0;
        for (auto &b : q.prov.live)
            if (!q.prov.refused.count(b.second.serial))
                n++;
        (void)fr0;
        if (n)
            violate("leak:provider", "%zu blocks were not given back when the "
                                     "pool was destroyed", n);
    }
    void recreate(int pi) {
        P &q = pools[(size_t)pi];
        if (q.exclusive)
            return;
        q.exclusive = true;
        yield_until([&] { return q.inflight == 0; });
        bool f = faults_enabled();
        drain(pi);
        destroy(pi);
        for (auto it = last.begin(); it != last.end();)
            it = it->second.first == pi ? last.erase(it) : std::next(it);
        create(q);
        faults_enable(f);
        q.exclusive = false;
        probe("pool destroyed and created again");
    }
    void finish() override {
        for (int i = 0; i < np; i++) {
            // the pool still works once refusals stopped
            void *p = umfPoolMalloc(pools[(size_t)i].h, 100000);
            if (!p)
                violate("not-recovered", "malloc(100000) fails after the "
                                         "refusals stopped");
            fill(p, 100000, 1);
            umfPoolFree(pools[(size_t)i].h, p);
            drain(i);
            destroy(i);
            umfMemoryProviderDestroy(pools[(size_t)i].prov.h);
        }
        umfTearDown();
        check_no_leak(base, "the scalable pool");
        if (loader_open_count())
            violate("leak:library", "TBB library left open");
    }
};
SIM_SCENARIO("C21.scalable", Scalable)
} // namespace
