// C06: the internal metadata allocators (fixed-size pools, general, linear).
#include "common.h"
#include <deque>
extern "C" {
#include "base_alloc.h"
#include "base_alloc_global.h"
#include "base_alloc_linear.h"
}
using namespace simx;

namespace {
enum { ALLOC, FREE, USABLE, HUGE_, RECREATE, CONTAINS, BULK, BULKFREE, NOPS };
enum Mode { M_FIXED, M_GLOBAL, M_LINEAR };
enum St { S_FREE, S_BUSY, S_LIVE };
struct Slot {
    St st = S_FREE;
    uintptr_t p = 0;
    size_t n = 0;
    int pool = 0;
    uint64_t tag = 0;
};
struct Ba : Scenario {
    int mode;
    umf_ba_pool_t *fp[2] = {nullptr, nullptr};
    umf_ba_linear_pool_t *lp[2] = {nullptr, nullptr};
    size_t fsize[2] = {8, 64};
    size_t lsize[2] = {0, 0};
    std::deque<Slot> slots;
    std::map<uintptr_t, Slot *> live;
    uint64_t tags = 0;
    int inflight = 0;
    bool gate = false;
    size_t maps0 = 0, peak_blocks = 0;
    Baseline base;
    explicit Ba(int m) : mode(m) {}
    const char *op_name(uint32_t k) override {
        static const char *n[] = {"alloc", "free",     "usable",
                                  "huge",  "recreate", "contains",
                                  "alloc-many", "free-many"};
        return n[k % NOPS];
    }
    const char *real_parts() override {
        return mode == M_FIXED    ? "base_alloc, base_alloc_linux"
               : mode == M_GLOBAL ? "base_alloc_global, base_alloc, "
                                    "base_alloc_linux, init-once"
                                  : "base_alloc_linear, base_alloc_linux";
    }
    const char *stub_parts() override { return "OS (mmap, munmap, locks)"; }
    void generate(Rng &r, Program &p, bool thorough) override {
        int nt = (int)r.range(1, 4), per = (int)r.range(10, thorough ? 160 : 70);
        p.cfg["slots"] = r.chance(1, 2) ? r.range(4, 30) : r.range(100, 400);
        static const int64_t fs[] = {1, 7, 8, 24, 40, 64, 200, 1000, 5000};
        static const int64_t ls[] = {0, 1, 4000, 4096, 5000, 20000, 100000};
        for (int i = 0; i < 2; i++) {
            p.cfg["fsize" + std::to_string(i)] = fs[r.below(9)];
            p.cfg["lsize" + std::to_string(i)] = ls[r.below(7)];
        }
        p.cfg["keep"] = r.range(20, 95);
        int keep = (int)p.cfg["keep"];
        // enough live blocks for the allocators to need more memory
        bool bulk = r.chance(1, 2);
        if (bulk)
            p.cfg["slots"] = 400;
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < per; i++) {
                int k = (int)r.below(100) < keep ? ALLOC : FREE;
                if (r.chance(1, 12))
                    k = mode == M_LINEAR ? CONTAINS : USABLE;
                else if (r.chance(1, 40))
                    k = HUGE_;
                else if (r.chance(1, 60))
                    k = RECREATE;
                else if (bulk && r.chance(1, 12))
                    k = r.chance(2, 3) ? BULK : BULKFREE;
                size_t n;
                switch (r.below(4)) {
                case 0: n = r.below(300) + 1; break;
                case 1: n = ((size_t)8 << r.below(6)) + r.below(3) - 1; break;
                case 2: n = r.below(30) + 1; break;
                default: n = r.below(r.chance(1, 4) ? 20000 : 3000) + 1;
                }
                size_t al = r.chance(1, 3) ? (size_t)1 << r.below(13) : 0;
                p.add((uint32_t)t, (uint32_t)k, (int64_t)r.below(400),
                      (int64_t)r.below(2), (int64_t)n, (int64_t)al,
                      (int64_t)r.below(16), (int64_t)r.below(1000));
            }
        pick_faults(r, p, {F_BAMMAP}, 60);
        // with an uninitialised library the classes are created in the run
        p.cfg["late"] = mode == M_GLOBAL && r.chance(1, 2);
    }
    bool no_fault(uint64_t f0) { return faults_fired() == f0; }
    void create(int i, bool must) {
        uint64_t f0 = faults_fired();
        if (mode == M_FIXED) {
            fp[i] = umf_ba_create(fsize[i]);
            if (!fp[i] && (must || no_fault(f0)))
                violate("create-failed", "umf_ba_create(%zu) without faults",
                        fsize[i]);
        } else if (mode == M_LINEAR) {
            lp[i] = umf_ba_linear_create(lsize[i]);
            if (!lp[i] && (must || no_fault(f0)))
                violate("create-failed", "umf_ba_linear_create(%zu) without "
                                         "faults", lsize[i]);
        }
    }
    void setup(const Program &p) override {
        slots.resize((size_t)std::max<int64_t>(1, p.get("slots", 8)));
        for (int i = 0; i < 2; i++) {
            fsize[i] = (size_t)std::max<int64_t>(
                1, p.get(("fsize" + std::to_string(i)).c_str(), 8));
            lsize[i] = (size_t)p.get(("lsize" + std::to_string(i)).c_str(), 0);
        }
        maps0 = os::mapped_bytes(0);
        if (mode == M_GLOBAL && !p.get("late"))
            umf_ba_global_free(umf_ba_global_alloc(1));
        for (int i = 0; i < 2; i++)
            create(i, true);
    }
    Slot *overlap(uintptr_t a, uintptr_t e, const Slot *self) {
        auto it = live.lower_bound(e);
        while (it != live.begin()) {
            --it;
            Slot *s = it->second;
            if (s != self)
                return s->p + s->n > a && s->p < e ? s : nullptr;
        }
        return nullptr;
    }
    void check_content(Slot &s, const char *when) {
        long o = verify((void *)s.p, s.n, s.tag);
        if (o >= 0)
            violate("content-lost", "%s: byte %ld of block [%#lx,+%zu) is not "
                                    "what its owner wrote", when, o,
                    (unsigned long)s.p, s.n);
    }
    void *do_alloc(int pool, size_t &n, size_t al) {
        switch (mode) {
        case M_FIXED:
            n = fsize[pool];
            return fp[pool] ? umf_ba_alloc(fp[pool]) : nullptr;
        case M_GLOBAL:
            return al ? umf_ba_global_aligned_alloc(n, al)
                      : umf_ba_global_alloc(n);
        default:
            return lp[pool] ? umf_ba_linear_alloc(lp[pool], n) : nullptr;
        }
    }
    void do_free(Slot &s) {
        check_content(s, "before free");
        s.st = S_BUSY;
        live.erase(s.p);
        if (mode == M_FIXED)
            umf_ba_free(fp[s.pool], (void *)s.p);
        else if (mode == M_GLOBAL)
            umf_ba_global_free((void *)s.p);
        else {
            umf_ba_linear_pool_t *other = lp[1 - s.pool];
            if (other && (s.tag & 3) == 0 &&
                umf_ba_linear_free(other, (void *)s.p) != -1)
                violate("foreign-free", "a pool freed a block of another one");
            if (umf_ba_linear_free(lp[s.pool], (void *)s.p) != 0)
                violate("free-failed", "the pool does not know its block");
        }
        s.st = S_FREE;
    }
    void free_all(int pool) {
        for (auto &s : slots)
            if (s.st == S_LIVE && (pool < 0 || s.pool == pool))
                do_free(s);
    }
    void destroy(int i) {
        if (mode == M_FIXED && fp[i])
            umf_ba_destroy(fp[i]);
        if (mode == M_LINEAR && lp[i])
            umf_ba_linear_destroy(lp[i]);
        fp[i] = nullptr;
        lp[i] = nullptr;
    }
    void exec(const Op &op) override {
        Slot &s = slots[(size_t)op.a[0] % slots.size()];
        int pool = (int)(op.a[1] & 1);
        int code = (int)(op.code % NOPS);
        yield_until([this] { return !gate; });
        if (code == RECREATE) {
            // one task alone ends the allocator's life and starts a new one
            gate = true;
            yield_until([this] { return !inflight; });
            if (mode == M_GLOBAL) {
                free_all(-1);
                umf_ba_destroy_global();
                if (os::mapped_bytes(0) != maps0)
                    violate("leak:mapping",
                            "destroying the allocator left %zu bytes mapped%s",
                            os::mapped_bytes(0) - maps0,
                            os::maps_describe(0).c_str());
                probe("general allocator destroyed and used again");
            } else {
                free_all(pool);
                destroy(pool);
                create(pool, false);
                if (!fp[pool] && !lp[pool])
                    create(pool, false);
            }
            gate = false;
            return;
        }
        inflight++;
        if (code == BULK || code == BULKFREE) {
            Op o = op;
            int n = 20 + (int)((uint64_t)op.a[5] % 150);
            o.a[2] = 1 + (int64_t)((uint64_t)op.a[2] % 200);
            for (int i = 0; i < n; i++)
                step(o, slots[((size_t)op.a[0] + (size_t)i) % slots.size()], pool,
                     code == BULK ? ALLOC : FREE);
        } else {
            step(op, s, pool, code);
        }
        inflight--;
    }
    void step(const Op &op, Slot &s, int pool, int code) {
        if (code == ALLOC) {
            if (s.st != S_FREE)
                return;
            if ((mode == M_FIXED && !fp[pool]) || (mode == M_LINEAR && !lp[pool]))
                return;
            size_t n = (size_t)op.a[2], al = (size_t)op.a[3];
            s.st = S_BUSY;
            uint64_t f0 = faults_fired();
            void *ptr = do_alloc(pool, n, al);
            if (!ptr) {
                s.st = S_FREE;
                if (no_fault(f0))
                    violate("alloc-failed", "allocation of %zu bytes failed, "
                                            "the OS refused nothing", n);
                probe("allocation refused");
                return;
            }
            size_t want = mode == M_GLOBAL && al ? al : 8;
            if ((uintptr_t)ptr % want)
                violate("misaligned", "%p for alignment %zu", ptr, want);
            if (!os::range_mapped((uintptr_t)ptr, n, 0, true))
                violate("outside-memory", "block [%p,+%zu) is not inside "
                                          "memory taken from the OS", ptr, n);
            if (mode == M_GLOBAL && umf_ba_global_malloc_usable_size(ptr) < n)
                violate("usable-size", "usable size of %p is below the "
                                       "requested %zu", ptr, n);
            if (Slot *o = overlap((uintptr_t)ptr, (uintptr_t)ptr + n, &s))
                violate("overlap", "block [%p,+%zu) overlaps live block "
                                   "[%#lx,+%zu)", ptr, n, (unsigned long)o->p,
                        o->n);
            s.p = (uintptr_t)ptr;
            s.n = n;
            s.pool = pool;
            s.tag = ++tags;
            fill(ptr, n, s.tag);
            live[s.p] = &s;
            s.st = S_LIVE;
            if (live.size() > 128)
                probe("more than 128 live blocks");
        } else if (code == FREE) {
            if (s.st == S_LIVE)
                do_free(s);
        } else if (code == USABLE) {
            if (mode == M_GLOBAL && s.st == S_LIVE) {
                s.st = S_BUSY;
                size_t u = umf_ba_global_malloc_usable_size((void *)s.p);
                if (u < s.n ||
                    overlap(s.p + s.n, s.p + u, &s) ||
                    !os::range_mapped(s.p, u, 0, true))
                    violate("usable-size", "usable size %zu of a block of %zu "
                                           "bytes reaches foreign memory", u,
                            s.n);
                s.st = S_LIVE;
            }
        } else if (code == CONTAINS) {
            if (mode != M_LINEAR || s.st != S_LIVE || !lp[s.pool])
                return;
            s.st = S_BUSY;
            size_t c =
                umf_ba_linear_pool_contains_pointer(lp[s.pool], (void *)s.p);
            if (c < s.n)
                violate("contains", "pool reports %zu bytes from a block of "
                                    "%zu bytes", c, s.n);
            if (lp[1 - s.pool] && umf_ba_linear_pool_contains_pointer(
                                      lp[1 - s.pool], (void *)s.p))
                violate("contains", "a pool claims a foreign block");
            s.st = S_LIVE;
        } else if (code == HUGE_) {
            // must fail cleanly, whatever the size
            static const size_t d[] = {0, 1, 7, 8, 15, 16, 24, 32, 63,
                                       64, 256, 4095, 4096};
            size_t n = (size_t)0 - 1 - d[(size_t)op.a[5] % 13];
            size_t al = (size_t)op.a[3];
            switch (op.a[4] & 3) {
            case 1: n = SIZE_MAX / 2 + (size_t)op.a[5]; break;
            case 2: n = ((size_t)1 << 44) + (size_t)op.a[5]; break;
            case 3: n = SIZE_MAX / 128 - (size_t)op.a[5]; break;
            }
            if (mode == M_FIXED) {
                umf_ba_pool_t *b = umf_ba_create(n);
                if (b)
                    violate("huge-served", "a pool of %zu byte chunks", n);
            } else if (mode == M_GLOBAL) {
                if (umf_ba_global_aligned_alloc(n, al))
                    violate("huge-served", "a block of %zu bytes", n);
            } else {
                if (lp[pool] && umf_ba_linear_alloc(lp[pool], n))
                    violate("huge-served", "a block of %zu bytes", n);
                if (umf_ba_linear_create(n))
                    violate("huge-served", "a pool of %zu bytes", n);
            }
        }
    }
    void finish() override {
        // usable after refusals
        for (int i = 0; i < 2; i++) {
            if (mode != M_GLOBAL && !fp[i] && !lp[i])
                create(i, true);
            size_t n = 40;
            void *p = do_alloc(i, n, 0);
            if (!p)
                violate("alloc-failed", "the allocator stays unusable after "
                                        "refusals ended");
            memset(p, 0x5a, n);
            Slot s;
            if (Slot *o = overlap((uintptr_t)p, (uintptr_t)p + n, nullptr))
                violate("overlap", "block [%p,+%zu) overlaps live block "
                                   "[%#lx,+%zu)", p, n, (unsigned long)o->p,
                        o->n);
            s.p = (uintptr_t)p;
            s.n = 0;
            s.pool = i;
            do_free(s);
        }
        free_all(-1);
        for (int i = 0; i < 2; i++)
            destroy(i);
        if (mode == M_GLOBAL)
            umf_ba_destroy_global();
        if (os::mapped_bytes(0) != maps0)
            violate("leak:mapping", "destroying the allocator left %zu bytes "
                                    "mapped%s", os::mapped_bytes(0) - maps0,
                    os::maps_describe(0).c_str());
    }
};
struct BaFixed : Ba { BaFixed() : Ba(M_FIXED) {} };
struct BaGlobal : Ba { BaGlobal() : Ba(M_GLOBAL) {} };
struct BaLinear : Ba { BaLinear() : Ba(M_LINEAR) {} };
SIM_SCENARIO("C06.fixed", BaFixed)
SIM_SCENARIO("C06.global", BaGlobal)
SIM_SCENARIO("C06.linear", BaLinear)
} // namespace
