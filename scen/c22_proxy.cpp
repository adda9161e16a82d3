// C22: the malloc replacement: start-up, pooled and system allocator.
#include "stubs.h"
#include <algorithm>
#include <deque>
extern "C" {
void *px_malloc(size_t);
void *px_calloc(size_t, size_t);
void *px_realloc(void *, size_t);
void px_free(void *);
void *px_aligned_alloc(size_t, size_t);
size_t px_malloc_usable_size(void *);
void proxy_lib_create(void);
void proxy_lib_destroy(void);
}
using namespace simx;
namespace {
enum { MALLOC, CALLOC, REALLOC, ALIGNED, FREE, USABLE, HUGE_, NULLS, START, NOPS };

// The C library's allocator as it would be found behind the replacement.
struct SysBlock {
    size_t size, map;
    void *base;
};
struct System {
    std::map<uintptr_t, SysBlock> live;
    uint64_t refused = 0;
} SYS;
void *sys_get(size_t n, size_t al) {
    point();
    if (n > (1ull << 40) || fault(F_PROV_ALLOC)) {
        SYS.refused++;
        return nullptr;
    }
    Unchecked u;
    al = std::max<size_t>(al, 16);
    SysBlock b;
    b.size = n;
    size_t off = al < 4096 ? al * (addr_rand() % 3) : 0;
    b.map = (off + n + 4096) / 4096 * 4096;
    b.base = os::reserve(b.map, std::max<size_t>(al, 4096));
    uintptr_t a = (uintptr_t)b.base + off;
    memset((void *)a, 0xd1, std::min<size_t>(n, 8192));
    SYS.live[a] = b;
    return (void *)a;
}
SysBlock &sys_find(void *p, const char *what) {
    auto it = SYS.live.find((uintptr_t)p);
    if (it == SYS.live.end())
        violate("wrong-allocator", "%s of the C library was given %p, which it does not own",
                what, p);
    return it->second;
}
void sys_free(void *p) {
    point();
    if (!p)
        return;
    SysBlock b = sys_find(p, "free");
    Unchecked u;
    SYS.live.erase((uintptr_t)p);
    os::release(b.base, b.map);
}
void *sys_malloc(size_t n) { return sys_get(n, 16); }
void *sys_calloc(size_t n, size_t m) {
    if (m && n > SIZE_MAX / m)
        return nullptr;
    void *p = sys_get(n * m, 16);
    if (p)
        memset(p, 0, n * m);
    return p;
}
void *sys_aligned(size_t al, size_t n) { return sys_get(n, al); }
void *sys_realloc(void *p, size_t n) {
    if (!p)
        return sys_get(n, 16);
    size_t old = sys_find(p, "realloc").size;
    void *q = sys_get(n, 16);
    if (!q)
        return nullptr;
    memcpy(q, p, std::min(old, n));
    sys_free(p);
    return q;
}
size_t sys_usable(void *p) { return p ? sys_find(p, "malloc_usable_size").size : 0; }

struct Slot {
    void *p = nullptr;
    size_t size = 0;
    uint64_t tag = 0;
    bool busy = false;
};
struct Proxy : Scenario {
    std::deque<Slot> slots;
    std::deque<std::deque<Slot>> nested; // per task: blocks of recursive calls
    std::map<uintptr_t, size_t> live;
    Baseline base;
    uint64_t tags = 0;
    size_t threshold = 0;
    bool recursion = false, started = false, starting = false;
    std::map<int, int> depth;
    std::map<int, bool> guarded; // the call is one that guards against recursion
    std::map<int, bool> began; // started when the task's call began

    const char *op_name(uint32_t c) override {
        static const char *n[] = {"malloc", "calloc", "realloc", "aligned_alloc", "free",
                                  "usable_size", "impossible", "nulls", "start"};
        return n[c % NOPS];
    }
    const char *real_parts() override {
        return "proxy library, scalable pool, TBB malloc, OS provider, tracker, base and "
               "linear allocators";
    }
    const char *stub_parts() override {
        return "the C library's allocator (ledger), dynamic loader, OS calls";
    }
    static size_t pick_size(Rng &r, size_t th) {
        if (th && r.chance(1, 3)) // around the threshold
            return std::max<size_t>(1, th + r.below(5) - 2);
        switch (r.below(7)) {
        case 0: return 1 + r.below(16);
        case 1: return 1 + r.below(256);
        case 2: return 1 + r.below(1024);
        case 3: return 1 + r.below(8200);
        case 4: return 1 + r.below(70000);
        case 5: return 1u << r.below(19);
        default: return 1 + r.below(600000);
        }
    }
    void generate(Rng &r, Program &p, bool thorough) override {
        static const int64_t th[] = {0, 0, 64, 1000, 4096, 100000};
        p.cfg["threshold"] = th[r.below(6)];
        p.cfg["disposition"] = (int64_t)r.below(4);
        p.cfg["recursion"] = (int64_t)r.below(2);
        p.cfg["slots"] = r.range(2, 14);
        // much memory before the start: the start-up allocator grows and shrinks
        bool heavy = r.chance(1, 4);
        if (heavy)
            p.cfg["threshold"] = 0;
        int nt = (int)r.range(1, 4), k = (int)r.range(4, thorough ? 36 : 20);
        auto op = [&](uint32_t t) {
            unsigned x = (unsigned)r.below(100);
            int c = x < 25 ? MALLOC : x < 37 ? CALLOC : x < 53 ? REALLOC
                    : x < 63 ? ALIGNED : x < 86 ? FREE : x < 90 ? USABLE
                    : x < 95 ? HUGE_ : NULLS;
            p.add(t, (uint32_t)c, (int64_t)r.below(16),
                  (int64_t)(heavy && r.chance(2, 3)
                                ? 200000 + r.below(3000000)
                                : pick_size(r, (size_t)p.cfg["threshold"])),
                  (int64_t)r.below(12));
        };
        int before = r.chance(1, 2) ? (int)r.range(1, 10) : 0;
        for (int i = 0; i < before; i++)
            op(0);
        // before, among or never
        unsigned when = heavy ? 1 + (unsigned)r.below(2) : (unsigned)r.below(3);
        if (when == 0)
            p.add(0, START);
        int at = (int)r.below((uint64_t)k);
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < k; i++) {
                if (t == 1 && i == at && when == 1)
                    p.add(1, START);
                op((uint32_t)t);
            }
        pick_faults(r, p, {F_MMAP, F_META, F_BAMMAP, F_PROV_ALLOC, F_META, F_BAMMAP,
                           F_MMAP_FILE, F_FTRUNC},
                    55);
    }
    void setup(const Program &p) override {
        loader_install();
        TBB.on = true;
        next_symbol = [](const char *n) -> void * {
            if (!strcmp(n, "malloc")) return (void *)sys_malloc;
            if (!strcmp(n, "calloc")) return (void *)sys_calloc;
            if (!strcmp(n, "realloc")) return (void *)sys_realloc;
            if (!strcmp(n, "free")) return (void *)sys_free;
            if (!strcmp(n, "aligned_alloc")) return (void *)sys_aligned;
            if (!strcmp(n, "malloc_usable_size")) return (void *)sys_usable;
            return nullptr;
        };
        threshold = (size_t)p.get("threshold");
        recursion = p.get("recursion");
        std::string e = p.get("disposition") == 1   ? "page.disposition=shared-fd"
                        : p.get("disposition") == 2 ? "page.disposition=shared-shm"
                                                    : "";
        if (threshold)
            e += (e.empty() ? "" : ";") + ("size.threshold=" + std::to_string(threshold));
        os::set_env("LD_PRELOAD", "/opt/lib/libumf_proxy.so");
        if (!e.empty())
            os::set_env("UMF_PROXY", e.c_str());
        lib_init(); // the library's own constructor runs first
        // its start-up allocator copies up to the end of a pool, beyond the block
        meta_oracle(false);
        slots.resize((size_t)std::max<int64_t>(1, p.get("slots", 4)));
        nested.resize(16);
        TBB.on_call = [this](const char *) { recurse(); };
    }
    // --------------------------------------------------------------- oracles
    void claim(Slot &s, void *p, size_t size, size_t align, const char *what) {
        uintptr_t a = (uintptr_t)p;
        if (align && a % align)
            violate("misaligned", "%s(%zu) returned %p, alignment %zu", what, size, p, align);
        auto it = live.lower_bound(a);
        if (it != live.end() && it->first < a + size)
            violate("overlap", "%s(%zu) returned %p, overlapping live %#lx+%zu", what, size, p,
                    (unsigned long)it->first, it->second);
        if (it != live.begin() && (--it)->first + it->second > a)
            violate("overlap", "%s(%zu) returned %p, overlapping live %#lx+%zu", what, size, p,
                    (unsigned long)it->first, it->second);
        auto sb = SYS.live.find(a);
        auto tb = TBB.live.find(a);
        bool in_start_up = os::range_mapped(a, size, 0, true);
        if (sb == SYS.live.end() && tb == TBB.live.end() && !in_start_up)
            violate("no-allocator", "%s(%zu) returned %p, which no allocator owns", what, size,
                    p);
        if ((sb != SYS.live.end() && sb->second.size < size) ||
            (tb != TBB.live.end() && tb->second < size))
            violate("too-small", "%s(%zu) returned a smaller block", what, size);
        probe(sb != SYS.live.end()   ? "system allocator"
              : tb != TBB.live.end() ? "pool"
                                     : "start-up allocator");
        // a call made after the start goes where the threshold says
        if (began[task_id()] && !depth[task_id()] && strcmp(what, "realloc")) {
            bool want = size < threshold;
            if (want != (sb != SYS.live.end()))
                violate("wrong-allocator", "%s(%zu) with threshold %zu was %sserved by the C "
                        "library", what, size, threshold, want ? "not " : "");
        }
        live[a] = size;
        s.p = p;
        s.size = size;
        s.tag = ++tags;
    }
    void check(Slot &s, const char *what) {
        long o = verify(s.p, s.size, s.tag);
        if (o >= 0)
            violate("corrupt", "%s: byte %ld of block %p (%zu) changed", what, o, s.p, s.size);
    }
    void release(Slot &s) {
        check(s, "before free");
        void *p = s.p;
        live.erase((uintptr_t)p);
        s.p = nullptr;
        // somebody else may get the block as soon as it is free
        auto t = TBB.live.find((uintptr_t)p);
        auto y = SYS.live.find((uintptr_t)p);
        bool pool = t != TBB.live.end(), sys = y != SYS.live.end();
        uint64_t g0 = tags;
        px_free(p);
        if (g0 == tags && ((pool && TBB.live.count((uintptr_t)p)) ||
                           (sys && SYS.live.count((uintptr_t)p))))
            violate("lost", "%p was freed and its allocator did not get it back", p);
    }
    bool failed(void *p, size_t size, uint64_t f0, const char *what, bool must_fail) {
        if (p && must_fail)
            violate("overflow", "%s succeeded with an impossible size", what);
        if (p)
            return false;
        // the start-up allocator is created once: a refusal then is for good
        bool broken = (!began[task_id()] || depth[task_id()]) &&
                      (faults_fired_kind(F_BAMMAP) || faults_fired_kind(F_META) ||
                       faults_fired_kind(F_MUTEXINIT));
        if (!must_fail && faults_fired() == f0 && !broken)
            violate("spurious-failure", "%s(%zu) failed without any refusal", what, size);
        if (!must_fail)
            probe("allocation refused");
        return true;
    }
    static void zeroed(void *p, size_t n) {
        const unsigned char *b = (const unsigned char *)p;
        for (size_t i = 0; i < n; i++)
            if (b[i])
                violate("not-zeroed", "calloc(%zu): byte %zu is %#x", n, i, b[i]);
    }
    void resize(Slot &s, size_t size, uint64_t f0) {
        check(s, "before realloc");
        void *old = s.p;
        size_t osz = s.size;
        uint64_t otag = s.tag;
        bool pool = TBB.live.count((uintptr_t)old), sys = SYS.live.count((uintptr_t)old);
        live.erase((uintptr_t)old);
        uint64_t g0 = tags;
        void *p = px_realloc(old, size);
        if (failed(p, size, f0, "realloc", false)) {
            live[(uintptr_t)old] = osz;
            check(s, "after a failed realloc");
            return;
        }
        if (p != old && g0 == tags && ((pool && TBB.live.count((uintptr_t)old)) ||
                                       (sys && SYS.live.count((uintptr_t)old))))
            violate("lost", "%p was moved by realloc and its allocator did not get it back",
                    old);
        claim(s, p, size, size >= 16 ? 16 : 8, "realloc");
        size_t n = std::min(osz, size);
        n = osz <= 8192 ? n : std::min<size_t>(n, 512);
        std::vector<unsigned char> want(std::min<size_t>(n, 8192));
        fill(want.data(), want.size(), otag);
        for (size_t i = 0; i < want.size(); i++)
            if (((unsigned char *)p)[i] != want[i])
                violate("realloc-lost", "realloc(%zu -> %zu): byte %zu not preserved", osz, size,
                        i);
        fill(p, size, s.tag);
    }
    // a library used by the pool allocates memory
    void recurse() {
        int me = task_id();
        if (depth[me] && guarded[me])
            violate("recursion", "the pool was entered from inside the pool");
        if (!recursion || depth[me] || addr_rand() % 3)
            return;
        depth[me]++;
        auto &v = nested[(size_t)me % nested.size()];
        uint64_t f0 = faults_fired();
        uint64_t x = addr_rand();
        size_t n = 1 + x % 3000;
        unsigned what = (unsigned)(x >> 20) % 6;
        if (what < 4 || v.empty()) {
            Slot s;
            void *p;
            if (what == 0)
                p = px_calloc(1 + n / 8, 8), n = (1 + n / 8) * 8;
            else if (what == 1)
                p = px_aligned_alloc(64, n);
            else
                p = px_malloc(n);
            if (!failed(p, n, f0, "recursive malloc", false)) {
                claim(s, p, n, what == 1 ? 64 : n >= 16 ? 16 : 8, "recursive malloc");
                if (what == 0)
                    zeroed(p, n);
                fill(p, n, s.tag);
                v.push_back(s);
            }
        } else {
            Slot s = v.front();
            v.pop_front();
            if (what == 4 && !TBB.live.count((uintptr_t)s.p)) {
                resize(s, n, f0);
                v.push_back(s);
            } else if (TBB.live.count((uintptr_t)s.p))
                v.push_back(s); // libraries do not free what they got elsewhere
            else
                release(s);
        }
        probe("recursion");
        depth[me]--;
    }
    // ------------------------------------------------------------ operations
    void exec(const Op &op) override {
        uint32_t c = op.code % NOPS;
        if (c == START) {
            if (starting)
                return;
            starting = true;
            bool f = faults_enabled();
            faults_enable(false); // refusing the start ends the process
            proxy_lib_create();
            faults_enable(f);
            started = true;
            return;
        }
        Slot &s = slots[(uint64_t)op.a[0] % slots.size()];
        size_t size = (size_t)op.a[1] % (1 << 22);
        if (!size)
            size = 1;
        if (s.busy)
            return;
        s.busy = true;
        began[task_id()] = started;
        guarded[task_id()] = c != FREE && c != NULLS;
        uint64_t f0 = faults_fired();
        switch (c) {
        case MALLOC:
            if (!s.p) {
                void *p = px_malloc(size);
                if (!failed(p, size, f0, "malloc", false)) {
                    claim(s, p, size, size >= 16 ? 16 : 8, "malloc");
                    fill(p, size, s.tag);
                }
            }
            break;
        case CALLOC:
            if (!s.p) {
                size_t n = 1 + (uint64_t)op.a[2] % 50, each = size / n ? size / n : 1;
                void *p = px_calloc(n, each);
                if (!failed(p, n * each, f0, "calloc", false)) {
                    claim(s, p, n * each, n * each >= 16 ? 16 : 8, "calloc");
                    zeroed(p, n * each);
                    fill(p, n * each, s.tag);
                }
            }
            break;
        case ALIGNED:
            if (!s.p) {
                size_t al = (size_t)8 << ((uint64_t)op.a[2] % 13);
                void *p = px_aligned_alloc(al, size);
                if (!failed(p, size, f0, "aligned_alloc", false)) {
                    claim(s, p, size, al, "aligned_alloc");
                    fill(p, size, s.tag);
                }
            }
            break;
        case REALLOC:
            if (s.p)
                resize(s, size, f0);
            break;
        case FREE:
            if (s.p)
                release(s);
            break;
        case USABLE:
            if (s.p) {
                size_t u = px_malloc_usable_size(s.p);
                if (u && u < s.size)
                    violate("usable-size", "usable size %zu of a block of %zu", u, s.size);
                auto it = live.upper_bound((uintptr_t)s.p);
                if (it != live.end() && (uintptr_t)s.p + u > it->first)
                    violate("usable-size", "usable size %zu of %p reaches the next live block",
                            u, s.p);
                check(s, "usable size");
            }
            break;
        case HUGE_:
            if (!s.p) {
                void *p = nullptr;
                switch ((uint64_t)op.a[2] % 6) {
                case 0:
                    p = px_malloc(SIZE_MAX - (size_t)op.a[1] % 5000);
                    break;
                case 1:
                    p = px_calloc(SIZE_MAX / 2 + 1, 2);
                    break;
                case 2:
                    p = px_calloc(((size_t)1 << 60) + 1, 32);
                    break;
                case 3:
                    p = px_aligned_alloc(64, SIZE_MAX - (size_t)op.a[1] % 64);
                    break;
                case 4:
                    p = px_aligned_alloc(4096, SIZE_MAX - (size_t)op.a[1] % 5000);
                    break;
                case 5:
                    p = px_calloc(((size_t)1 << 63) + 8, 2);
                    break;
                }
                failed(p, SIZE_MAX, f0, "allocation", true);
            } else {
                live.erase((uintptr_t)s.p);
                size_t n = SIZE_MAX - (size_t)op.a[1] % 5000;
                void *p = px_realloc(s.p, n);
                failed(p, n, f0, "realloc", true);
                live[(uintptr_t)s.p] = s.size;
                check(s, "after an impossible realloc");
            }
            break;
        case NULLS:
            px_free(nullptr);
            if ((op.a[2] & 1) && s.p) {
                check(s, "before realloc to nothing");
                bool pool = TBB.live.count((uintptr_t)s.p), sys = SYS.live.count((uintptr_t)s.p);
                live.erase((uintptr_t)s.p);
                uint64_t g0 = tags;
                void *p = px_realloc(s.p, 0);
                if (g0 == tags && !p && ((pool && TBB.live.count((uintptr_t)s.p)) ||
                                         (sys && SYS.live.count((uintptr_t)s.p))))
                    violate("lost", "realloc(%p, 0) returned null and did not free", s.p);
                s.p = nullptr;
                if (p)
                    px_free(p);
            } else if (!s.p) {
                void *p = px_realloc(nullptr, size);
                if (!failed(p, size, f0, "realloc(NULL)", false)) {
                    claim(s, p, size, size >= 16 ? 16 : 8, "realloc(NULL)");
                    fill(p, size, s.tag);
                }
            }
            break;
        }
        s.busy = false;
    }
    void finish() override {
        if (!starting)
            proxy_lib_create();
        starting = started = began[task_id()] = guarded[task_id()] = true;
        // refusals stopped: everything is served
        for (auto &s : slots)
            if (!s.p) {
                void *p = px_malloc(5000);
                if (failed(p, 5000, faults_fired(), "malloc after the refusals stopped", false))
                    continue;
                claim(s, p, 5000, 16, "malloc");
                fill(p, 5000, s.tag);
            }
        recursion = false;
        proxy_lib_destroy();
        for (auto &s : slots)
            if (s.p)
                release(s);
        for (auto &v : nested)
            for (auto &s : v)
                release(s);
        if (TBB.live.size() || SYS.live.size())
            violate("leak", "%zu blocks of the pool and %zu of the C library are left",
                    TBB.live.size(), SYS.live.size());
    }
};
SIM_SCENARIO("C22.proxy", Proxy)
} // namespace
