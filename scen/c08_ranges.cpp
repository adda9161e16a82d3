// C08 (file), C09 (OS), C16 (fixed, device DAX), C18 (statistics of the OS
// provider): the real providers over the simulated address space and files.
#include "common.h"
#include <algorithm>
#include <deque>
#include <umf/providers/provider_devdax_memory.h>
#include <umf/providers/provider_file_memory.h>
#include <umf/providers/provider_fixed_memory.h>
#include <umf/providers/provider_os_memory.h>
extern "C" {
umf_result_t umfCtlGet(const char *name, void *ctx, void *arg);
umf_result_t umfCtlExec(const char *name, void *ctx, void *arg);
}
using namespace simx;

namespace {
enum { ALLOC, FREE, SPLIT, MERGE, IPC, PURGE, CREATE, STAT, PEAK, RESET, NOPS };
enum St { S_FREE, S_BUSY, S_LIVE };
enum Kind { FILE_PRIVATE, FILE_SHARED, FSDAX, OS_ANON, OS_MEMFD, OS_SHM, FIXED, DEVDAX };
struct Seg {
    int inode;
    size_t off, len;
};
struct Slot {
    St st = S_FREE;
    uintptr_t p = 0;
    size_t n = 0;
    uint64_t tag = 0;
    std::vector<Seg> segs;
};
struct Ranges : Scenario {
    int kind = 0;
    umf_memory_provider_handle_t h = nullptr;
    size_t page = 4096;
    uintptr_t region = 0;
    size_t region_size = 0;
    bool stats_only = false, disk = false;
    std::deque<Slot> slots;
    std::map<uintptr_t, Slot *> live;
    uint64_t tags = 0, started = 0;
    int inflight = 0;
    Baseline base;
    Program prog;
    // statistics (C18): operations whose effect may or may not have happened
    size_t cur = 0; // bytes of allocations known to be counted
    // intervals for the peak: see check below
    virtual int pick_kind(Rng &r) = 0;
    const char *op_name(uint32_t k) override {
        static const char *n[] = {"alloc", "free", "split", "merge",
                                  "ipc", "purge", "create", "stat", "peak", "reset"};
        return n[k % NOPS];
    }
    const char *real_parts() override {
        return "memory provider, coarse, ravl, critnib, base_alloc, utils, ctl, hwloc (synthetic)";
    }
    const char *stub_parts() override {
        return "address space, files, descriptors, locks";
    }
    virtual void gen_faults(Rng &r, Program &p) {
        pick_faults(r, p,
                    {F_META, F_META, F_BAMMAP, F_MMAP_FILE, F_MMAP_FILE,
                     F_FALLOC, F_FALLOC, F_OPEN, F_CLOSE, F_PIDFD, F_MMAP},
                    75);
    }
    void generate(Rng &r, Program &p, bool thorough) override {
        log_cfg(r, p, 15);
        kind = pick_kind(r);
        p.cfg["kind"] = kind;
        p.cfg["slots"] = r.range(2, 14);
        p.cfg["pages"] = r.range(1, r.chance(1, 2) ? 16 : 120);
        p.cfg["oddbase"] = r.chance(1, 6);
        p.cfg["oddsize"] = r.chance(1, 6) ? r.range(1, 4095) : 0;
        if (r.chance(1, 6))
            p.cfg["disk"] = r.range(1, 600) * 4096 + (2 << 20);
        p.cfg["flags"] = r.range(0, 3);
        bool big = kind == FSDAX || kind == DEVDAX;
        if (big)
            p.cfg["pages"] = r.range(1, 24);
        int nt = (int)r.range(1, 3), per = (int)r.range(6, thorough ? 80 : 36);
        int odd = (int)r.below(3);
        size_t pg = big ? (2u << 20) : 4096;
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < per; i++) {
                int k = (int)r.pick(std::vector<int>{
                    ALLOC, ALLOC, ALLOC, ALLOC, FREE, FREE, FREE, SPLIT, MERGE,
                    MERGE, IPC, IPC});
                if (r.chance(1, 60))
                    k = CREATE;
                if (r.chance(1, 50))
                    k = PURGE;
                size_t n = pg * (r.below(r.chance(1, 2) ? 3 : 12) + 1);
                if (odd == 1 || (odd == 2 && r.chance(1, 4)))
                    n = r.below(big ? 5 << 20 : 20000) + 1;
                if (r.chance(1, 60))
                    n = (size_t)0 - r.below(3 * 4096) - 1;
                size_t al = 0;
                if (r.chance(1, 3))
                    al = (size_t)1 << r.below(big ? 23 : 18);
                p.add((uint32_t)t, (uint32_t)k, (int64_t)r.below(64),
                      (int64_t)r.below(64), (int64_t)n, (int64_t)al,
                      (int64_t)r.below(1 << 20));
            }
        gen_faults(r, p);
    }
    umf_result_t create(const Program &p, umf_memory_provider_handle_t *out,
                        const char *path, bool main_one) {
        umf_result_t r;
        if (kind <= FSDAX) {
            umf_file_memory_provider_params_handle_t pr = nullptr;
            r = umfFileMemoryProviderParamsCreate(&pr, path);
            if (r)
                return r;
            umfFileMemoryProviderParamsSetVisibility(
                pr, kind == FILE_PRIVATE ? UMF_MEM_MAP_PRIVATE
                                         : UMF_MEM_MAP_SHARED);
            r = umfMemoryProviderCreate(umfFileMemoryProviderOps(), pr, out);
            umfFileMemoryProviderParamsDestroy(pr);
            return r;
        }
        if (kind <= OS_SHM) {
            umf_os_memory_provider_params_handle_t pr = nullptr;
            r = umfOsMemoryProviderParamsCreate(&pr);
            if (r)
                return r;
            if (kind != OS_ANON)
                umfOsMemoryProviderParamsSetVisibility(pr, UMF_MEM_MAP_SHARED);
            if (kind == OS_SHM &&
                (r = umfOsMemoryProviderParamsSetShmName(pr, path + 1))) {
                umfOsMemoryProviderParamsDestroy(pr);
                return r;
            }
            r = umfMemoryProviderCreate(umfOsMemoryProviderOps(), pr, out);
            umfOsMemoryProviderParamsDestroy(pr);
            return r;
        }
        if (kind == FIXED) {
            size_t n = 4096 * (size_t)std::max<int64_t>(1, p.get("pages", 8)) +
                       (size_t)p.get("oddsize");
            size_t off = p.get("oddbase") ? 272 : 0;
            uintptr_t a = (uintptr_t)os::reserve(n + off, 4096) + off;
            umf_fixed_memory_provider_params_handle_t pr = nullptr;
            r = umfFixedMemoryProviderParamsCreate(&pr, (void *)a, n);
            if (r)
                return r;
            r = umfMemoryProviderCreate(umfFixedMemoryProviderOps(), pr, out);
            umfFixedMemoryProviderParamsDestroy(pr);
            if (main_one) {
                region = a;
                region_size = n;
            }
            return r;
        }
        size_t n = (2u << 20) * (size_t)std::max<int64_t>(1, p.get("pages", 8));
        umf_devdax_memory_provider_params_handle_t pr = nullptr;
        r = umfDevDaxMemoryProviderParamsCreate(&pr, path, n);
        if (r)
            return r;
        r = umfMemoryProviderCreate(umfDevDaxMemoryProviderOps(), pr, out);
        umfDevDaxMemoryProviderParamsDestroy(pr);
        if (main_one && !r) {
            for (auto &m : os::maps())
                if (m.second.owner == 1 && m.second.inode >= 0) {
                    region = m.second.addr;
                    region_size = n;
                }
        }
        return r;
    }
    void setup(const Program &p) override {
        meta_oracle(true);
        prog = p;
        kind = (int)(p.get("kind") % 8);
        if (kind <= FSDAX)
            os::set_map_sync(os::create_file("/mnt/f", 0, false), kind == FSDAX);
        if (kind == DEVDAX)
            os::create_file("/dev/dax0.0", 64ull << 21, true);
        base = baseline();
        log_setup(p);
        lib_init();
        if (kind == FSDAX || kind == DEVDAX)
            page = 2u << 20;
        slots.resize((size_t)std::max<int64_t>(1, p.get("slots", 8)));
        if (create(p, &h, kind == DEVDAX ? "/dev/dax0.0" : kind == OS_SHM ? "/shmA" : "/mnt/f", true))
            violate("create-failed", "creating the provider failed without faults");
        size_t ps = 0;
        if (umfMemoryProviderGetMinPageSize(h, nullptr, &ps) || ps != page)
            violate("page-size", "the provider reports a minimum page size of "
                                 "%zu, not %zu", ps, page);
        if (p.get("disk") && (kind == FILE_PRIVATE || kind == FILE_SHARED)) {
            os::set_disk_limit((size_t)p.get("disk"));
            disk = true;
        }
    }
    Slot *overlap(uintptr_t a, uintptr_t e, const Slot *self) {
        for (auto it = live.lower_bound(e); it != live.begin();) {
            --it;
            if (it->second != self)
                return it->second->p + it->second->n > a && it->second->p < e
                           ? it->second
                           : nullptr;
        }
        return nullptr;
    }
    // where the bytes of a range live
    std::vector<Seg> locate(uintptr_t p, size_t n, const char *what) {
        std::vector<Seg> v;
        uintptr_t a = p, e = p + n;
        auto &m = os::maps();
        while (a < e) {
            auto it = m.upper_bound(a);
            if (it == m.begin())
                violate("not-mapped", "%s: %#lx is not mapped", what, (unsigned long)a);
            --it;
            const Map &x = it->second;
            if (a >= x.addr + x.len)
                violate("not-mapped", "%s: byte %zu of [%#lx,+%zu) is not mapped",
                        what, (size_t)(a - p), (unsigned long)p, n);
            if ((x.prot & 3) != 3)
                violate("not-writable", "%s: mapping protection %d", what, x.prot);
            uintptr_t to = std::min<uintptr_t>(e, x.addr + x.len);
            if (x.inode >= 0) {
                size_t off = x.off + (a - x.addr);
                if (off + (to - a) > os::file_size(x.inode))
                    violate("beyond-file",
                            "%s: bytes of the allocation lie beyond the end of "
                            "the file (offset %zu + %zu > %zu)", what, off,
                            (size_t)(to - a), os::file_size(x.inode));
                if (!v.empty() && v.back().inode == x.inode &&
                    v.back().off + v.back().len == off)
                    v.back().len += to - a;
                else
                    v.push_back({x.inode, off, to - a});
            } else if (kind != OS_ANON && kind != FIXED)
                violate("not-file", "%s: memory is not backed by the file", what);
            a = to;
        }
        return v;
    }
    void check_place(Slot &s, const char *what) {
        if (Slot *o = overlap(s.p, s.p + s.n, &s))
            violate("overlap", "%s: block [%#lx,+%zu) overlaps live block "
                               "[%#lx,+%zu)", what, (unsigned long)s.p, s.n,
                    (unsigned long)o->p, o->n);
        if (region && (s.p < region || s.p + s.n > region + region_size))
            violate("outside-region", "%s: block [%#lx,+%zu) is not inside the "
                                      "region [%#lx,+%zu)", what,
                    (unsigned long)s.p, s.n, (unsigned long)region, region_size);
        s.segs = locate(s.p, s.n, what);
        for (auto &o : slots)
            if (&o != &s && o.n && live.count(o.p) && live[o.p] == &o)
                for (auto &x : o.segs)
                    for (auto &y : s.segs)
                        if (x.inode == y.inode && x.off < y.off + y.len &&
                            y.off < x.off + x.len)
                            violate("file-overlap",
                                    "%s: block [%#lx,+%zu) uses file range "
                                    "[%#zx,+%#zx), which belongs to live block "
                                    "[%#lx,+%zu) (file range [%#zx,+%#zx))",
                                    what, (unsigned long)s.p, s.n, y.off, y.len,
                                    (unsigned long)o.p, o.n, x.off, x.len);
    }
    void check_content(Slot &s, const char *when) {
        long o = verify((void *)s.p, s.n, s.tag);
        if (o >= 0)
            violate("content-lost", "%s: byte %ld of [%#lx,+%zu) is not what "
                                    "its owner wrote", when, o,
                    (unsigned long)s.p, s.n);
        // what is in the file?
        if (kind == FILE_SHARED || kind == FSDAX || kind == OS_MEMFD ||
            kind == OS_SHM || kind == DEVDAX)
            for (auto &g : s.segs) {
                uint8_t a[16];
                size_t l = std::min<size_t>(g.len, 16);
                if (!os::file_read(g.inode, g.off, a, l) ||
                    (&g == &s.segs[0] && memcmp(a, (void *)s.p, l)))
                    violate("file-content", "%s: the file does not hold the "
                                            "bytes of [%#lx,+%zu)", when,
                            (unsigned long)s.p, s.n);
            }
    }
    void take(Slot &s, uintptr_t p, size_t n, const char *what) {
        s.p = p;
        s.n = n;
        check_place(s, what);
        s.tag = ++tags;
        fill((void *)p, n, s.tag);
        live[p] = &s;
        s.st = S_LIVE;
    }
    struct Guard {
        Ranges &c;
        uint64_t at, f0;
        bool first;
        explicit Guard(Ranges &k) : c(k) {
            first = c.inflight++ == 0;
            at = ++c.started;
            f0 = faults_fired();
        }
        ~Guard() { c.inflight--; }
        bool alone() { return first && c.started == at; }
        bool clean() { return alone() && faults_fired() == f0; }
    };
    bool has_ipc() {
        return kind == FILE_SHARED || kind == FSDAX || kind == OS_MEMFD ||
               kind == OS_SHM || kind == DEVDAX;
    }
    bool sane(size_t n, size_t al) {
        return n && n < (1u << 30) && al <= (1u << 24);
    }
    // free ranges of a fixed region
    uintptr_t gap(size_t n, size_t al) {
        if (!region || !n || n > region_size)
            return 0;
        uintptr_t at = region;
        auto fits = [&](uintptr_t a, uintptr_t e) {
            uintptr_t b = (a + al - 1) / al * al;
            // some strategies want room for the alignment
            return b >= a && e > a && e - a >= n + al;
        };
        for (auto &kv : live) {
            if (fits(at, kv.first))
                return at;
            at = kv.first + kv.second->n;
        }
        return fits(at, region + region_size) ? at : 0;
    }
    virtual void counted(ssize_t, bool) {} // C18
    void exec(const Op &op) override {
        size_t k = slots.size();
        Slot &s = slots[(size_t)op.a[0] % k], &s2 = slots[(size_t)op.a[1] % k];
        size_t n = (size_t)op.a[2];
        int code = (int)(op.code % NOPS);
        if (code == ALLOC) {
            if (s.st != S_FREE)
                return;
            size_t al = (size_t)op.a[3];
            size_t eff = al < page ? page : al;
            s.st = S_BUSY;
            Guard g(*this);
            uintptr_t have = gap(n, eff);
            void *ptr = (void *)(uintptr_t)0xbad;
            if (n < (1ull << 40))
                counted((ssize_t)n, true);
            umf_result_t r = umfMemoryProviderAlloc(h, n, al, &ptr);
            if (r) {
                s.st = S_FREE;
                if (n < (1ull << 40))
                    counted(-(ssize_t)n, false);
                if (!valid_result(r))
                    violate("bad-result", "alloc returned %d", (int)r);
                if (have && g.clean())
                    violate("capacity-lost",
                            "allocation of %zu bytes aligned to %zu failed "
                            "(%s), though the free range at %#lx is big enough",
                            n, eff, res_name(r), (unsigned long)have);
                if (!region && sane(n, al) && !disk && g.clean())
                    violate("alloc-failed", "allocation of %zu bytes aligned "
                                            "to %zu failed (%s) without any "
                                            "fault", n, al, res_name(r));
                probe("allocation failed");
                return;
            }
            uintptr_t p = (uintptr_t)ptr;
            if (!p || p % eff)
                violate("misaligned", "got %p for alignment %zu", ptr, eff);
            if (n > (1ull << 40))
                violate("too-small", "got %p for %zu bytes", ptr, n);
            take(s, p, n, "alloc");
            if (al > page)
                probe("aligned allocation");
        } else if (code == FREE) {
            if (s.st != S_LIVE)
                return;
            check_content(s, "before free");
            s.st = S_BUSY;
            live.erase(s.p);
            Guard g(*this);
            counted(-(ssize_t)s.n, true);
            umf_result_t r = umfMemoryProviderFree(h, (void *)s.p, s.n);
            if (r) {
                if (g.clean() || !faults_fired_kind(F_MUNMAP))
                    violate("free-failed", "free of [%#lx,+%zu) failed (%s)",
                            (unsigned long)s.p, s.n, res_name(r));
                counted((ssize_t)s.n, false);
                live[s.p] = &s;
                check_place(s, "after a failed free");
                s.st = S_LIVE;
                probe("free failed");
                return;
            }
            s.n = 0;
            s.segs.clear();
            s.st = S_FREE;
        } else if (code == SPLIT) {
            if (s.st != S_LIVE || &s == &s2 || s2.st != S_FREE || s.n < 2)
                return;
            size_t first = (size_t)op.a[4] % (s.n - 1) + 1;
            if (op.a[3] % 3 || (kind >= OS_ANON && kind <= OS_SHM))
                first = (first / 4096 + 1) * 4096;
            if (first >= s.n)
                return;
            check_content(s, "before split");
            s.st = s2.st = S_BUSY;
            Guard g(*this);
            umf_result_t r =
                umfMemoryProviderAllocationSplit(h, (void *)s.p, s.n, first);
            check_content(s, "after split");
            if (r) {
                if (g.clean())
                    violate("split-failed", "split failed (%s) without fault",
                            res_name(r));
                s.st = S_LIVE;
                s2.st = S_FREE;
                probe("split failed");
                return;
            }
            uintptr_t p = s.p;
            size_t tot = s.n;
            live.erase(p);
            take(s, p, first, "split");
            take(s2, p + first, tot - first, "split");
            probe("split");
        } else if (code == MERGE) {
            if (s.st != S_LIVE)
                return;
            auto it = live.find(s.p + s.n);
            if (it == live.end() || it->second->st != S_LIVE)
                return;
            Slot &hi = *it->second;
            check_content(s, "before merge");
            check_content(hi, "before merge");
            s.st = hi.st = S_BUSY;
            bool contig = s.segs.empty() ||
                          s.segs.back().off + s.segs.back().len == hi.segs[0].off;
            Guard g(*this);
            umf_result_t r = umfMemoryProviderAllocationMerge(
                h, (void *)s.p, (void *)hi.p, s.n + hi.n);
            check_content(s, "after merge");
            check_content(hi, "after merge");
            if (r) {
                if (g.clean() && contig)
                    violate("merge-failed", "merge failed (%s) without fault",
                            res_name(r));
                s.st = hi.st = S_LIVE;
                probe("merge failed");
                return;
            }
            live.erase(hi.p);
            live.erase(s.p);
            size_t tot = s.n + hi.n;
            hi.st = S_FREE;
            hi.n = 0;
            take(s, s.p, tot, "merge");
            probe("merge");
        } else if (code == IPC) {
            if (s.st != S_LIVE || !has_ipc())
                return;
            s.st = S_BUSY;
            ipc(s);
            s.st = S_LIVE;
        } else if (code == PURGE) {
            if (s.st != S_LIVE)
                return;
            s.st = S_BUSY;
            umf_result_t r;
            {
                r = op.a[4] & 1 ? umfMemoryProviderPurgeLazy(h, (void *)s.p, s.n)
                                : UMF_RESULT_SUCCESS;
            }
            if (!valid_result(r))
                violate("bad-result", "purge returned %d", (int)r);
            if (!r) { // contents may be gone
                s.tag = ++tags;
                fill((void *)s.p, s.n, s.tag);
            } else
                check_content(s, "after a failed purge");
            s.st = S_LIVE;
        } else if (code == CREATE) {
            char path[32];
            snprintf(path, sizeof path, kind == OS_SHM ? "/shm%u" : kind == DEVDAX ? "/dev/dax1.%u" : "/mnt/x%u",
                     op.id);
            const char *pt = path;
            if (kind == DEVDAX)
                os::create_file(path, 64ull << 21, true);
            if (kind <= FSDAX)
                os::set_map_sync(os::create_file(path, 0, false), kind == FSDAX);
            umf_memory_provider_handle_t o =
                (umf_memory_provider_handle_t)(uintptr_t)0xbad;
            uint64_t f0 = faults_fired();
            umf_result_t r = create(prog, &o, pt, false);
            if (r) {
                if (!valid_result(r))
                    violate("bad-result", "creation returned %d", (int)r);
                if (faults_fired() == f0 && !disk)
                    violate("create-failed", "creation failed (%s) without "
                                             "any fault", res_name(r));
                probe("creation failed");
                return;
            }
            if (o == (umf_memory_provider_handle_t)(uintptr_t)0xbad || !o)
                violate("no-object", "creation succeeded without an object");
            void *q = nullptr;
            if (!umfMemoryProviderAlloc(o, 4096, 0, &q)) {
                fill(q, 4096, 77);
                if (verify(q, 4096, 77) >= 0)
                    violate("content-lost", "in a second provider");
                umfMemoryProviderFree(o, q, 4096);
            }
            umfMemoryProviderDestroy(o);
        } else
            stat_op(code);
    }
    virtual void stat_op(int) {}
    virtual void stat_final() {}
    void ipc(Slot &s) {
        Guard g(*this);
        size_t sz = 0;
        umf_result_t r = umfMemoryProviderGetIPCHandleSize(h, &sz);
        if (r || sz > 16384)
            violate("ipc-size", "GetIPCHandleSize: %s, %zu", res_name(r), sz);
        std::vector<uint64_t> buf(sz / 8 + 1);
        r = umfMemoryProviderGetIPCHandle(h, (void *)s.p, s.n, buf.data());
        if (r) {
            if (faults_fired_kind(F_MUNMAP) &&
                (faults_fired_kind(F_META) || faults_fired_kind(F_BAMMAP))) {
                probe("no IPC handle after a failed free");
                return;
            }
            violate("ipc-get", "GetIPCHandle of a live allocation [%#lx,+%zu) "
                               "failed (%s)", (unsigned long)s.p, s.n,
                    res_name(r));
        }
        void *q = nullptr;
        r = umfMemoryProviderOpenIPCHandle(h, buf.data(), &q);
        if (r) {
            // an address inside a page cannot be mapped
            if (g.clean() && s.p % 4096 == 0 && !disk)
                violate("ipc-open", "opening the handle of [%#lx,+%zu) failed "
                                    "(%s) without any fault",
                        (unsigned long)s.p, s.n, res_name(r));
            if (!valid_result(r))
                violate("bad-result", "open returned %d", (int)r);
            probe("IPC open failed");
        } else {
            std::vector<Seg> v = locate((uintptr_t)q, s.n, "opened handle");
            for (size_t i = 0; i < v.size(); i++)
                if (i >= s.segs.size() || v[i].inode != s.segs[i].inode ||
                    v[i].off != s.segs[i].off || v[i].len != s.segs[i].len)
                    violate("ipc-place",
                            "the handle of [%#lx,+%zu) maps file range "
                            "[%#zx,+%#zx), the allocation lies at [%#zx,+%#zx)",
                            (unsigned long)s.p, s.n, v[i].off, v[i].len,
                            i < s.segs.size() ? s.segs[i].off : 0,
                            i < s.segs.size() ? s.segs[i].len : 0);
            long o = verify(q, s.n, s.tag);
            if (o >= 0)
                violate("ipc-content", "byte %ld of [%#lx,+%zu) reads "
                                       "differently through its IPC handle", o,
                        (unsigned long)s.p, s.n);
            s.tag = ++tags;
            fill(q, s.n, s.tag);
            check_content(s, "after writing through the IPC handle");
            r = umfMemoryProviderCloseIPCHandle(h, q, s.n);
            if (r && g.clean())
                violate("ipc-close", "closing failed (%s)", res_name(r));
            probe("IPC opened");
        }
        r = umfMemoryProviderPutIPCHandle(h, buf.data());
        if (r)
            violate("ipc-put", "PutIPCHandle failed (%s)", res_name(r));
        check_content(s, "after IPC");
    }
    void finish() override {
        for (auto &s : slots)
            if (s.st == S_LIVE) {
                check_content(s, "at the end");
                check_place(s, "at the end");
            }
        stat_final();
        os::set_disk_limit(SIZE_MAX);
        disk = false;
        // works again once the faults have stopped
        if (!region) {
            Op o;
            Slot x;
            void *ptr = nullptr;
            umf_result_t r = umfMemoryProviderAlloc(h, 3 * page, 2 * page, &ptr);
            if (r)
                violate("alloc-failed", "allocation still fails (%s) after "
                                        "the faults stopped", res_name(r));
            slots.push_back(x);
            take(slots.back(), (uintptr_t)ptr, 3 * page, "final alloc");
        }
        if (has_ipc())
            for (auto &s : slots)
                if (s.st == S_LIVE)
                    ipc(s);
        for (auto &s : slots)
            if (s.st == S_LIVE) {
                live.erase(s.p);
                s.st = S_FREE;
                check_content(s, "before the final free");
                umf_result_t r = umfMemoryProviderFree(h, (void *)s.p, s.n);
                if (r)
                    violate("free-failed", "free without faults failed (%s)",
                            res_name(r));
            }
        if (region) {
            void *ptr = nullptr;
            bool whole = region % page == 0;
            size_t n = whole ? region_size
                             : region_size - std::min(region_size, page);
            umf_result_t r =
                n ? umfMemoryProviderAlloc(h, n, 0, &ptr) : UMF_RESULT_SUCCESS;
            if (r)
                violate("capacity-lost", "after everything was freed, %zu of "
                                         "%zu bytes cannot be allocated (%s)",
                        n, region_size, res_name(r));
            if (n)
                umfMemoryProviderFree(h, ptr, n);
        }
        umfMemoryProviderDestroy(h);
        umfTearDown();
        if (faults_fired_kind(F_MUNMAP)) // what an undo could not unmap stays
            base.maps1 = os::mapped_bytes(1);
        check_no_leak(base, "everything");
        if (kind == OS_SHM && os::inode_of_path("shm:shmA") >= 0)
            violate("leak:file", "the named shared memory still exists");
        extra_final();
    }
    virtual void extra_final() {}
};
struct File : Ranges {
    int pick_kind(Rng &r) override {
        return (int)r.pick(std::vector<int>{FILE_SHARED, FILE_SHARED, FILE_SHARED,
                                            FILE_PRIVATE, FSDAX});
    }
};
struct Os : Ranges {
    int pick_kind(Rng &r) override { return (int)r.range(OS_ANON, OS_SHM); }
    void gen_faults(Rng &r, Program &p) override {
        pick_faults(r, p,
                    {F_META, F_META, F_BAMMAP, F_MMAP, F_MMAP_FILE, F_OPEN,
                     F_FTRUNC, F_CLOSE, F_PIDFD, F_MUTEXINIT, F_TOPOLOGY},
                    75);
    }
};
struct Fixed : Ranges {
    int pick_kind(Rng &) override { return FIXED; }
    void gen_faults(Rng &r, Program &p) override {
        pick_faults(r, p, {F_META, F_BAMMAP, F_MUTEXINIT}, 60);
    }
};
struct DevDax : Ranges {
    int pick_kind(Rng &) override { return DEVDAX; }
    void gen_faults(Rng &r, Program &p) override {
        pick_faults(r, p, {F_META, F_BAMMAP, F_MUTEXINIT, F_MMAP_FILE, F_OPEN,
                           F_STAT}, 60);
    }
};
// C18. Every allocation is counted from some moment between its start and its
// end, every free likewise. lo/up bound the bytes that can be counted at each
// moment; the peak that is read must lie between the maxima of those bounds
// since the last reset.
struct Stats : Ranges {
    struct Ev {
        uint64_t t;
        size_t lo, up;
    };
    std::vector<Ev> log;
    size_t lo = 0, up = 0;
    std::map<int, ssize_t> pend; // per task: operation in flight
    struct Reset {
        uint64_t start, end;
    };
    std::vector<Reset> resets;
    int pick_kind(Rng &r) override { return (int)r.range(OS_ANON, OS_SHM); }
    void gen_faults(Rng &r, Program &p) override {
        pick_faults(r, p, {F_META, F_BAMMAP, F_MMAP, F_MMAP_FILE, F_MUNMAP}, 50);
        p.cfg["oddsize"] = 0;
        for (auto &o : p.ops) {
            if (o.code != ALLOC && o.code != FREE && o.code != STAT &&
                o.code != PEAK && o.code != RESET)
                o.code = r.chance(1, 2) ? STAT : r.chance(2, 3) ? PEAK : RESET;
            if (r.chance(1, 6))
                o.code = r.chance(1, 2) ? PEAK : RESET;
            o.a[3] = 0; // trimming must not meet refused unmaps
        }
    }
    void mark() { log.push_back({now(), lo, up}); }
    // begin: an operation that changes the count by d starts; !begin with the
    // opposite sign: it failed
    void counted(ssize_t d, bool begin) override {
        if (begin) {
            if (d > 0)
                up += (size_t)d;
            if (d < 0)
                lo -= (size_t)-d;
            pend[task_id()] = d;
        } else {
            if (d < 0)
                up -= (size_t)-d;
            if (d > 0)
                lo += (size_t)d;
            pend[task_id()] = 0;
        }
        mark();
    }
    void exec(const Op &op) override {
        pend[task_id()] = 0;
        Ranges::exec(op);
        ssize_t d = pend[task_id()];
        pend[task_id()] = 0;
        if (d > 0) {
            
                lo += (size_t)d;
            mark();
        } else if (d < 0) {
            up -= (size_t)-d;
            mark();
        }
    }
    void setup(const Program &p) override {
        Ranges::setup(p);
        log.push_back({now(), 0, 0});
        resets.push_back({now(), now()});
    }
    size_t get(const char *what, bool peak) {
        size_t v = 0xbad;
        umf_result_t r = UMF_RESULT_SUCCESS;
        {
            r = umfCtlGet(peak ? "umf.provider.by_handle.stats.peak_memory"
                               : "umf.provider.by_handle.stats.allocated_memory",
                          h, &v);
        }
        if (r) {
            if (!faults_fired())
                violate("ctl-failed", "%s: reading a statistic failed (%s)",
                        what, res_name(r));
            return SIZE_MAX;
        }
        return v;
    }
    void check_alloc(size_t v, uint64_t t0, const char *what) {
        if (v == SIZE_MAX)
            return;
        size_t l = SIZE_MAX, u = 0;
        window(t0, l, u);
        if (v < l || v > u)
            violate("allocated-wrong", "%s: allocated_memory is %zu, between "
                                       "%zu and %zu bytes are allocated", what,
                    v, l, u);
    }
    // smallest lo and largest up since t0
    void window(uint64_t t0, size_t &l, size_t &u) {
        for (size_t i = log.size(); i-- > 0;) {
            l = std::min(l, log[i].lo);
            u = std::max(u, log[i].up);
            if (log[i].t <= t0)
                break;
        }
    }
    void check_peak(size_t v, uint64_t t0, const char *what) {
        if (v == SIZE_MAX)
            return;
        // the last reset that had ended before the read bounds it from above
        uint64_t ust = 0, lst = 0;
        bool running = false;
        uint64_t rstart = UINT64_MAX;
        for (auto &r : resets) {
            if (r.end && r.end <= t0)
                ust = std::max(ust, r.start);
            if (!r.end || r.end > t0) {
                running = true;
                rstart = std::min(rstart, r.start);
            }
            if (r.end)
                lst = std::max(lst, r.end);
        }
        // concurrent resets that ended before: any of them can be the last
        for (auto &r : resets)
            for (auto &q : resets)
                if (&r != &q && r.end && q.end && r.end <= t0 && q.end <= t0 &&
                    r.start == ust && q.end > r.start)
                    ust = std::min(ust, q.start);
        size_t l = SIZE_MAX, u = 0, dummy = 0;
        window(ust, l, u);
        l = SIZE_MAX;
        if (running) {
            window(std::min(rstart, t0), l, dummy);
        } else {
            l = 0;
            for (size_t i = log.size(); i-- > 0;) {
                if (log[i].t > t0 && i)
                    continue;
                l = std::max(l, log[i].lo);
                if (log[i].t <= lst)
                    break;
            }
        }
        if (v < l)
            violate("peak-too-small", "%s: peak_memory is %zu although at "
                                      "least %zu bytes were allocated since "
                                      "the last reset", what, v, l);
        if (v > u)
            violate("peak-too-big", "%s: peak_memory is %zu, at most %zu bytes "
                                    "were allocated since the last reset",
                    what, v, u);
    }
    void stat_op(int code) override {
        Guard g(*this);
        uint64_t t0 = now();
        if (code == STAT)
            check_alloc(get("running", false), t0, g.alone() ? "alone" : "running");
        else if (code == PEAK) {
            check_peak(get("running", true), t0, "running");
        } else {
            size_t id = resets.size();
            resets.push_back({now(), 0});
            umf_result_t r =
                umfCtlExec("umf.provider.by_handle.stats.reset", h, &id);
            if (r) { // may have failed before it reset anything
                if (!faults_fired())
                    violate("ctl-failed", "reset failed (%s)", res_name(r));
                resets[id].start = resets[id].end = 0;
                probe("reset failed");
            } else {
                resets[id].end = now();
                probe("reset");
            }
        }
    }
    void stat_final() override {
        size_t sum = 0;
        for (auto &s : slots)
            if (s.st == S_LIVE)
                sum += s.n;
        if (lo != sum || up != sum)
            harness_error("count: %zu %zu %zu", lo, up, sum);
        size_t a = get("final", false), pk = get("final", true);
        if (a != sum)
            violate("allocated-wrong", "nothing is running: allocated_memory "
                                       "is %zu, %zu bytes are allocated", a, sum);
        if (pk < a)
            violate("peak-too-small", "nothing is running: peak_memory %zu < "
                                      "allocated_memory %zu", pk, a);
        check_peak(pk, now(), "nothing is running");
    }
};
SIM_SCENARIO("C18.stats", Stats)
SIM_SCENARIO("C08.file", File)
SIM_SCENARIO("C09.os", Os)
SIM_SCENARIO("C16.fixed", Fixed)
SIM_SCENARIO("C16.devdax", DevDax)
} // namespace
