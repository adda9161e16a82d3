// C12: memory shared between processes. Every process is a copy of the library
// of its own (own globals, descriptors, mappings) run by one task.
#include "common.h"
#include <algorithm>
#include <deque>
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>
#include <umf/ipc.h>
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_proxy.h>
#include <umf/providers/provider_devdax_memory.h>
#include <umf/providers/provider_file_memory.h>
#include <umf/providers/provider_os_memory.h>
extern "C" {
void *__real_dlopen(const char *, int);
void *__real_dlsym(void *, const char *);
long __real_syscall(long, ...);
int __real_close(int);
long __wrap_syscall(long, ...);
int __wrap_close(int);
}
using namespace simx;
namespace {
#define API(X)                                                                           \
    X(umfInit) X(umfTearDown) X(umfMemoryProviderCreate) X(umfMemoryProviderDestroy)        \
    X(umfMemoryProviderAlloc) X(umfMemoryProviderFree) X(umfMemoryProviderAllocationSplit) \
    X(umfMemoryProviderAllocationMerge) X(umfMemoryProviderGetIPCHandleSize)               \
    X(umfMemoryProviderGetIPCHandle) X(umfMemoryProviderPutIPCHandle)                      \
    X(umfMemoryProviderOpenIPCHandle) X(umfMemoryProviderCloseIPCHandle)                   \
    X(umfOsMemoryProviderOps) X(umfOsMemoryProviderParamsCreate)                           \
    X(umfOsMemoryProviderParamsDestroy) X(umfOsMemoryProviderParamsSetVisibility)          \
    X(umfOsMemoryProviderParamsSetShmName) X(umfFileMemoryProviderOps)                     \
    X(umfFileMemoryProviderParamsCreate) X(umfFileMemoryProviderParamsDestroy)             \
    X(umfFileMemoryProviderParamsSetVisibility) X(umfDevDaxMemoryProviderOps)              \
    X(umfDevDaxMemoryProviderParamsCreate) X(umfDevDaxMemoryProviderParamsDestroy)         \
    X(umfProxyPoolOps) X(umfDisjointPoolOps) X(umfDisjointPoolParamsCreate)                \
    X(umfDisjointPoolParamsDestroy) X(umfDisjointPoolParamsSetSlabMinSize)                 \
    X(umfDisjointPoolParamsSetMaxPoolableSize) X(umfPoolCreate) X(umfPoolDestroy)          \
    X(umfPoolMalloc) X(umfPoolAlignedMalloc) X(umfPoolFree) X(umfGetIPCHandle)             \
    X(umfPutIPCHandle) X(umfPoolGetIPCHandler) X(umfOpenIPCHandle) X(umfCloseIPCHandle)
struct Image {
#define X(f) decltype(&::f) f;
    API(X)
#undef X
};
std::vector<Image> images;
const int N_IMAGES = 9;
void load_images() {
    if (images.size())
        return;
    char exe[4096];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 64);
    if (n <= 0)
        return;
    exe[n] = 0;
    std::string so = std::string(exe).substr(0, std::string(exe).rfind('/')) + "/libumfsim.so";
    FILE *f = fopen(so.c_str(), "rb");
    if (!f)
        return;
    std::string data;
    char buf[65536];
    while ((n = (ssize_t)fread(buf, 1, sizeof buf, f)) > 0)
        data.append(buf, (size_t)n);
    fclose(f);
    for (int i = 0; i < N_IMAGES; i++) {
        int fd = (int)__real_syscall(319, "umf", 0u); // its own inode: its own copy
        if (fd < 0 || write(fd, data.data(), data.size()) != (ssize_t)data.size())
            return;
        std::string path = "/proc/self/fd/" + std::to_string(fd);
        void *h = __real_dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) {
            fprintf(stderr, "umfsim: %s\n", dlerror());
            return;
        }
        Image im;
#define X(f)                                                                                \
    im.f = (decltype(im.f))__real_dlsym(h, #f);                                             \
    if (!im.f) {                                                                            \
        fprintf(stderr, "umfsim: no %s\n", #f);                                             \
        return;                                                                             \
    }
        API(X)
#undef X
        struct link_map *lm = (struct link_map *)h;
        Dl_info di;
        uintptr_t lo = (uintptr_t)lm->l_addr, hi = lo;
        if (dladdr((void *)im.umfInit, &di))
            lo = (uintptr_t)di.dli_fbase;
        auto *eh = (ElfW(Ehdr) *)lo;
        auto *ph = (ElfW(Phdr) *)(lo + eh->e_phoff);
        for (int k = 0; k < eh->e_phnum; k++)
            if (ph[k].p_type == PT_LOAD)
                hi = std::max<uintptr_t>(hi, lo + ph[k].p_vaddr + ph[k].p_memsz);
        register_image(lo, hi);
        images.push_back(im);
    }
}
__attribute__((constructor)) void want_images() { at_zygote(load_images); }

enum { ALLOC, FREE, EXPORT, PUT, OPEN, CLOSE, WRITE, CHECK, SPLIT, MERGE, EXIT, NOPS };
enum { MEMFD, SHM, FILE_, FSDAX, DEVDAX, NKINDS };
enum { PROXY, DISJOINT, DIRECT, NPOOLS };
const size_t MB2 = 2 << 20;

struct Alloc {
    int proc = 0, gen = 0, pool = 0;
    char *ptr = nullptr;
    size_t size = 0;
    bool live = false;
    std::vector<uint8_t> want; // the bytes everybody has to see
};
struct Msg {
    int proc = 0, gen = 0, pool = 0;
    Alloc *a = nullptr;
    size_t off = 0, len = 0;
    std::vector<char> data;
    umf_ipc_handle_t h = nullptr; // the producer's
    void *direct = nullptr;       // provider level handle
    bool valid = false, put = false;
};
struct View {
    Msg *m = nullptr;
    int pool = 0;
    char *ptr = nullptr;
    size_t len = 0;
};
struct PoolState {
    umf_memory_provider_handle_t prov = nullptr;
    umf_memory_pool_handle_t pool = nullptr;
};
struct Process {
    bool alive = false;
    int gen = 0, image = -1;
    Image *api = nullptr;
    std::vector<PoolState> pools;
    std::vector<Alloc *> slots;
    std::deque<View> views;
    std::vector<int> fds;
};
struct Procs : Scenario {
    std::deque<Alloc> allocs;
    std::deque<Msg> msgs;
    Process procs[8];
    int next_image = 0, nprocs = 0, npools = 1, nslots = 4;
    size_t pad = 3;
    int kind[4] = {}, pool_kind[4] = {};
    uint64_t tags = 0;

    const char *op_name(uint32_t c) override {
        static const char *n[] = {"alloc", "free",  "export", "put",   "open", "close",
                                  "write", "check", "split",  "merge", "exit"};
        return n[c % NOPS];
    }
    const char *real_parts() override {
        return "one copy of the library per process: OS, file and device DAX providers, proxy "
               "and disjoint pools, IPC cache, tracker, base allocator";
    }
    const char *stub_parts() override {
        return "processes, descriptors, pidfd, files, shared memory and DAX device";
    }
    void generate(Rng &r, Program &p, bool thorough) override {
        int np = (int)r.range(2, 4);
        p.cfg["procs"] = np;
        int pools = r.chance(1, 4) ? 2 : 1;
        p.cfg["pools"] = pools;
        p.cfg["kind0"] = (int64_t)r.below(NKINDS);
        p.cfg["kind1"] = (int64_t)r.below(NKINDS);
        p.cfg["pool0"] = (int64_t)r.below(NPOOLS);
        p.cfg["pool1"] = (int64_t)r.below(NPOOLS);
        p.cfg["slots"] = r.range(1, 6);
        p.cfg["cache"] = r.chance(1, 3) ? r.range(1, 3) : 0;
        p.cfg["pad"] = r.chance(1, 2) ? r.range(1, 20) : r.range(1, 4000);
        p.cfg["secret"] = (int64_t)r.below(2);
        static const int pol[] = {0, 1, 2, 3};
        p.cfg["os.policy"] = pol[r.below(4)];
        bool crashes = r.chance(1, 4);
        // every process has its own address space: the same address can mean
        // something else in each, which takes turns here
        bool same = r.chance(1, 3);
        int64_t the_size = pick_size(r);
        if (same) {
            p.cfg["slots"] = r.range(1, 2);
            p.cfg["os.policy"] = r.chance(1, 2) ? 1 : 3;
            p.cfg["cache"] = 0;
        }
        int k = (int)r.range(6, thorough ? 45 : 25);
        for (int t = 1; t <= np; t++)
            for (int i = 0; i < k; i++) {
                unsigned x = (unsigned)r.below(100);
                int c = x < 22   ? ALLOC
                        : x < 28 ? FREE
                        : x < 46 ? EXPORT
                        : x < 49 ? PUT
                        : x < 70 ? OPEN
                        : x < 77 ? CLOSE
                        : x < 88 ? WRITE
                        : x < 92 ? CHECK
                        : x < 95 ? SPLIT
                        : x < 97 ? MERGE
                        : x < 98 && r.chance(1, 3) ? EXIT
                                                   : OPEN;
                if (same && r.chance(1, 6))
                    c = FREE;
                p.add((uint32_t)t, (uint32_t)c, (int64_t)r.below(64),
                      same ? the_size : pick_size(r),
                      (int64_t)r.below(24), (int64_t)r.below(1 << 20),
                      (int64_t)r.below(64),
                      crashes && r.chance(1, 25) ? r.range(1, 2500) : 0);
            }
        pick_faults(r, p, {F_MMAP_FILE, F_OPEN, F_PIDFD, F_FTRUNC, F_FALLOC, F_BAMMAP, F_CLOSE},
                    50);
    }
    static int64_t pick_size(Rng &r) {
        switch (r.below(8)) {
        case 0: return (int64_t)(1 + r.below(64));
        case 1: return (int64_t)(1 + r.below(4096));
        case 2: return 4096 * (int64_t)(1 + r.below(8));
        case 3: return 1 + (int64_t)r.below(40000);
        case 4: return 4096 * (int64_t)(1 + r.below(64)) + (int64_t)r.below(3) - 1;
        case 5: return (int64_t)(MB2 * (1 + r.below(2)));
        case 6: return (int64_t)(MB2 + r.below(1 << 20));
        default: return 1 + (int64_t)r.below(300000);
        }
    }
    void setup(const Program &p) override {
        if (images.size() != (size_t)N_IMAGES)
            harness_error("the library images could not be loaded");
        os::separate_processes(true);
        nprocs = (int)std::min<int64_t>(6, std::max<int64_t>(1, p.get("procs", 2)));
        npools = (int)std::min<int64_t>(2, std::max<int64_t>(1, p.get("pools", 1)));
        pad = (size_t)std::min<int64_t>(4000, std::max<int64_t>(1, p.get("pad", 3)));
        nslots = (int)std::min<int64_t>(16, std::max<int64_t>(1, p.get("slots", 4)));
        for (int i = 0; i < 2; i++) {
            kind[i] = (int)((uint64_t)p.get(i ? "kind1" : "kind0") % NKINDS);
            pool_kind[i] = (int)((uint64_t)p.get(i ? "pool1" : "pool0") % NPOOLS);
        }
        if (p.get("cache"))
            os::set_env("UMF_MAX_OPENED_IPC_HANDLES",
                        std::to_string(p.get("cache")).c_str());
        os::set_memfd_secret(p.get("secret"));
        for (int t = 1; t <= nprocs; t++)
            for (int i = 0; i < npools; i++) {
                if (kind[i] == DEVDAX)
                    os::create_file(path(t, i).c_str(), 48 * MB2, true);
                if (kind[i] == FSDAX)
                    os::set_map_sync(os::create_file(path(t, i).c_str(), 0, false), true);
            }
    }
    std::string path(int proc, int pool) {
        char b[64];
        if (kind[pool] == DEVDAX) {
            snprintf(b, sizeof b, "/dev/dax%d.%d", proc, pool);
            return b;
        }
        snprintf(b, sizeof b, "%d.%d", proc, pool);
        return "/tmp/" + std::string(pad, 'd') + b;
    }
    // ------------------------------------------------------------- processes
    bool start(int me) {
        Process &P = procs[me];
        if (P.alive)
            return true;
        if (P.image < 0) {
            if (next_image >= N_IMAGES)
                return false;
            P.image = next_image++;
        }
        NoFault nf; // refused creations: C19
        // every process has descriptors of its own
        for (uint64_t n = addr_rand() % 5; n; n--)
            P.fds.push_back((int)__wrap_syscall(319, "other", 0u));
        P.api = &images[(size_t)P.image];
        Image &A = *P.api;
        if (A.umfInit())
            violate("start", "umfInit of process %d failed", me);
        P.pools.assign((size_t)npools, PoolState());
        P.slots.assign((size_t)(nslots * npools), nullptr);
        P.views.clear();
        for (int i = 0; i < npools; i++) {
            PoolState &s = P.pools[(size_t)i];
            umf_result_t r = UMF_RESULT_ERROR_UNKNOWN;
            if (kind[i] == MEMFD || kind[i] == SHM) {
                umf_os_memory_provider_params_handle_t q = nullptr;
                A.umfOsMemoryProviderParamsCreate(&q);
                A.umfOsMemoryProviderParamsSetVisibility(q, UMF_MEM_MAP_SHARED);
                if (kind[i] == SHM)
                    A.umfOsMemoryProviderParamsSetShmName(
                        q, (std::string(std::min<size_t>(pad, 200), 's') + std::to_string(me) +
                            "_" + std::to_string(i)).c_str());
                r = A.umfMemoryProviderCreate(A.umfOsMemoryProviderOps(), q, &s.prov);
                A.umfOsMemoryProviderParamsDestroy(q);
            } else if (kind[i] == DEVDAX) {
                umf_devdax_memory_provider_params_handle_t q = nullptr;
                A.umfDevDaxMemoryProviderParamsCreate(&q, path(me, i).c_str(), 48 * MB2);
                r = A.umfMemoryProviderCreate(A.umfDevDaxMemoryProviderOps(), q, &s.prov);
                A.umfDevDaxMemoryProviderParamsDestroy(q);
            } else {
                umf_file_memory_provider_params_handle_t q = nullptr;
                A.umfFileMemoryProviderParamsCreate(&q, path(me, i).c_str());
                A.umfFileMemoryProviderParamsSetVisibility(q, UMF_MEM_MAP_SHARED);
                r = A.umfMemoryProviderCreate(A.umfFileMemoryProviderOps(), q, &s.prov);
                A.umfFileMemoryProviderParamsDestroy(q);
            }
            if (r != UMF_RESULT_SUCCESS)
                violate("start", "provider of process %d could not be created: %s", me,
                        res_name(r));
            if (pool_kind[i] == PROXY)
                r = A.umfPoolCreate(A.umfProxyPoolOps(), s.prov, nullptr, 0, &s.pool);
            else if (pool_kind[i] == DISJOINT) {
                umf_disjoint_pool_params_handle_t q = nullptr;
                A.umfDisjointPoolParamsCreate(&q);
                A.umfDisjointPoolParamsSetSlabMinSize(q, kind[i] >= FSDAX ? MB2 : 65536);
                A.umfDisjointPoolParamsSetMaxPoolableSize(q, 32768);
                r = A.umfPoolCreate(A.umfDisjointPoolOps(), s.prov, q, 0, &s.pool);
                A.umfDisjointPoolParamsDestroy(q);
            }
            if (r != UMF_RESULT_SUCCESS)
                violate("start", "pool of process %d could not be created: %s", me,
                        res_name(r));
        }
        P.alive = true;
        P.gen++;
        probe(P.gen > 1 ? "process restarted" : "process started");
        return true;
    }
    void gone(int me) { // nothing of the process is valid any more
        Process &P = procs[me];
        for (auto &a : allocs)
            if (a.proc == me)
                a.live = false;
        for (auto &m : msgs)
            if (m.proc == me)
                m.valid = false;
        P.views.clear();
        P.slots.clear();
        P.fds.clear();
        P.alive = false;
        os::proc_exit(me);
    }
    void leave(int me, bool last) {
        Process &P = procs[me];
        if (!P.alive)
            return;
        Image &A = *P.api;
        NoFault nf;
        while (P.views.size())
            close_view(me, 0);
        for (auto *&a : P.slots)
            if (a)
                release(me, a);
        for (auto &s : P.pools) {
            if (s.pool)
                A.umfPoolDestroy(s.pool);
            A.umfMemoryProviderDestroy(s.prov);
        }
        A.umfTearDown();
        for (int fd : P.fds)
            __wrap_close(fd);
        P.fds.clear();
        size_t left = 0;
        for (auto &m : os::maps())
            left += m.second.proc == me && m.second.owner != 2;
        if (left || os::open_fds(me))
            violate("leak", "process %d ended with %zu mappings and %d descriptors:%s%s", me,
                    left, os::open_fds(me), os::fds_describe().c_str(),
                    os::maps_describe(-1).c_str());
        gone(me);
        probe("process exited");
        (void)last;
    }
    // --------------------------------------------------------------- content
    static bool lattice(size_t i, size_t n) { return i % 512 < 8 || i < 24 || n - i <= 24; }
    static uint8_t value(uint64_t tag, size_t i) {
        uint64_t x = (tag * 0x9e3779b97f4a7c15ull) ^ (i * 0xff51afd7ed558ccdull);
        x ^= x >> 29;
        return (uint8_t)((x * 0xbf58476d1ce4e5b9ull) >> 40);
    }
    static size_t step(size_t i, size_t n) {
        i++;
        if (!lattice(i, n)) {
            i = (i + 511) / 512 * 512;
            if (i > n - 24 || i >= n)
                i = std::min(i, n - 24);
        }
        return i;
    }
    void put_bytes(Alloc &a, char *view, size_t off, size_t len) { // view: address of byte `off`
        uint64_t t = ++tags;
        for (size_t i = off; i < off + len; i = step(i, a.size))
            if (lattice(i, a.size))
                view[i - off] = (char)(a.want[i] = value(t, i));
    }
    void same(Alloc &a, const char *view, size_t off, size_t len, int who, const char *what) {
        for (size_t i = off; i < off + len; i = step(i, a.size))
            if (lattice(i, a.size) && (uint8_t)view[i - off] != a.want[i])
                violate("different-memory",
                        "%s: process %d reads %#x at byte %zu of a block of %zu of process %d "
                        "(from byte %zu), not %#x", what, who, (uint8_t)view[i - off], i, a.size,
                        a.proc, off, a.want[i]);
    }
    void all_same(Alloc &a, const char *what) {
        Unchecked u;
        if (!a.live)
            return;
        same(a, a.ptr, 0, a.size, a.proc, what);
        for (int t = 1; t <= nprocs; t++)
            for (auto &v : procs[t].views)
                if (v.m->a == &a && v.m->valid)
                    same(a, v.ptr, v.m->off, v.m->len, t, what);
    }
    // ------------------------------------------------------------ operations
    void unvalid(Alloc *a) {
        for (auto &m : msgs)
            if (m.a == a)
                m.valid = false;
    }
    void put(int me, Msg &m) {
        Process &P = procs[me];
        if (m.put || m.proc != me || m.gen != P.gen)
            return;
        m.put = true;
        m.valid = false;
        uint64_t f0 = faults_fired();
        umf_result_t r =
            m.direct ? P.api->umfMemoryProviderPutIPCHandle(P.pools[(size_t)m.pool].prov,
                                                            m.direct)
                     : P.api->umfPutIPCHandle(m.h);
        if (r != UMF_RESULT_SUCCESS && f0 == faults_fired())
            violate("put", "putting a handle failed: %s", res_name(r));
        if (m.direct) {
            os::release(m.direct, 8192);
            m.direct = nullptr;
        }
    }
    void release(int me, Alloc *&slot) {
        Process &P = procs[me];
        Alloc *a = slot;
        all_same(*a, "before free");
        unvalid(a);
        for (auto &m : msgs)
            if (m.a == a)
                put(me, m);
        slot = nullptr;
        a->live = false;
        PoolState &s = P.pools[(size_t)a->pool];
        uint64_t f0 = faults_fired();
        umf_result_t r = s.pool ? P.api->umfPoolFree(s.pool, a->ptr)
                                : P.api->umfMemoryProviderFree(s.prov, a->ptr, a->size);
        if (r != UMF_RESULT_SUCCESS && f0 == faults_fired())
            violate("free", "free of a block of %zu failed: %s", a->size, res_name(r));
    }
    void close_view(int me, size_t i) {
        Process &P = procs[me];
        View v = P.views[i];
        if (v.m->valid)
            same(*v.m->a, v.ptr, v.m->off, v.m->len, me, "before close");
        P.views.erase(P.views.begin() + (long)i);
        PoolState &s = P.pools[(size_t)v.pool];
        uint64_t f0 = faults_fired();
        umf_result_t r = s.pool ? P.api->umfCloseIPCHandle(v.ptr)
                                : P.api->umfMemoryProviderCloseIPCHandle(s.prov, v.ptr, v.len);
        if (r != UMF_RESULT_SUCCESS && f0 == faults_fired())
            violate("close", "closing an opened handle failed: %s", res_name(r));
    }
    size_t page_of(int k) { return kind[k] >= FSDAX ? MB2 : 4096; }
    void run(const Op &op, int me) {
        Process &P = procs[me];
        Image &A = *P.api;
        size_t ns = P.slots.size();
        Alloc *&slot = P.slots[(uint64_t)op.a[0] % ns];
        int pi = (int)(((uint64_t)op.a[0] % ns) % (size_t)npools);
        PoolState &s = P.pools[(size_t)pi];
        uint64_t f0 = faults_fired();
        switch (op.code % NOPS) {
        case ALLOC: {
            if (slot)
                break;
            size_t size = (size_t)op.a[1] % (6 * MB2);
            if (!size)
                size = 1;
            unsigned ai = (unsigned)((uint64_t)op.a[2] % 24);
            size_t al = ai < 12 ? 0 : (size_t)8 << (ai - 12); // up to 16 KB
            if (ai == 23)
                al = MB2;
            void *p = nullptr;
            if (!s.pool) {
                size = (size + page_of(pi) - 1) / page_of(pi) * page_of(pi);
                if (A.umfMemoryProviderAlloc(s.prov, size, al, &p) != UMF_RESULT_SUCCESS)
                    p = nullptr;
            } else
                p = al ? A.umfPoolAlignedMalloc(s.pool, size, al)
                       : A.umfPoolMalloc(s.pool, size);
            if (!p) {
                probe("allocation failed");
                break;
            }
            if (!os::range_mapped((uintptr_t)p, size, 1, true))
                violate("not-mapped", "a new block of %zu bytes is not writable memory", size);
            allocs.emplace_back();
            Alloc &a = allocs.back();
            a.proc = me;
            a.gen = P.gen;
            a.pool = pi;
            a.ptr = (char *)p;
            a.size = size;
            a.want.assign(size, 0);
            put_bytes(a, a.ptr, 0, size);
            a.live = true;
            slot = &a;
            break;
        }
        case FREE:
            if (slot)
                release(me, slot);
            break;
        case EXPORT: {
            if (!slot)
                break;
            Alloc &a = *slot;
            size_t off = (uint64_t)op.a[2] % 3 ? (size_t)op.a[3] % a.size : 0;
            msgs.emplace_back();
            Msg &m = msgs.back();
            m.put = true; // until there is something to put
            m.proc = me;
            m.gen = P.gen;
            m.pool = pi;
            m.a = &a;
            umf_result_t r;
            if (s.pool) {
                size_t n = 0;
                r = A.umfGetIPCHandle(a.ptr + off, &m.h, &n);
                if (r == UMF_RESULT_SUCCESS)
                    m.data.assign((char *)m.h, (char *)m.h + n);
            } else {
                off = 0;
                size_t n = 0;
                r = A.umfMemoryProviderGetIPCHandleSize(s.prov, &n);
                if (r == UMF_RESULT_SUCCESS) {
                    if (n > 8192)
                        violate("export", "a handle has %zu bytes", n);
                    void *d = os::reserve(8192, 4096);
                    r = A.umfMemoryProviderGetIPCHandle(s.prov, a.ptr, a.size, d);
                    if (r == UMF_RESULT_SUCCESS) {
                        m.data.assign((char *)d, (char *)d + n);
                        m.direct = d;
                    } else
                        os::release(d, 8192);
                }
            }
            if (r != UMF_RESULT_SUCCESS) {
                if (faults_fired() == f0)
                    violate("export", "no handle for byte %zu of a block of %zu: %s", off, a.size,
                            res_name(r));
                break;
            }
            m.off = off;
            m.len = a.size - off;
            m.put = false;
            m.valid = a.live && slot == &a;
            break;
        }
        case PUT:
            if (msgs.size())
                put(me, msgs[(uint64_t)op.a[4] % msgs.size()]);
            break;
        case OPEN: {
            if (!msgs.size() || P.views.size() > 12)
                break;
            size_t n = msgs.size(), back = std::min<size_t>(n, 8);
            Msg &m = (uint64_t)op.a[2] % 4 ? msgs[n - 1 - (uint64_t)op.a[4] % back]
                                           : msgs[(uint64_t)op.a[4] % n];
            if (m.data.empty())
                break;
            bool valid = m.valid;
            PoolState &t = P.pools[(size_t)m.pool];
            size_t size = (m.data.size() + 4095) / 4096 * 4096;
            char *buf = (char *)os::reserve(size, 4096);
            memcpy(buf, m.data.data(), m.data.size());
            void *p = nullptr;
            umf_result_t r;
            if (t.pool) {
                umf_ipc_handler_handle_t h = nullptr;
                r = A.umfPoolGetIPCHandler(t.pool, &h);
                if (r == UMF_RESULT_SUCCESS)
                    r = A.umfOpenIPCHandle(h, (umf_ipc_handle_t)buf, &p);
            } else
                r = A.umfMemoryProviderOpenIPCHandle(t.prov, buf, &p);
            os::release(buf, size); // the message is gone
            valid = valid && m.valid;
            if (r != UMF_RESULT_SUCCESS) {
                if (valid && faults_fired() == f0)
                    violate("open", "process %d could not open a valid handle of process %d "
                            "(byte %zu of %zu): %s", me, m.proc, m.off, m.a->size, res_name(r));
                probe(valid ? "open refused" : "stale handle refused");
                break;
            }
            View v;
            v.m = &m;
            v.pool = m.pool;
            v.ptr = (char *)p;
            v.len = m.len;
            if (valid) {
                if (!os::range_mapped((uintptr_t)p, m.len, 1, true))
                    violate("not-mapped", "process %d opened %zu bytes of a block of %zu and "
                            "cannot use all of them", me, m.len, m.a->size);
                same(*m.a, v.ptr, m.off, m.len, me, "open");
                probe(m.proc == me ? "opened by its producer" : "opened by another process");
            } else
                probe("stale handle opened");
            P.views.push_back(v);
            break;
        }
        case CLOSE:
            if (P.views.size())
                close_view(me, (uint64_t)op.a[4] % P.views.size());
            break;
        case WRITE: {
            Unchecked u;
            Alloc *a = slot;
            char *base = a ? a->ptr : nullptr;
            size_t lo = 0;
            if ((op.a[2] & 1) && P.views.size()) {
                View &v = P.views[(uint64_t)op.a[4] % P.views.size()];
                if (v.m->valid) {
                    a = v.m->a;
                    base = v.ptr;
                    lo = v.m->off;
                    probe("consumer wrote");
                }
            }
            if (!a || !a->live)
                break;
            size_t span = a->size - lo, d = (size_t)op.a[3] % span;
            size_t len = 1 + (size_t)op.a[1] % (span - d);
            put_bytes(*a, base + d, lo + d, len);
            all_same(*a, "after a write");
            break;
        }
        case CHECK:
            if (slot)
                all_same(*slot, "check");
            break;
        case SPLIT: {
            if (!slot || s.pool)
                break;
            Alloc &a = *slot;
            size_t pg = page_of(pi), pages = a.size / pg;
            if (pages < 2 || a.size % pg)
                break;
            Alloc *other = nullptr;
            size_t oi = 0;
            for (oi = (size_t)pi; oi < ns; oi += (size_t)npools)
                if (!P.slots[oi])
                    break;
            if (oi >= ns)
                break;
            size_t first = pg * (1 + (uint64_t)op.a[3] % (pages - 1));
            unvalid(&a);
            umf_result_t r =
                A.umfMemoryProviderAllocationSplit(s.prov, a.ptr, a.size, first);
            if (r != UMF_RESULT_SUCCESS) {
                if (faults_fired() == f0)
                    violate("split", "splitting %zu at %zu failed: %s", a.size, first,
                            res_name(r));
                break;
            }
            for (auto &m : msgs)
                if (m.a == &a)
                    put(me, m);
            allocs.emplace_back();
            other = &allocs.back();
            *other = a;
            other->ptr += first;
            other->size -= first;
            other->want.assign(a.want.begin() + (long)first, a.want.end());
            a.size = first;
            a.want.resize(first);
            // the places that are looked at depend on the size
            put_bytes(a, a.ptr, 0, a.size);
            put_bytes(*other, other->ptr, 0, other->size);
            P.slots[oi] = other;
            probe("split");
            break;
        }
        case MERGE: {
            if (!slot || s.pool)
                break;
            Alloc &a = *slot;
            for (size_t i = (size_t)pi; i < ns; i += (size_t)npools) {
                Alloc *b = P.slots[i];
                if (!b || b == &a || b->ptr != a.ptr + a.size)
                    continue;
                unvalid(&a);
                unvalid(b);
                umf_result_t r = A.umfMemoryProviderAllocationMerge(s.prov, a.ptr, b->ptr,
                                                                    a.size + b->size);
                if (r != UMF_RESULT_SUCCESS) {
                    probe("merge refused"); // not of one allocation
                    break;
                }
                for (auto &m : msgs)
                    if (m.a == &a || m.a == b)
                        put(me, m);
                all_same(*b, "merge");
                b->live = false;
                P.slots[i] = nullptr;
                a.want.resize(a.size + b->size);
                a.size += b->size;
                put_bytes(a, a.ptr, 0, a.size);
                probe("merged");
                break;
            }
            break;
        }
        case EXIT:
            leave(me, false);
            break;
        }
    }
    void exec(const Op &op) override {
        int me = task_id();
        if (!me || me > nprocs)
            return;
        os::set_proc(me);
        if (!start(me))
            return;
        uint32_t n = (uint32_t)((uint64_t)op.a[5] % 100000);
        if (!n) {
            run(op, me);
            return;
        }
        struct Dead {
            jmp_buf to;
        } *d = new Dead; // never freed: it is jumped to
        if (!_setjmp(d->to)) {
            crash_arm(n, &d->to);
            run(op, me);
            crash_arm(0, nullptr);
            return;
        }
        gone(me);
        procs[me].image = -1; // what is left in its memory is lost
        probe("process crashed");
    }
    void finish() override {
        for (auto &a : allocs)
            all_same(a, "at the end");
        // refusals stopped: every process can open everything that is valid
        for (int t = 1; t <= nprocs; t++) {
            os::set_proc(t);
            if (!procs[t].alive)
                continue;
            for (auto &m : msgs) {
                if (!m.valid || (procs[t].views.size() > 60))
                    continue;
                Op o = Op();
                o.code = OPEN;
                o.a[2] = 0;
                o.a[4] = (int64_t)(&m - &msgs[0]);
                for (size_t i = 0; i < msgs.size(); i++)
                    if (&msgs[i] == &m)
                        o.a[4] = (int64_t)i;
                while (procs[t].views.size() > 8)
                    close_view(t, 0);
                run(o, t);
            }
        }
        for (int t = 1; t <= nprocs; t++) {
            os::set_proc(t);
            leave(t, true);
        }
        os::set_proc(0);
    }
};
SIM_SCENARIO("C12.processes", Procs)
} // namespace
