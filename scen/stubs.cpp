#include "stubs.h"
#include <dlfcn.h>
#include <unistd.h>

extern "C" void *__real_dlopen(const char *, int);
extern "C" void *__real_dlsym(void *, const char *);
extern "C" long __wrap_syscall(long n, ...);
extern "C" int __wrap_close(int);

namespace simx {
ZeDriver ZE;
TbbLedger TBB;
std::function<void *(const char *)> next_symbol;
static int n_open[2];
enum { L_TBB, L_ZE };
static char lib_token[2][8];

int loader_open_count() { return n_open[0] + n_open[1]; }

// ------------------------------------------------------------------- TBB
// The real library runs behind a gate: its own locks are not under the
// scheduler, so only one task at a time may be inside. Provider calls made
// from inside it are preemptible as usual.
static int tbb_owner = -1, tbb_depth;
struct Gate {
    explicit Gate(const char *what) {
        if (!n_open[L_TBB])
            violate("library-closed", "%s called after the library was closed",
                    what);
        point();
        int me = task_id();
        if (tbb_owner != me) {
            yield_until([] { return tbb_owner < 0; });
            tbb_owner = me;
        }
        tbb_depth++;
        if (TBB.on_call)
            TBB.on_call(what);
    }
    ~Gate() {
        if (--tbb_depth == 0)
            tbb_owner = -1;
        point();
    }
};
static struct {
    void *(*malloc_)(void *, size_t);
    void *(*realloc_)(void *, void *, size_t);
    void *(*amalloc)(void *, size_t, size_t);
    bool (*free_)(void *, void *);
    int (*create)(intptr_t, const void *, void **);
    bool (*destroy)(void *);
    void *(*identify)(void *);
    size_t (*msize)(void *, void *);
} T;
static size_t last_size;
static void *took(void *p, size_t n) {
    if (TBB.on && p)
        TBB.live[(uintptr_t)p] = n;
    return p;
}
static void gave(void *p, const char *what) {
    if (!TBB.on || !p)
        return;
    auto it = TBB.live.find((uintptr_t)p);
    if (it == TBB.live.end())
        violate("tbb-bad-block", "%s of %p, which is no block of a TBB pool", what, p);
    last_size = it->second;
    TBB.live.erase(it);
}
static void *w_malloc(void *p, size_t n) {
    Gate g("pool_malloc");
    return took(T.malloc_(p, n), n);
}
static void *w_realloc(void *p, void *o, size_t n) {
    Gate g("pool_realloc");
    gave(o, "pool_realloc");
    void *r = T.realloc_(p, o, n);
    if (!r && o && n) {
        if (TBB.on)
            TBB.live[(uintptr_t)o] = last_size;
        return r;
    }
    return took(r, n);
}
static void *w_amalloc(void *p, size_t n, size_t a) {
    Gate g("pool_aligned_malloc");
    return took(T.amalloc(p, n, a), n);
}
static bool w_free(void *p, void *o) {
    Gate g("pool_free");
    gave(o, "pool_free");
    return T.free_(p, o);
}
static int w_create(intptr_t id, const void *pol, void **out) {
    Gate g("pool_create_v1");
    struct P { // rml::MemPoolPolicy
        void *a, *f;
        size_t granularity;
        int version;
        unsigned fixed : 1, keep : 1, reserved : 30;
    };
    const P *q = (const P *)pol;
    TBB.policy[task_id()] = {q->granularity, (bool)q->keep, (bool)q->fixed};
    return T.create(id, pol, out);
}
static bool w_destroy(void *p) {
    Gate g("pool_destroy");
    return T.destroy(p);
}
static void *w_identify(void *o) {
    Gate g("pool_identify");
    return T.identify(o);
}
static size_t w_msize(void *p, void *o) {
    Gate g("pool_msize");
    return T.msize(p, o);
}
static const struct {
    const char *name;
    void **real;
    void *wrap;
} tbb_syms[] = {
    {"_ZN3rml11pool_mallocEPNS_10MemoryPoolEm", (void **)&T.malloc_, (void *)w_malloc},
    {"_ZN3rml12pool_reallocEPNS_10MemoryPoolEPvm", (void **)&T.realloc_, (void *)w_realloc},
    {"_ZN3rml19pool_aligned_mallocEPNS_10MemoryPoolEmm", (void **)&T.amalloc, (void *)w_amalloc},
    {"_ZN3rml9pool_freeEPNS_10MemoryPoolEPv", (void **)&T.free_, (void *)w_free},
    {"_ZN3rml14pool_create_v1ElPKNS_13MemPoolPolicyEPPNS_10MemoryPoolE", (void **)&T.create, (void *)w_create},
    {"_ZN3rml12pool_destroyEPNS_10MemoryPoolE", (void **)&T.destroy, (void *)w_destroy},
    {"_ZN3rml13pool_identifyEPv", (void **)&T.identify, (void *)w_identify},
    {"_ZN3rml10pool_msizeEPNS_10MemoryPoolEPv", (void **)&T.msize, (void *)w_msize},
};
static bool tbb_ok;
__attribute__((constructor)) static void tbb_reg() {
    at_zygote([] {
        void *h = __real_dlopen("libtbbmalloc.so.2", RTLD_NOW | RTLD_LOCAL);
        tbb_ok = h != nullptr;
        for (auto &s : tbb_syms) {
            *s.real = h ? __real_dlsym(h, s.name) : nullptr;
            tbb_ok = tbb_ok && *s.real;
        }
    });
}

// ------------------------------------------------------------- Level Zero
static ze_result_t ze_err(ze_result_t r) {
    ZE.last_err[task_id()] = r;
    ZE.first_err.insert({task_id(), r});
    ZE.errors[task_id()]++;
    return r;
}
static ze_result_t pick_err() {
    static const ze_result_t e[] = {
        ZE_RESULT_ERROR_DEVICE_LOST, ZE_RESULT_ERROR_OUT_OF_HOST_MEMORY,
        ZE_RESULT_ERROR_OUT_OF_DEVICE_MEMORY, ZE_RESULT_ERROR_INVALID_ARGUMENT,
        ZE_RESULT_ERROR_UNSUPPORTED_SIZE, ZE_RESULT_ERROR_UNKNOWN};
    return e[addr_rand() % 6];
}
#define ZE_ENTER(NAME)                                                         \
    do {                                                                       \
        if (!n_open[L_ZE])                                                     \
            violate("library-closed", NAME " called after the library was "    \
                                           "closed");                          \
        point();                                                               \
        if (ZE.on_call)                                                        \
            ZE.on_call(NAME);                                                  \
    } while (0)
static ze_result_t ze_alloc(int type, ze_context_handle_t ctx, size_t size,
                            size_t align, ze_device_handle_t dev, bool relaxed,
                            uint32_t ordinal, void *out) {
    if (!ctx)
        return ze_err(ZE_RESULT_ERROR_INVALID_NULL_HANDLE);
    if (!size || (size > ZE.max_alloc && type != 1 && !relaxed) ||
        size > ZE.limit)
        return ze_err(ZE_RESULT_ERROR_UNSUPPORTED_SIZE);
    if (align & (align - 1))
        return ze_err(ZE_RESULT_ERROR_UNSUPPORTED_ALIGNMENT);
    if (fault(F_DRIVER))
        return ze_err(pick_err());
    Unchecked u;
    ZeAlloc a{};
    a.size = size;
    a.type = type;
    a.ctx = ctx;
    a.dev = dev;
    a.relaxed = relaxed;
    a.ordinal = ordinal;
    a.serial = ++ZE.n_alloc;
    a.map = (size + 4095) / 4096 * 4096;
    void *p = os::reserve(a.map, align < 4096 ? 4096 : align);
    memset(p, 0xcd, std::min<size_t>(size, 4096));
    ZE.live[(uintptr_t)p] = a;
    *(void **)out = p;
    return ZE_RESULT_SUCCESS;
}
static bool is_relaxed(const ze_device_mem_alloc_desc_t *d) {
    auto *x = (const ze_relaxed_allocation_limits_exp_desc_t *)d->pNext;
    return x &&
           x->stype == ZE_STRUCTURE_TYPE_RELAXED_ALLOCATION_LIMITS_EXP_DESC &&
           x->flags == ZE_RELAXED_ALLOCATION_LIMITS_EXP_FLAG_MAX_SIZE;
}
static ze_result_t s_AllocHost(ze_context_handle_t c,
                               const ze_host_mem_alloc_desc_t *d, size_t size,
                               size_t align, void *out) {
    ZE_ENTER("zeMemAllocHost");
    if (d->stype != ZE_STRUCTURE_TYPE_HOST_MEM_ALLOC_DESC)
        violate("ze-bad-desc", "zeMemAllocHost with a wrong descriptor");
    return ze_alloc(1, c, size, align, nullptr, false, 0, out);
}
static ze_result_t s_AllocDevice(ze_context_handle_t c,
                                 const ze_device_mem_alloc_desc_t *d,
                                 size_t size, size_t align,
                                 ze_device_handle_t dev, void *out) {
    ZE_ENTER("zeMemAllocDevice");
    if (d->stype != ZE_STRUCTURE_TYPE_DEVICE_MEM_ALLOC_DESC || !dev)
        violate("ze-bad-desc", "zeMemAllocDevice with a wrong descriptor");
    return ze_alloc(2, c, size, align, dev, is_relaxed(d), d->ordinal, out);
}
static ze_result_t s_AllocShared(ze_context_handle_t c,
                                 const ze_device_mem_alloc_desc_t *d,
                                 const ze_host_mem_alloc_desc_t *h, size_t size,
                                 size_t align, ze_device_handle_t dev,
                                 void *out) {
    ZE_ENTER("zeMemAllocShared");
    if (d->stype != ZE_STRUCTURE_TYPE_DEVICE_MEM_ALLOC_DESC || !dev ||
        h->stype != ZE_STRUCTURE_TYPE_HOST_MEM_ALLOC_DESC)
        violate("ze-bad-desc", "zeMemAllocShared with a wrong descriptor");
    return ze_alloc(3, c, size, align, dev, is_relaxed(d), d->ordinal, out);
}
static ze_result_t ze_free(ze_context_handle_t c, void *p, uint32_t policy) {
    auto it = ZE.live.find((uintptr_t)p);
    if (it == ZE.live.end())
        violate("ze-bad-free", "%p freed, which the driver never handed out "
                               "or already got back", p);
    if (it->second.ctx != c)
        violate("ze-bad-context", "%p freed in a context it does not belong to",
                p);
    auto pol = ZE.policy_of.find(c);
    if (pol != ZE.policy_of.end() && pol->second != policy)
        violate("ze-free-policy", "%p freed with policy %#x, configured is %#x",
                p, policy, pol->second);
    if (it->second.handles && ZE.has_put)
        violate("handle-outlives-block", "%p freed with %d IPC handles "
                                         "outstanding", p, it->second.handles);
    if (fault(F_DRIVER)) {
        ZE.refused.insert(it->second.serial);
        return ze_err(pick_err());
    }
    Unchecked u;
    ZE.refused.erase(it->second.serial);
    ZE.free_policy[policy]++;
    for (auto h = ZE.handles.begin(); h != ZE.handles.end();) {
        if (h->second.base == (uintptr_t)p) {
            int cur = os::proc();
            os::set_proc(h->second.proc);
            __wrap_close(h->second.fd);
            os::set_proc(cur);
            h = ZE.handles.erase(h);
        } else
            ++h;
    }
    size_t map = it->second.map;
    ZE.live.erase(it);
    ZE.n_free++;
    os::release(p, map);
    return ZE_RESULT_SUCCESS;
}
static ze_result_t s_Free(ze_context_handle_t c, void *p) {
    ZE_ENTER("zeMemFree");
    return ze_free(c, p, 0);
}
static ze_result_t s_FreeExt(ze_context_handle_t c,
                             ze_memory_free_ext_desc_t *d, void *p) {
    ZE_ENTER("zeMemFreeExt");
    if (d->stype != ZE_STRUCTURE_TYPE_MEMORY_FREE_EXT_DESC)
        violate("ze-bad-desc", "zeMemFreeExt with a wrong descriptor");
    return ze_free(c, p, d->freePolicy);
}
static ze_result_t s_Resident(ze_context_handle_t c, ze_device_handle_t dev,
                              void *p, size_t size) {
    ZE_ENTER("zeContextMakeMemoryResident");
    auto it = ZE.live.find((uintptr_t)p);
    if (it == ZE.live.end() || it->second.ctx != c || it->second.size != size)
        violate("ze-bad-resident", "%p+%zu made resident is no allocation", p,
                size);
    if (fault(F_DRIVER))
        return ze_err(pick_err());
    it->second.resident.insert(dev);
    return ZE_RESULT_SUCCESS;
}
static ze_result_t s_DevProps(ze_device_handle_t dev,
                              ze_device_properties_t *o) {
    ZE_ENTER("zeDeviceGetProperties");
    (void)dev;
    if (fault(F_DRIVER))
        return ze_err(pick_err());
    o->maxMemAllocSize = ZE.max_alloc;
    return ZE_RESULT_SUCCESS;
}
static ze_result_t s_AllocProps(ze_context_handle_t, const void *p,
                                ze_memory_allocation_properties_t *o,
                                ze_device_handle_t *) {
    ZE_ENTER("zeMemGetAllocProperties");
    auto it = ZE.live.upper_bound((uintptr_t)p);
    if (it == ZE.live.begin() ||
        (uintptr_t)p >= (--it)->first + it->second.size)
        return ze_err(ZE_RESULT_ERROR_INVALID_ARGUMENT);
    if (fault(F_DRIVER))
        return ze_err(pick_err());
    o->pageSize = ZE.page;
    o->type = (ze_memory_type_t)it->second.type;
    return ZE_RESULT_SUCCESS;
}
static ze_result_t s_GetIpc(ze_context_handle_t c, const void *p,
                            ze_ipc_mem_handle_t *out) {
    ZE_ENTER("zeMemGetIpcHandle");
    auto it = ZE.live.find((uintptr_t)p);
    if (it == ZE.live.end() || it->second.ctx != c)
        violate("ipc-get-dead", "IPC handle requested for %p, which is no "
                                "live allocation", p);
    if (fault(F_DRIVER))
        return ze_err(pick_err());
    Unchecked u;
    int fd = (int)__wrap_syscall(319, "ze", 0, 0, 0, 0, 0);
    ZeHandle h;
    h.proc = os::proc();
    h.fd = fd;
    h.inode = os::fd_inode(h.proc, fd);
    h.base = (uintptr_t)p;
    ZE.handles[h.inode] = h;
    it->second.handles++;
    ZE.n_get++;
    memset(out, 0, sizeof *out);
    memcpy(out, &fd, sizeof fd);
    return ZE_RESULT_SUCCESS;
}
static int ipc_inode(const ze_ipc_mem_handle_t &h) {
    int fd;
    memcpy(&fd, &h, sizeof fd);
    return os::fd_inode(os::proc(), fd);
}
static ze_result_t s_PutIpc(ze_context_handle_t c, ze_ipc_mem_handle_t h) {
    ZE_ENTER("zeMemPutIpcHandle");
    auto it = ZE.handles.find(ipc_inode(h));
    if (it == ZE.handles.end() || it->second.proc != os::proc())
        violate("ipc-put-bad", "IPC handle released that is not outstanding");
    auto b = ZE.live.find(it->second.base);
    if (b == ZE.live.end() || b->second.ctx != c)
        violate("ipc-put-late", "IPC handle released after the allocation or "
                                "in another context");
    bool bad = fault(F_DRIVER); // the handle is gone all the same
    Unchecked u;
    b->second.handles--;
    __wrap_close(it->second.fd);
    ZE.handles.erase(it);
    ZE.n_put++;
    if (bad)
        return ze_err(pick_err());
    return ZE_RESULT_SUCCESS;
}
static ze_result_t s_OpenIpc(ze_context_handle_t, ze_device_handle_t,
                             ze_ipc_mem_handle_t h, ze_ipc_memory_flags_t,
                             void **out) {
    ZE_ENTER("zeMemOpenIpcHandle");
    auto it = ZE.handles.find(ipc_inode(h));
    if (it == ZE.handles.end())
        violate("ipc-open-garbage", "the descriptor in the opened handle does "
                                    "not name an exported allocation");
    if (fault(F_DRIVER))
        return ze_err(pick_err());
    Unchecked u;
    void *p = os::reserve(4096, 4096);
    ZE.opened[(uintptr_t)p] = {it->first, ++ZE.n_open};
    *out = p;
    return ZE_RESULT_SUCCESS;
}
static ze_result_t s_CloseIpc(ze_context_handle_t, void *p) {
    ZE_ENTER("zeMemCloseIpcHandle");
    auto it = ZE.opened.find((uintptr_t)p);
    if (it == ZE.opened.end())
        violate("ipc-close-bad", "close of %p, which is not open", p);
    if (fault(F_DRIVER))
        return ze_err(pick_err());
    Unchecked u;
    ZE.opened.erase(it);
    ZE.n_close++;
    os::release(p, 4096);
    return ZE_RESULT_SUCCESS;
}
static const struct {
    const char *name;
    void *f;
} ze_syms[] = {
    {"zeMemAllocHost", (void *)s_AllocHost},
    {"zeMemAllocDevice", (void *)s_AllocDevice},
    {"zeMemAllocShared", (void *)s_AllocShared},
    {"zeMemFree", (void *)s_Free},
    {"zeMemFreeExt", (void *)s_FreeExt},
    {"zeMemGetIpcHandle", (void *)s_GetIpc},
    {"zeMemPutIpcHandle", (void *)s_PutIpc},
    {"zeMemOpenIpcHandle", (void *)s_OpenIpc},
    {"zeMemCloseIpcHandle", (void *)s_CloseIpc},
    {"zeContextMakeMemoryResident", (void *)s_Resident},
    {"zeDeviceGetProperties", (void *)s_DevProps},
    {"zeMemGetAllocProperties", (void *)s_AllocProps},
};

// ------------------------------------------------------------------ loader
void loader_install() {
    os::on_dlopen([](const char *f, int mode, void **out) {
        int l;
        if (!strcmp(f, "libtbbmalloc.so.2")) {
            if (!tbb_ok)
                harness_error("libtbbmalloc.so.2 is not installed");
            l = L_TBB;
        } else if (!strcmp(f, "libze_loader.so") || !strcmp(f, "libze_loader.so.1"))
            l = L_ZE;
        else
            return false;
        (void)mode;
        n_open[l]++;
        *out = lib_token[l];
        return true;
    });
    os::on_dlsym([](void *h, const char *name, void **out) {
        if (!out) { // refused lookup: an optional function looks absent
            if (!strcmp(name, "zeMemPutIpcHandle"))
                ZE.has_put = false;
            if (!strcmp(name, "zeMemFreeExt"))
                ZE.has_free_ext = false;
            return true;
        }
        *out = nullptr;
        if (h == RTLD_NEXT && next_symbol) {
            *out = next_symbol(name);
            return true;
        }
        if (h == lib_token[L_TBB] && n_open[L_TBB]) {
            for (auto &s : tbb_syms)
                if (!strcmp(s.name, name))
                    *out = s.wrap;
            return true;
        }
        if (h == lib_token[L_ZE] && n_open[L_ZE]) {
            for (auto &s : ze_syms)
                if (!strcmp(s.name, name))
                    *out = s.f;
            if ((!ZE.has_put && !strcmp(name, "zeMemPutIpcHandle")) ||
                (!ZE.has_free_ext && !strcmp(name, "zeMemFreeExt")))
                *out = nullptr;
            return true;
        }
        return false;
    });
    os::on_dlclose([](void *h) {
        for (int l = 0; l < 2; l++)
            if (h == lib_token[l] && n_open[l]) {
                n_open[l]--;
                return true;
            }
        return false;
    });
}
} // namespace simx
