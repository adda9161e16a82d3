#include "common.h"

namespace simx {
static Rng &prng() {
    static Rng r(77);
    return r;
}
std::map<uintptr_t, std::pair<int, size_t>> arena_refs;

static void arena_put(uintptr_t base, size_t map_size) {
    auto it = arena_refs.find(base);
    if (--it->second.first == 0) {
        arena_refs.erase(it);
        os::release((void *)base, map_size);
    }
}

std::map<int, Provider *> last_refuser;
static umf_result_t fail(Provider *p, umf_result_t r) {
    last_refuser[task_id()] = p;
    p->n_fail++;
    p->fails[task_id()]++;
    if (r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC)
        p->native[task_id()] = 1000 + current_op();
    return r;
}
static umf_result_t p_initialize(void *params, void **out) {
    point();
    if (fault(F_PROV_INIT))
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    Provider *p = (Provider *)params;
    p->alive++;
    *out = p;
    return UMF_RESULT_SUCCESS;
}
static void p_finalize(void *h) {
    Provider *p = (Provider *)h;
    point();
    if (--p->alive < 0)
        violate("provider-finalized-twice", "provider %s finalised twice",
                p->name);
}
static umf_result_t p_alloc(void *h, size_t size, size_t align, void **ptr) {
    Provider *p = (Provider *)h;
    point();
    if (!p->alive)
        violate("provider-dead", "alloc on a finalised provider");
    if (!size || size > (8ull << 30))
        return fail(p, p->err);
    if (fault(F_PROV_ALLOC))
        return fail(p, p->err);
    Unchecked u;
    if (align < p->min_align)
        align = p->min_align;
    size_t msize = (size + 4095) / 4096 * 4096;
    size_t off = 0;
    if (p->jitter && align < 4096) {
        off = (addr_rand() % (4096 / align)) * align;
        msize += 4096;
    }
    void *m = os::reserve(msize + p->arena_slack, align);
    Block b;
    b.size = size;
    b.map_base = m;
    b.map_size = msize + p->arena_slack;
    b.serial = ++p->n_alloc;
    arena_refs[(uintptr_t)m] = {1, b.map_size};
    m = (char *)m + off;
    if (p->garbage)
        memset(m, 0xcd, std::min<size_t>(size, 4096));
    p->live[(uintptr_t)m] = b;
    p->bytes += size;
    if (p->bytes > p->peak)
        p->peak = p->bytes;
    *ptr = m;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t p_free(void *h, void *ptr, size_t size) {
    Provider *p = (Provider *)h;
    point();
    if (!p->alive)
        violate("provider-dead", "free on a finalised provider");
    if (!ptr)
        return UMF_RESULT_SUCCESS;
    auto it = p->live.find((uintptr_t)ptr);
    if (it == p->live.end())
        violate("provider-bad-free",
                "%p (size %zu) given to the provider, which never handed it "
                "out or already got it back", ptr, size);
    if (p->strict && it->second.size != size)
        violate("provider-bad-size",
                "%p given back with size %zu, was taken with %zu", ptr, size,
                it->second.size);
    if (p->before_free)
        p->before_free((uintptr_t)ptr, it->second.size);
    if (it->second.handles)
        violate("handle-outlives-block",
                "%p freed with %d IPC handles outstanding", ptr,
                it->second.handles);
    if (fault(F_PROV_FREE)) {
        p->refused.insert(it->second.serial);
        return fail(p, p->err);
    }
    Unchecked u;
    p->refused.erase(it->second.serial);
    Block b = it->second;
    p->live.erase(it);
    p->bytes -= b.size;
    p->n_free++;
    arena_put((uintptr_t)b.map_base, b.map_size);
    hot_point(); // the address may be given to somebody else now
    return UMF_RESULT_SUCCESS;
}
static void p_last_error(void *h, const char **msg, int32_t *err) {
    Provider *p = (Provider *)h;
    point();
    if (msg)
        *msg = p->name;
    if (err)
        *err = p->native[task_id()];
}
static umf_result_t p_rec_page(void *h, size_t, size_t *out) {
    Provider *p = (Provider *)h;
    point();
    if (p->no_page)
        return UMF_RESULT_ERROR_NOT_SUPPORTED;
    if (fault(F_PROV_QUERY))
        return fail(p, UMF_RESULT_ERROR_UNKNOWN);
    *out = p->page;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t p_min_page(void *h, void *, size_t *out) {
    Provider *p = (Provider *)h;
    point();
    if (p->no_page)
        return UMF_RESULT_ERROR_NOT_SUPPORTED;
    if (fault(F_PROV_QUERY))
        return fail(p, UMF_RESULT_ERROR_UNKNOWN);
    *out = p->page;
    return UMF_RESULT_SUCCESS;
}
static const char *p_name(void *h) { return h ? ((Provider *)h)->name : "SIM"; }
static umf_result_t p_purge(void *h, void *ptr, size_t size) {
    Provider *p = (Provider *)h;
    point();
    uintptr_t base;
    Block *b = p->find((uintptr_t)ptr, &base);
    if (!b || (uintptr_t)ptr + size > base + b->size)
        violate("provider-bad-purge", "purge of %p+%zu outside any block", ptr,
                size);
    if (p->refuse_more && fault(F_PROV_QUERY))
        return fail(p, p->err);
    return UMF_RESULT_SUCCESS;
}
static umf_result_t p_merge(void *h, void *lo, void *hi, size_t total) {
    Provider *p = (Provider *)h;
    point();
    auto a = p->live.find((uintptr_t)lo), b = p->live.find((uintptr_t)hi);
    if (a == p->live.end() || b == p->live.end() ||
        (uintptr_t)lo + a->second.size != (uintptr_t)hi ||
        a->second.size + b->second.size != total)
        violate("provider-bad-merge", "merge(%p, %p, %zu) does not name two "
                                      "adjacent blocks", lo, hi, total);
    if (!p->merge_ok || a->second.map_base != b->second.map_base)
        return fail(p, UMF_RESULT_ERROR_NOT_SUPPORTED);
    if (fault(F_PROV_MERGE))
        return fail(p, p->err);
    if (a->second.handles || b->second.handles)
        violate("handle-outlives-block", "merge(%p, %p) with IPC handles of "
                                         "its parts outstanding", lo, hi);
    Unchecked u;
    a->second.size = total;
    uintptr_t mb = (uintptr_t)b->second.map_base;
    size_t ms = b->second.map_size;
    p->live.erase(b);
    arena_put(mb, ms);
    return UMF_RESULT_SUCCESS;
}
static umf_result_t p_split(void *h, void *ptr, size_t total, size_t first) {
    Provider *p = (Provider *)h;
    point();
    auto a = p->live.find((uintptr_t)ptr);
    if (a == p->live.end() || a->second.size != total || !first ||
        first >= total)
        violate("provider-bad-split", "split(%p, %zu, %zu) does not name a "
                                      "block", ptr, total, first);
    if (!p->split_ok)
        return fail(p, UMF_RESULT_ERROR_NOT_SUPPORTED);
    if (fault(F_PROV_SPLIT))
        return fail(p, p->err);
    if (a->second.handles)
        violate("handle-outlives-block", "split(%p) with an IPC handle of the "
                                         "whole block outstanding", ptr);
    Unchecked u;
    Block b = a->second;
    b.size = total - first;
    b.handles = 0;
    b.serial = ++p->n_alloc;
    a->second.size = first;
    p->live[(uintptr_t)ptr + first] = b;
    arena_refs[(uintptr_t)b.map_base].first++;
    return UMF_RESULT_SUCCESS;
}
// ---------------------------------------------------------------- IPC
static umf_result_t p_ipc_size(void *h, size_t *size) {
    Provider *p = (Provider *)h;
    point();

    if (fault(F_PROV_QUERY))
        return fail(p, UMF_RESULT_ERROR_UNKNOWN);
    (void)p;
    *size = sizeof(IpcData);
    return UMF_RESULT_SUCCESS;
}
static umf_result_t p_ipc_get(void *h, const void *ptr, size_t size,
                              void *data) {
    Provider *p = (Provider *)h;
    point();
    auto it = p->live.find((uintptr_t)ptr);
    if (it == p->live.end())
        violate("ipc-get-dead", "IPC handle requested for %p, which is not a "
                                "live block of this provider", ptr);
    if (it->second.size != size)
        violate("ipc-get-size", "IPC handle requested for %p with size %zu, "
                                "the block has %zu", ptr, size,
                it->second.size);
    if (fault(F_IPC_GET))
        return fail(p, p->err);
    IpcData d;
    d.magic = 0x1bc0ffee;
    d.serial = ++p->n_get;
    d.base = (uintptr_t)ptr;
    d.size = size;
    d.owner = p;
    it->second.handles++;
    p->handles[d.serial] = d;
    p->handles_live++;
    memcpy(data, &d, sizeof d);
    return UMF_RESULT_SUCCESS;
}
static umf_result_t p_ipc_put(void *h, void *data) {
    Provider *p = (Provider *)h;
    point();
    IpcData d;
    memcpy(&d, data, sizeof d);
    if (d.magic != 0x1bc0ffee || d.owner != p || !p->handles.count(d.serial))
        violate("ipc-put-bad", "IPC handle released that is not outstanding");
    auto it = p->live.find(d.base);
    if (it == p->live.end() || it->second.handles <= 0)
        violate("ipc-put-late", "IPC handle of %#lx released after the block",
                (unsigned long)d.base);
    it->second.handles--;
    p->handles.erase(d.serial);
    p->handles_live--;
    p->n_put++;
    if (fault(F_IPC_PUT))
        return fail(p, p->err);
    return UMF_RESULT_SUCCESS;
}
static umf_result_t p_ipc_open(void *h, void *data, void **ptr) {
    Provider *p = (Provider *)h;
    point();
    IpcData d;
    memcpy(&d, data, sizeof d);
    if (d.magic != 0x1bc0ffee)
        violate("ipc-open-garbage", "IPC payload was corrupted");
    if (fault(F_IPC_OPEN))
        return fail(p, p->err);
    Unchecked u;
    size_t msize = (d.size + 4095) / 4096 * 4096;
    void *m = os::reserve(msize, 4096);
    p->mappings[(uintptr_t)m] = {d.size, d.serial};
    p->n_open++;
    *ptr = m;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t p_ipc_close(void *h, void *ptr, size_t size) {
    Provider *p = (Provider *)h;
    point();
    auto it = p->mappings.find((uintptr_t)ptr);
    if (it == p->mappings.end())
        violate("ipc-close-bad", "close of %p+%zu by a provider that has no "
                                 "such mapping open", ptr, size);
    if (it->second.size != size)
        violate("ipc-close-size", "close of %p with size %zu, opened with %zu",
                ptr, size, it->second.size);
    if (p->before_free)
        p->before_free((uintptr_t)ptr, size);
    Unchecked u;
    size_t msize = (it->second.size + 4095) / 4096 * 4096;
    p->mappings.erase(it);
    os::release(ptr, msize);
    p->n_close++;
    hot_point(); // the address may be given to somebody else now
    if (fault(F_IPC_CLOSE)) // it is gone all the same
        return fail(p, p->err);
    return UMF_RESULT_SUCCESS;
}

const umf_memory_provider_ops_t *provider_ops() {
    static umf_memory_provider_ops_t o;
    static bool init = false;
    if (!init) {
        memset(&o, 0, sizeof o);
        o.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
        o.initialize = p_initialize;
        o.finalize = p_finalize;
        o.alloc = p_alloc;
        o.free = p_free;
        o.get_last_native_error = p_last_error;
        o.get_recommended_page_size = p_rec_page;
        o.get_min_page_size = p_min_page;
        o.get_name = p_name;
        o.ext.purge_lazy = p_purge;
        o.ext.purge_force = p_purge;
        o.ext.allocation_merge = p_merge;
        o.ext.allocation_split = p_split;
        o.ipc.get_ipc_handle_size = p_ipc_size;
        o.ipc.get_ipc_handle = p_ipc_get;
        o.ipc.put_ipc_handle = p_ipc_put;
        o.ipc.open_ipc_handle = p_ipc_open;
        o.ipc.close_ipc_handle = p_ipc_close;
        init = true;
    }
    return &o;
}
umf_memory_provider_handle_t make_provider(Provider *p) {
    bool f = faults_enabled();
    faults_enable(false);
    umf_memory_provider_handle_t h = nullptr;
    umf_result_t r = umfMemoryProviderCreate(provider_ops(), p, &h);
    faults_enable(f);
    if (r != UMF_RESULT_SUCCESS || !h)
        violate("create-failed", "umfMemoryProviderCreate failed (%d) without "
                                 "any fault", (int)r);
    p->h = h;
    return h;
}

// ---------------------------------------------------------------- thin pool
static umf_result_t t_init(umf_memory_provider_handle_t prov, void *params,
                           void **out) {
    point();
    if (fault(F_PROV_INIT))
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    ThinPool *p = (ThinPool *)params;
    p->provider = prov;
    *out = p;
    return UMF_RESULT_SUCCESS;
}
static void t_fini(void *) { point(); }
static void *t_amalloc(void *h, size_t size, size_t align) {
    ThinPool *p = (ThinPool *)h;
    void *ptr = nullptr;
    if (umfMemoryProviderAlloc(p->provider, size, align, &ptr) !=
        UMF_RESULT_SUCCESS)
        return nullptr;
    p->blocks[(uintptr_t)ptr] = size;
    return ptr;
}
static void *t_malloc(void *h, size_t size) { return t_amalloc(h, size, 0); }
static void *t_calloc(void *, size_t, size_t) { return nullptr; }
static void *t_realloc(void *, void *, size_t) { return nullptr; }
static size_t t_usable(void *, void *) { return 0; }
static umf_result_t t_free(void *h, void *ptr) {
    ThinPool *p = (ThinPool *)h;
    point();
    if (!ptr)
        return UMF_RESULT_SUCCESS;
    p->frees++;
    if (p->on_free)
        p->on_free(ptr);
    auto it = p->blocks.find((uintptr_t)ptr);
    if (it == p->blocks.end())
        violate("pool-bad-free", "pool got %p to free, which is not one of "
                                 "its blocks", ptr);
    size_t size = it->second;
    p->blocks.erase(it);
    umf_result_t r = umfMemoryProviderFree(p->provider, ptr, size);
    if (r != UMF_RESULT_SUCCESS && !p->drop)
        p->blocks[(uintptr_t)ptr] = size;
    return r;
}
static umf_result_t t_err(void *) { return UMF_RESULT_SUCCESS; }
const umf_memory_pool_ops_t *thin_pool_ops() {
    static umf_memory_pool_ops_t o;
    static bool init = false;
    if (!init) {
        memset(&o, 0, sizeof o);
        o.version = UMF_POOL_OPS_VERSION_CURRENT;
        o.initialize = t_init;
        o.finalize = t_fini;
        o.malloc = t_malloc;
        o.calloc = t_calloc;
        o.realloc = t_realloc;
        o.aligned_malloc = t_amalloc;
        o.malloc_usable_size = t_usable;
        o.free = t_free;
        o.get_last_allocation_error = t_err;
        init = true;
    }
    return &o;
}
umf_result_t make_thin_pool(ThinPool *p, umf_memory_provider_handle_t prov,
                            umf_pool_create_flags_t flags) {
    return umfPoolCreate(thin_pool_ops(), prov, p, flags, &p->h);
}

// ---------------------------------------------------------------- nesting
static umf_result_t n_init(void *params, void **out) {
    *out = params;
    return UMF_RESULT_SUCCESS;
}
static void n_fini(void *) {}
static umf_result_t n_alloc(void *h, size_t size, size_t align, void **ptr) {
    PoolProvider *p = (PoolProvider *)h;
    *ptr = umfPoolAlignedMalloc(p->pool, size, align);
    return *ptr ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
}
static umf_result_t n_free(void *h, void *ptr, size_t) {
    PoolProvider *p = (PoolProvider *)h;
    return umfPoolFree(p->pool, ptr);
}
static void n_err(void *, const char **m, int32_t *e) {
    if (m)
        *m = "";
    if (e)
        *e = 0;
}
static umf_result_t n_page(void *, size_t, size_t *o) {
    *o = 4096;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t n_mpage(void *, void *, size_t *o) {
    *o = 4096;
    return UMF_RESULT_SUCCESS;
}
static const char *n_name(void *) { return "POOL"; }
const umf_memory_provider_ops_t *pool_provider_ops() {
    static umf_memory_provider_ops_t o;
    static bool init = false;
    if (!init) {
        memset(&o, 0, sizeof o);
        o.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
        o.initialize = n_init;
        o.finalize = n_fini;
        o.alloc = n_alloc;
        o.free = n_free;
        o.get_last_native_error = n_err;
        o.get_recommended_page_size = n_page;
        o.get_min_page_size = n_mpage;
        o.get_name = n_name;
        init = true;
    }
    return &o;
}

// ---------------------------------------------------------------- leaks
Baseline baseline() {
    Baseline b;
    b.meta_mark = os::meta_mark();
    b.maps1 = os::mapped_bytes(1);
    b.maps_any = os::mapped_bytes(-1);
    b.fds = os::open_fds();
    b.files = os::file_count();
    b.bitmaps = os::live_bitmaps();
    b.topos = os::live_topologies();
    return b;
}
void check_no_leak(const Baseline &b, const char *what, bool meta) {
    if (meta && os::meta_live_since(b.meta_mark))
        violate("leak:metadata", "%s left %zu metadata blocks allocated%s",
                what, os::meta_live_since(b.meta_mark),
                os::meta_describe(4, b.meta_mark).c_str());
    if (os::mapped_bytes(1) > b.maps1)
        violate("leak:mapping", "%s left %zu bytes mapped%s", what,
                os::mapped_bytes(1) - b.maps1, os::maps_describe(1).c_str());
    if (os::open_fds() > b.fds)
        violate("leak:descriptor", "%s left %d descriptors open%s", what,
                os::open_fds() - b.fds, os::fds_describe().c_str());
    if (os::live_bitmaps() > b.bitmaps)
        violate("leak:bitmap", "%s left %ld node sets allocated", what,
                os::live_bitmaps() - b.bitmaps);
    if (os::live_topologies() > b.topos)
        violate("leak:topology", "%s left %ld topologies allocated", what,
                os::live_topologies() - b.topos);
}

void log_cfg(Rng &r, Program &p, unsigned pct) {
    if (r.below(100) < pct)
        p.cfg["log"] = 1 + (int64_t)r.below(3);
}
void log_setup(const Program &p) {
    int64_t m = p.get("log");
    if (!m)
        return;
    io::install((int)(m - 1));
    io::serve("/log/");
    io::clobber_errno(true);
    static const char *const v[] = {"level:debug;output:stderr", "output:stdout;level:debug;flush:debug",
                                    "output:file,/log/x;level:info;flush:info"};
    os::set_env("UMF_LOG", v[(m - 1) % 3]);
}
void lib_init() {
    meta_oracle(true);
    if (umfInit())
        violate("init-failed", "umfInit failed without any fault");
}
static uint8_t pat(uint64_t tag, size_t i) {
    return (uint8_t)(mix64(tag, i >> 3) >> ((i & 7) * 8));
}
void fill(void *p, size_t n, uint64_t tag) {
    uint8_t *b = (uint8_t *)p;
    if (n <= 8192) {
        for (size_t i = 0; i < n; i++)
            b[i] = pat(tag, i);
        return;
    }
    // head, tail and one word in each page
    for (size_t i = 0; i < 512; i++) {
        b[i] = pat(tag, i);
        b[n - 1 - i] = pat(tag, n - 1 - i);
    }
    for (size_t i = 4096; i + 8 < n; i += 4096)
        for (size_t k = 0; k < 8; k++)
            b[i + k] = pat(tag, i + k);
    for (size_t i = 0; i < 512; i++)
        b[n - 1 - i] = pat(tag, n - 1 - i);
}
long verify(const void *p, size_t n, uint64_t tag) {
    const uint8_t *b = (const uint8_t *)p;
    if (n <= 8192) {
        for (size_t i = 0; i < n; i++)
            if (b[i] != pat(tag, i))
                return (long)i;
        return -1;
    }
    for (size_t i = 0; i < 512; i++) {
        if (b[i] != pat(tag, i))
            return (long)i;
        if (b[n - 1 - i] != pat(tag, n - 1 - i))
            return (long)(n - 1 - i);
    }
    for (size_t i = 4096; i + 8 < n; i += 4096)
        for (size_t k = 0; k < 8; k++)
            if (b[i + k] != pat(tag, i + k))
                return (long)(i + k);
    return -1;
}
const char *res_name(int r) {
    switch (r) {
    case UMF_RESULT_SUCCESS: return "SUCCESS";
    case UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY: return "OUT_OF_HOST_MEMORY";
    case UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC: return "PROVIDER_SPECIFIC";
    case UMF_RESULT_ERROR_INVALID_ARGUMENT: return "INVALID_ARGUMENT";
    case UMF_RESULT_ERROR_INVALID_ALIGNMENT: return "INVALID_ALIGNMENT";
    case UMF_RESULT_ERROR_NOT_SUPPORTED: return "NOT_SUPPORTED";
    case UMF_RESULT_ERROR_USER_SPECIFIC: return "USER_SPECIFIC";
    case UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE: return "DEPENDENCY";
    case UMF_RESULT_ERROR_OUT_OF_RESOURCES: return "OUT_OF_RESOURCES";
    case UMF_RESULT_ERROR_UNKNOWN: return "UNKNOWN";
    }
    return "?";
}
bool valid_result(int r) { return *res_name(r) != '?'; }

void pick_faults(Rng &r, Program &p, const std::vector<Fault> &kinds,
                 unsigned chance_pct) {
    if (r.below(100) >= chance_pct || kinds.empty())
        return;
    p.cfg["fmax"] = r.range(1, 6);
    int n = (int)r.range(1, 2);
    for (int i = 0; i < n; i++) {
        std::string k = fault_name[r.pick(kinds)];
        if (r.chance(1, 2)) {
            static const int64_t rates[] = {8, 40, 150, 400};
            p.cfg["frate." + k] = rates[r.below(4)];
        } else {
            p.cfg["fshot." + k] = r.chance(1, 2) ? r.range(1, 8) : r.range(1, 60);
            p.cfg["fburst." + k] = r.chance(1, 3) ? r.range(1, 4) : 0;
        }
    }
    (void)prng;
}
} // namespace simx
