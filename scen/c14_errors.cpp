// C14: errors of pools and providers as each thread reads them.
#include "stubs.h"
#include <deque>
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_proxy.h>
#include <umf/pools/pool_scalable.h>
#include <umf/providers/provider_devdax_memory.h>
#include <umf/providers/provider_file_memory.h>
#include <umf/providers/provider_fixed_memory.h>
#include <umf/providers/provider_os_memory.h>
using namespace simx;
namespace {
enum { MALLOC, CALLOC, REALLOC, ALIGNED, FREE, D_ALLOC, D_FREE, D_QUERY, D_SPLIT,
       D_PURGE, D_IPC, R_ALLOC, R_FREE, R_LAZY, R_FORCE, R_IPC, READ, NOPS };
enum { PROXY, DISJOINT, SCALABLE, NPOOL };
enum { OSP, FILEP, FIXEDP, DEVDAXP, NREAL };
struct PoolErr {
    bool on = false;
    std::set<umf_result_t> allowed; // empty: any failure
    umf_memory_pool_handle_t h = nullptr;
};
struct NatErr {
    bool on = false;
    std::set<int32_t> allowed;
    umf_memory_provider_handle_t h = nullptr, via = nullptr;
    std::string msg; // message seen at the first read
    const char *mp = nullptr;
    int err = 0; // errno the message must name
    int type = 0;
};
struct Blk {
    void *p = nullptr;
    size_t n = 0;
};
struct TS {
    std::set<std::string> last; // names allowed; "" = none failed so far
    umf_memory_provider_handle_t exact = nullptr;
    PoolErr pe[NPOOL];
    NatErr ne[3 + NREAL];
    Blk pool[NPOOL][3], direct[3][3], real[NREAL][3];
};
struct Errors : Scenario {
    Provider prov[3];
    umf_memory_pool_handle_t pool[NPOOL] = {};
    bool track[NPOOL] = {};
    size_t maxp = 4096;
    umf_memory_provider_handle_t real[NREAL] = {};
    std::map<int, TS> ts;
    const char *op_name(uint32_t c) override {
        static const char *n[] = {"malloc", "calloc", "realloc", "aligned_malloc",
                                  "pool_free", "provider_alloc", "provider_free",
                                  "query", "split", "purge", "ipc", "real_alloc",
                                  "real_free", "purge_lazy", "purge_force",
                                  "real_ipc", "read"};
        return n[c % NOPS];
    }
    const char *real_parts() override {
        return "memory_provider, memory_pool, error slots of proxy, disjoint and "
               "scalable pools, tracking, OS, file, fixed and device-DAX providers";
    }
    const char *stub_parts() override {
        return "upstream providers, OS calls, TBB malloc behind a gate";
    }
    void generate(Rng &r, Program &p, bool thorough) override {
        log_cfg(r, p, 35);
        if (p.get("log") && r.chance(1, 2))
            p.cfg["frate.write"] = 300;
        int nt = (int)r.range(1, 4), k = (int)r.range(4, thorough ? 40 : 24);
        for (int i = 0; i < 3; i++) {
            p.cfg["err" + std::to_string(i)] = (int64_t)r.below(4);
            p.cfg["track" + std::to_string(i)] = (int64_t)r.below(4) != 0;
        }
        p.cfg["maxp"] = r.chance(1, 2) ? 4096 : 65536;
        p.cfg["bind"] = (int64_t)r.below(2);
        int focus = (int)r.below(5);
        int64_t obj = focus < 4 && r.chance(2, 3) ? (int64_t)r.below(12) : -1;
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < k; i++) {
                int c;
                if (r.chance(1, 6))
                    c = READ;
                else if (focus == 0)
                    c = (int)r.range(MALLOC, FREE);
                else if (focus == 1)
                    c = (int)r.range(D_ALLOC, D_IPC);
                else if (focus <= 3)
                    c = r.chance(1, 3) ? R_ALLOC : (int)r.range(R_ALLOC, R_IPC);
                else
                    c = (int)r.below(NOPS);
                static const int64_t sz[] = {1, 64, 200, 4096, 5000, 65536, 200000,
                                             1 << 20};
                p.add((uint32_t)t, (uint32_t)c,
                      obj >= 0 && r.chance(9, 10) ? obj : (int64_t)r.below(12), sz[r.below(8)],
                      (int64_t)r.below(13), (int64_t)r.below(4), (int64_t)r.below(3));
            }
        static const std::vector<Fault> kp = {F_PROV_ALLOC, F_PROV_ALLOC, F_PROV_ALLOC,
                                              F_PROV_FREE, F_META},
            kd = {F_PROV_ALLOC, F_PROV_FREE, F_PROV_SPLIT, F_PROV_MERGE, F_PROV_QUERY, F_IPC_GET,
                  F_IPC_PUT, F_IPC_OPEN, F_IPC_CLOSE},
            kr = {F_MMAP, F_MMAP_FILE, F_MUNMAP, F_MADVISE, F_MEMBIND, F_META,
                  F_FTRUNC};
        p.cfg["fmax"] = r.range(2, 40);
        int n = (int)r.range(1, 4);
        for (int i = 0; i < n; i++) {
            static const int64_t rates[] = {100, 300, 600};
            int w = focus < 4 ? focus : (int)r.below(4);
            p.cfg[std::string("frate.") +
                  fault_name[r.pick(w == 0 ? kp : w == 1 ? kd : kr)]] = rates[r.below(3)];
        }
    }
    void must(umf_result_t r, const char *what) {
        if (r)
            violate("create-failed", "%s failed (%s) without faults", what,
                    res_name(r));
    }
    void setup(const Program &p) override {
        loader_install();
        os::set_map_sync(os::create_file("/mnt/f", 0, false), false);
        os::create_file("/dev/dax0.0", 16ull << 21, true);
        log_setup(p);
        lib_init();
        static const umf_result_t errs[] = {
            UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC,
            UMF_RESULT_ERROR_OUT_OF_RESOURCES, UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC};
        static const char *names[] = {"SIM-A", "SIM-B", "SIM-C"};
        maxp = (size_t)p.get("maxp", 4096);
        for (int i = 0; i < 3; i++) {
            std::string n = std::to_string(i);
            prov[i].name = names[i];
            prov[i].err = errs[p.get(("err" + n).c_str()) % 4];
            track[i] = p.get(("track" + n).c_str(), 1);
            prov[i].strict = track[i]; // an untracked proxy frees with size 0
            prov[i].refuse_more = true;
            make_provider(&prov[i]);
        }
        umf_disjoint_pool_params_handle_t dp = nullptr;
        must(umfDisjointPoolParamsCreate(&dp), "params");
        must(umfDisjointPoolParamsSetMaxPoolableSize(dp, maxp), "params");
        umf_scalable_pool_params_handle_t sp = nullptr;
        must(umfScalablePoolParamsCreate(&sp), "params");
        for (int i = 0; i < NPOOL; i++)
            must(umfPoolCreate(i == PROXY ? umfProxyPoolOps()
                               : i == DISJOINT ? umfDisjointPoolOps()
                                               : umfScalablePoolOps(),
                               prov[i].h,
                               i == DISJOINT ? (void *)dp
                               : i == SCALABLE ? (void *)sp : nullptr,
                               track[i] ? 0 : UMF_POOL_CREATE_FLAG_DISABLE_TRACKING,
                               &pool[i]),
                 "umfPoolCreate");
        umfDisjointPoolParamsDestroy(dp);
        umfScalablePoolParamsDestroy(sp);
        umf_os_memory_provider_params_handle_t op = nullptr;
        must(umfOsMemoryProviderParamsCreate(&op), "params");
        if (!p.get("bind"))
            umfOsMemoryProviderParamsSetVisibility(op, UMF_MEM_MAP_SHARED);
        else {
            unsigned nodes[] = {0, 1};
            umfOsMemoryProviderParamsSetNumaList(op, nodes, 2);
            umfOsMemoryProviderParamsSetNumaMode(op, UMF_NUMA_MODE_SPLIT);
        }
        must(umfMemoryProviderCreate(umfOsMemoryProviderOps(), op, &real[OSP]), "OS");
        umfOsMemoryProviderParamsDestroy(op);
        umf_file_memory_provider_params_handle_t fp = nullptr;
        must(umfFileMemoryProviderParamsCreate(&fp, "/mnt/f"), "params");
        umfFileMemoryProviderParamsSetVisibility(fp, UMF_MEM_MAP_SHARED);
        must(umfMemoryProviderCreate(umfFileMemoryProviderOps(), fp, &real[FILEP]), "file");
        umfFileMemoryProviderParamsDestroy(fp);
        umf_fixed_memory_provider_params_handle_t xp = nullptr;
        must(umfFixedMemoryProviderParamsCreate(&xp, os::reserve(1 << 20, 4096), 1 << 20), "params");
        must(umfMemoryProviderCreate(umfFixedMemoryProviderOps(), xp, &real[FIXEDP]), "fixed");
        umfFixedMemoryProviderParamsDestroy(xp);
        umf_devdax_memory_provider_params_handle_t vp = nullptr;
        must(umfDevDaxMemoryProviderParamsCreate(&vp, "/dev/dax0.0", 16ull << 21), "params");
        must(umfMemoryProviderCreate(umfDevDaxMemoryProviderOps(), vp, &real[DEVDAXP]), "devdax");
        umfDevDaxMemoryProviderParamsDestroy(vp);
        last_refuser.clear();
    }
    TS &me() {
        TS &t = ts[task_id()];
        if (t.last.empty())
            t.last.insert("");
        return t;
    }
    // ------------------------------------------------------------ reading
    void read_last(TS &t) {
        umf_memory_provider_handle_t h = umfGetLastFailedMemoryProvider();
        std::string n = h ? umfMemoryProviderGetName(h) : "";
        if (!t.last.count(n))
            violate("last-failed-provider", "the last failed provider of this "
                    "thread reads '%s', is '%s'", n.c_str(), t.last.begin()->c_str());
        if (t.exact && t.last.size() == 1 && h != t.exact)
            violate("last-failed-provider", "the last failed provider of this "
                    "thread is another handle of '%s'", n.c_str());
        if (t.last.size() > 1)
            t.last = {n};
    }
    void read_pool(TS &t, int i) {
        PoolErr &e = t.pe[i];
        if (!e.on)
            return;
        umf_result_t r = umfPoolGetLastAllocationError(e.h);
        if (r == UMF_RESULT_SUCCESS || !valid_result(r) ||
            (!e.allowed.empty() && !e.allowed.count(r)))
            violate("pool-error", "pool %d: the failed allocation of this thread "
                    "reads %s, was %s", i, res_name(r),
                    e.allowed.empty() ? "a failure" : res_name(*e.allowed.begin()));
        e.allowed = {r};
        probe("allocation error read");
    }
    static const char *text(int type, int32_t code) {
        switch (type) {
        case OSP:
            switch (code) {
            case UMF_OS_RESULT_ERROR_ALLOC_FAILED: return "memory allocation failed";
            case UMF_OS_RESULT_ERROR_BIND_FAILED: return "binding memory to NUMA node failed";
            case UMF_OS_RESULT_ERROR_FREE_FAILED: return "memory deallocation failed";
            case UMF_OS_RESULT_ERROR_PURGE_LAZY_FAILED: return "lazy purging failed";
            case UMF_OS_RESULT_ERROR_PURGE_FORCE_FAILED: return "force purging failed";
            }
            break;
        case FILEP:
            switch (code) {
            case UMF_FILE_RESULT_ERROR_ALLOC_FAILED: return "memory allocation failed";
            case UMF_FILE_RESULT_ERROR_FREE_FAILED: return "memory deallocation failed";
            case UMF_FILE_RESULT_ERROR_PURGE_FORCE_FAILED: return "force purging failed";
            }
            break;
        case FIXEDP:
            return "force purging failed";
        case DEVDAXP:
            switch (code) {
            case UMF_DEVDAX_RESULT_ERROR_ALLOC_FAILED: return "memory allocation failed";
            case UMF_DEVDAX_RESULT_ERROR_FREE_FAILED: return "memory deallocation failed";
            case UMF_DEVDAX_RESULT_ERROR_PURGE_FORCE_FAILED: return "force purging failed";
            }
        }
        return "";
    }
    void read_native(TS &t, int i) {
        NatErr &e = t.ne[i];
        // the text handed out earlier stays as it was while this thread makes
        // no further calls on providers of this type
        if (e.on && e.mp && e.msg != e.mp)
            violate("native-message", "the message of the native error changed "
                                      "under the thread that read it");
        if (!e.on && i < 3)
            return;
        umf_memory_provider_handle_t h = e.on ? e.h : real[i - 3];
        const char *m = nullptr;
        int32_t v = -1;
        umfMemoryProviderGetLastNativeError(h, &m, &v);
        if (!m && i != 3 + NREAL)
            violate("native-message", "no message");
        if (!e.on) { // value unspecified, but it must be readable
            (void)strlen(m);
            return;
        }
        if (!e.allowed.count(v))
            violate("native-error", "provider type %d: the native error of this "
                    "thread's failed call reads %d, should be %d", i, (int)v,
                    (int)*e.allowed.begin());
        e.allowed = {v};
        umf_memory_provider_handle_t l = umfGetLastFailedMemoryProvider();
        if (i < 3 && l && l != h && !strcmp(umfMemoryProviderGetName(l), prov[i].name)) {
            int32_t v2 = -1; // through the pool's own (tracking) provider
            umfMemoryProviderGetLastNativeError(l, &m, &v2);
            if (v2 != v)
                violate("native-error", "the native error reads %d, through the "
                        "last failed provider %d", (int)v, (int)v2);
        }
        if (i >= 3) {
            const char *w = text(i - 3, v);
            if (strncmp(m, w, strlen(w)))
                violate("native-message", "native error %d has the message '%s'",
                        (int)v, m);
            if (e.err && !strstr(m, strerror(e.err)))
                violate("native-message", "the failed call reported '%s', the "
                        "message reads '%s'", strerror(e.err), m);
        }
        if (e.msg.size() && e.msg != m)
            violate("native-message", "the message of the native error changed "
                    "from '%s' to '%s'", e.msg.c_str(), m);
        e.msg = m;
        e.mp = m;
        probe("native error read");
    }
    void read_all() {
        TS &t = me();
        read_last(t);
        for (int i = 0; i < NPOOL; i++)
            read_pool(t, i);
        for (int i = 0; i < 3 + NREAL; i++)
            read_native(t, i);
    }
    void gap(const Op &op) {
        for (int64_t i = 0; i < op.a[3]; i++)
            point();
        if (op.a[3])
            read_all();
    }
    void alloc_failed(TS &t, int i, std::set<umf_result_t> allowed) {
        PoolErr &e = t.pe[i];
        e.on = true;
        e.allowed = allowed;
        e.h = pool[i];
    }
    // what the harness providers refused to this task since `before`
    void refused(TS &t, int prv, uint64_t fails0, bool maybe_tracking) {
        bool meta = false;
        if (prov[prv].fails[task_id()] != fails0) {
            t.last = {last_refuser[task_id()]->name};
            t.exact = nullptr;
        }
        if (maybe_tracking) {
            meta = true;
            t.last.insert(prov[prv].name);
            t.exact = nullptr;
        }
        (void)meta;
    }
    void exec(const Op &op) override {
        TS &t = me();
        int id = task_id();
        uint32_t c = op.code % NOPS;
        size_t n = (size_t)op.a[1], al = (size_t)1 << op.a[2];
        if (c <= FREE) {
            int i = (int)(op.a[0] % NPOOL);
            Blk &b = t.pool[i][op.a[4] % 3];
            Provider &q = prov[i];
            uint64_t f0 = q.fails[id], m0 = faults_fired_kind(F_META);
            void *r = nullptr;
            t.pe[i].on = false;
            bool unsup = false, alloc = false;
            if (c == FREE) {
                if (!b.p)
                    return;
                void *x = b.p;
                b.p = nullptr;
                umfPoolFree(pool[i], x);
            } else if (c == REALLOC && i == SCALABLE) {
                if (!b.p)
                    return;
                r = umfPoolRealloc(pool[i], b.p, n);
                alloc = true;
                if (r)
                    b = {r, n};
            } else {
                if (b.p && c != CALLOC)
                    return;
                alloc = true;
                if (c == MALLOC)
                    r = umfPoolMalloc(pool[i], n);
                else if (c == ALIGNED)
                    r = umfPoolAlignedMalloc(pool[i], n, al);
                else if (c == CALLOC) {
                    unsup = i != SCALABLE;
                    if (b.p && !unsup)
                        return;
                    r = umfPoolCalloc(pool[i], 1, n);
                } else {
                    unsup = true;
                    r = umfPoolRealloc(pool[i], nullptr, n);
                }
                if (unsup && r)
                    violate("unsupported-served", "pool %d served an unsupported "
                                                  "call", i);
                if (r)
                    b = {r, n};
            }
            bool ref = q.fails[id] != f0;
            refused(t, i, f0, faults_fired_kind(F_META) != m0);
            if (ref)
                t.ne[i].on = false;
            if (ref && q.err == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC) {
                t.ne[i] = NatErr();
                t.ne[i].on = true;
                t.ne[i].allowed = {q.native[id]};
                t.ne[i].h = q.h;
            }
            if (alloc && !r) {
                if (unsup)
                    alloc_failed(t, i, {UMF_RESULT_ERROR_NOT_SUPPORTED});
                else if (!ref || faults_fired_kind(F_META) != m0)
                    alloc_failed(t, i, {});
                else if (i == PROXY)
                    alloc_failed(t, i, {q.err});
                else if (i == SCALABLE)
                    alloc_failed(t, i, {UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY});
                else if (n > maxp)
                    alloc_failed(t, i, {q.err});
                else
                    alloc_failed(t, i, {q.err, UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY});
            }
            gap(op);
            return;
        }
        if (c <= D_IPC) {
            int i = (int)(op.a[0] % 3);
            Provider &q = prov[i];
            Blk &b = t.direct[i][op.a[4] % 3];
            umf_result_t r = UMF_RESULT_SUCCESS;
            uint64_t f0 = q.fails[id];
            if (c == D_ALLOC) {
                if (b.p)
                    return;
                void *p = nullptr;
                r = umfMemoryProviderAlloc(q.h, n, al, &p);
                if (!r)
                    b = {p, n};
            } else if (c == D_QUERY) {
                size_t v;
                r = op.a[1] & 1 ? umfMemoryProviderGetMinPageSize(q.h, nullptr, &v)
                                : umfMemoryProviderGetRecommendedPageSize(q.h, 1, &v);
            } else if (!b.p)
                return;
            else if (c == D_FREE) {
                r = umfMemoryProviderFree(q.h, b.p, b.n);
                if (!r)
                    b.p = nullptr;
            } else if (c == D_SPLIT) {
                if (b.n < 2)
                    return;
                r = umfMemoryProviderAllocationSplit(q.h, b.p, b.n, b.n / 2);
                if (!r)
                    r = umfMemoryProviderAllocationMerge(
                        q.h, b.p, (char *)b.p + b.n / 2, b.n);
                if (r && q.find((uintptr_t)b.p)->size != b.n)
                    b.p = nullptr; // left in two pieces: give up on it
            } else if (c == D_PURGE) {
                r = op.a[1] & 1 ? umfMemoryProviderPurgeLazy(q.h, b.p, b.n)
                                : umfMemoryProviderPurgeForce(q.h, b.p, b.n);
            } else {
                IpcData d;
                size_t sz = 0;
                r = umfMemoryProviderGetIPCHandleSize(q.h, &sz);
                if (!r)
                    r = umfMemoryProviderGetIPCHandle(q.h, b.p, b.n, &d);
                if (!r) {
                    void *o = nullptr;
                    umf_result_t r2 = umfMemoryProviderOpenIPCHandle(q.h, &d, &o);
                    if (!r2)
                        r2 = umfMemoryProviderCloseIPCHandle(q.h, o, b.n);
                    if (r2)
                        r = r2;
                    r2 = umfMemoryProviderPutIPCHandle(q.h, &d);
                    if (r2)
                        r = r2;
                }
            }
            bool ref = q.fails[id] != f0;
            if ((r != UMF_RESULT_SUCCESS) != ref)
                violate("wrong-result", "%s returned %s, the provider %s",
                        op_name(c), res_name(r), ref ? "refused" : "did not refuse");
            if (ref) {
                t.last = {q.name};
                t.exact = q.h;
                t.ne[i] = NatErr();
                if (r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC) {
                    t.ne[i].on = true;
                    t.ne[i].allowed = {q.native[id]};
                    t.ne[i].h = q.h;
                }
                probe("provider refused");
            }
            gap(op);
            return;
        }
        if (c <= R_IPC) {
            int i = (int)(op.a[0] % NREAL);
            umf_memory_provider_handle_t h = real[i];
            Blk &b = t.real[i][op.a[4] % 3];
            umf_result_t r = UMF_RESULT_SUCCESS;
            std::set<int32_t> codes;
            auto code = [&](int o, int f, int d) {
                if (i == OSP)
                    codes.insert(o);
                else if (i == FILEP)
                    codes.insert(f);
                else if (i == DEVDAXP)
                    codes.insert(d);
            };
            t.ne[3 + i].on = false;
            os::last_fault_errno();
            if (c == R_ALLOC) {
                if (b.p)
                    return;
                void *p = nullptr;
                uint64_t b0 = faults_fired_kind(F_MEMBIND),
                         me0 = faults_fired_kind(F_META);
                r = umfMemoryProviderAlloc(h, n, i == OSP ? 0 : 4096, &p);
                if (!r)
                    b = {p, n};
                code(UMF_OS_RESULT_ERROR_ALLOC_FAILED,
                     UMF_FILE_RESULT_ERROR_ALLOC_FAILED,
                     UMF_DEVDAX_RESULT_ERROR_ALLOC_FAILED);
                if (i == OSP && (faults_fired_kind(F_MEMBIND) != b0 ||
                                 faults_fired_kind(F_META) != me0))
                    codes.insert(UMF_OS_RESULT_ERROR_BIND_FAILED);
            } else if (!b.p)
                return;
            else if (c == R_FREE) {
                if (i != OSP)
                    return;
                r = umfMemoryProviderFree(h, b.p, b.n);
                if (!r)
                    b.p = nullptr;
                code(UMF_OS_RESULT_ERROR_FREE_FAILED, 0, 0);
            } else if (c == R_LAZY) {
                r = umfMemoryProviderPurgeLazy(h, b.p, b.n);
                code(UMF_OS_RESULT_ERROR_PURGE_LAZY_FAILED, 0, 0);
            } else if (c == R_FORCE) {
                r = umfMemoryProviderPurgeForce(h, b.p, b.n);
                code(UMF_OS_RESULT_ERROR_PURGE_FORCE_FAILED,
                     UMF_FILE_RESULT_ERROR_PURGE_FORCE_FAILED,
                     UMF_DEVDAX_RESULT_ERROR_PURGE_FORCE_FAILED);
                if (i == FIXEDP)
                    codes.insert(UMF_FIXED_RESULT_ERROR_PURGE_FORCE_FAILED);
            } else {
                if (i == FIXEDP)
                    return;
                size_t sz = 0;
                r = umfMemoryProviderGetIPCHandleSize(h, &sz);
                std::vector<char> d(sz + 1);
                if (!r)
                    r = umfMemoryProviderGetIPCHandle(h, b.p, b.n, d.data());
                if (!r) {
                    void *o = nullptr;
                    r = umfMemoryProviderOpenIPCHandle(h, d.data(), &o);
                    code(UMF_OS_RESULT_ERROR_ALLOC_FAILED,
                         UMF_FILE_RESULT_ERROR_ALLOC_FAILED,
                         UMF_DEVDAX_RESULT_ERROR_ALLOC_FAILED);
                    if (!r) {
                        r = umfMemoryProviderCloseIPCHandle(h, o, b.n);
                        codes.clear();
                        code(UMF_OS_RESULT_ERROR_FREE_FAILED,
                             UMF_FILE_RESULT_ERROR_FREE_FAILED,
                             UMF_DEVDAX_RESULT_ERROR_FREE_FAILED);
                    }
                    umf_result_t r2 = umfMemoryProviderPutIPCHandle(h, d.data());
                    if (r2 && !r)
                        r = r2;
                }
            }
            if (r) {
                t.last = {umfMemoryProviderGetName(h)};
                t.exact = h;
                probe("provider failed");
            }
            t.ne[3 + i] = NatErr();
            if (r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC) {
                NatErr &e = t.ne[3 + i];
                e.on = true;
                e.h = h;
                e.allowed = codes;
                if (c == R_FREE || c == R_LAZY || c == R_FORCE)
                    e.err = os::last_fault_errno();
                if (codes.empty())
                    violate("wrong-result", "%s of provider %d returned a native "
                                            "error", op_name(c), i);
            }
            gap(op);
            return;
        }
        read_all();
    }
    void finish() override {
        read_all(); // the main task never failed
        for (auto &x : ts)
            for (int i = 0; i < NPOOL; i++)
                for (auto &b : x.second.pool[i])
                    if (b.p)
                        umfPoolFree(pool[i], b.p);
        for (int i = 0; i < NPOOL; i++)
            umfPoolDestroy(pool[i]);
        for (int i = 0; i < 3; i++)
            umfMemoryProviderDestroy(prov[i].h);
        for (int i = 0; i < NREAL; i++)
            umfMemoryProviderDestroy(real[i]);
        umfTearDown();
    }
};
SIM_SCENARIO("C14.errors", Errors)
} // namespace
