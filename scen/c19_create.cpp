// C19: creating any object either succeeds completely or leaves nothing
// behind, under any failure met on the way.
#include "stubs.h"
#include <deque>
#include <umf/memspace.h>
#include <umf/memtarget.h>
#include <umf/mempolicy.h>
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_proxy.h>
#include <umf/pools/pool_scalable.h>
#include <umf/providers/provider_devdax_memory.h>
#include <umf/providers/provider_file_memory.h>
#include <umf/providers/provider_fixed_memory.h>
#include <umf/providers/provider_level_zero.h>
#include <umf/providers/provider_os_memory.h>
using namespace simx;
namespace {
enum { MAKE, UNMAKE, USE, STACK, SWEEP, NOPS };
enum { K_SIM, K_OS, K_FILE, K_DEVDAX, K_FIXED, K_MEMSPACE, K_POLICY, K_FROMMS, K_LIMITS,
       K_ZE, NKIND };
enum { P_THIN, P_PROXY, P_DISJOINT, P_SCALABLE, NPOOL };

struct Obj {
    int kind = -1; // of the provider / object
    int pool = -1; // of the pool on top, or -1
    bool busy = false;
    int users = 0;  // pools on top of it
    int below = -1; // slot whose provider this pool uses
    bool own = false, tracked = true;
    umf_memory_provider_handle_t h = nullptr;
    umf_memory_pool_handle_t q = nullptr;
    umf_memspace_handle_t ms = nullptr;
    umf_mempolicy_handle_t pol = nullptr;
    umf_disjoint_pool_shared_limits_handle_t lim = nullptr;
    std::vector<unsigned> ids;
    umf_mempolicy_split_partition_t parts[2];
    Provider *sim = nullptr;
    ThinPool *thin = nullptr;
    void *region = nullptr;
    size_t region_size = 0, page = 4096;
    void clear() { *this = Obj(); }
};

struct Create : Scenario {
    static const int NS = 6;
    Baseline base;
    Program prog;
    Obj s[NS + 2];
    std::deque<Provider> provs;
    std::deque<ThinPool> thins;
    bool warm = false, multi = false;
    uint64_t sticky0 = 0;
    int running = 0;

    const char *op_name(uint32_t c) override {
        static const char *n[] = {"make", "unmake", "use", "stack_pool", "sweep"};
        return n[c % NOPS];
    }
    const char *real_parts() override {
        return "every provider and pool of the build (OS, file, device-DAX, fixed, "
               "Level Zero; disjoint, proxy, scalable), tracker, memspaces, "
               "policies, base allocator, TBB malloc, hwloc";
    }
    const char *stub_parts() override {
        return "upstream provider, thin pool, Level Zero driver, OS calls";
    }
    void generate(Rng &r, Program &p, bool thorough) override {
        log_cfg(r, p, 12);
        int nt = r.chance(3, 5) ? 1 : (int)r.range(2, 3);
        p.cfg["warm"] = r.chance(3, 4);
        bool few = r.chance(1, 3);
        int kinds[2] = {(int)r.below(NKIND), (int)r.below(NKIND)};
        for (int t = 1; t <= nt; t++) {
            int k = (int)(few ? r.range(1, 3) : r.range(3, thorough ? 24 : 12));
            for (int i = 0; i < k; i++) {
                unsigned x = (unsigned)r.below(100);
                if (nt == 1 && (few || i == 0) && r.chance(few ? 2 : 1, 3)) {
                    // a creation repeated with each of its calls failing
                    p.cfg["warm"] = 1;
                    p.add(1, SWEEP, (int64_t)r.below(NS), (int64_t)r.below(NKIND + NPOOL),
                          (int64_t)r.next(), r.chance(2, 3) ? 0 : (int64_t)r.range(1, 3),
                          (int64_t)r.below(4));
                    continue;
                }
                int c = i == 0 ? MAKE : x < 40 ? MAKE : x < 55 ? UNMAKE : x < 75 ? USE : STACK;
                p.add((uint32_t)t, (uint32_t)c, (int64_t)r.below(NS),
                      c == MAKE ? (few ? kinds[r.below(2)] : (int64_t)r.below(NKIND))
                                : (int64_t)r.below(NPOOL),
                      (int64_t)r.next(), (int64_t)r.below(NS), (int64_t)r.below(NS));
            }
        }
        if (!r.chance(17, 20))
            return;
        static const std::vector<Fault> kf = {
            F_META,     F_META,  F_META,     F_BAMMAP,    F_MMAP,      F_MMAP_FILE,
            F_OPEN,     F_CLOSE, F_STAT,     F_FTRUNC,    F_FALLOC,    F_MUTEXINIT,
            F_MUTEXINIT, F_TOPOLOGY, F_PROV_INIT, F_PROV_ALLOC, F_PROV_QUERY, F_MEMBIND,
            F_DLOPEN,   F_DRIVER};
        if (r.chance(2, 3)) { // exactly the n-th call of one kind fails
            static const std::vector<Fault> by[NKIND] = {
                {F_META, F_PROV_INIT},
                {F_META, F_MUTEXINIT, F_TOPOLOGY, F_OPEN, F_FTRUNC, F_MEMBIND, F_MMAP},
                {F_META, F_MUTEXINIT, F_OPEN, F_STAT, F_FALLOC, F_MMAP_FILE, F_CLOSE},
                {F_META, F_MUTEXINIT, F_OPEN, F_STAT, F_MMAP_FILE, F_CLOSE},
                {F_META, F_MUTEXINIT},
                {F_META},
                {F_META},
                {F_META, F_TOPOLOGY, F_MUTEXINIT, F_MEMBIND},
                {F_META, F_MUTEXINIT},
                {F_META, F_DRIVER, F_MUTEXINIT, F_DLOPEN}};
            int k = kinds[r.below(2)];
            if (!few)
                k = (int)r.below(NKIND);
            Fault ff = r.chance(1, 3) ? r.pick(kf) : r.pick(by[k]);
            std::string f = fault_name[ff];
            p.cfg["fmax"] = 1 + (int64_t)r.below(3);
            p.cfg["fshot." + f] = ff == F_META || ff == F_MUTEXINIT
                                    ? (few ? r.range(1, 30) : r.range(1, 90))
                                    : (few ? r.range(1, 5) : r.range(1, 25));
            p.cfg["fburst." + f] = r.chance(1, 4) ? r.range(1, 3) : 0;
        } else
            pick_faults(r, p, kf, 100);
    }
    void setup(const Program &p) override {
        meta_oracle(true);
        prog = p;
        loader_install();
        multi = p.ntasks > 1;
        for (int i = 0; i < NS + 2; i++) {
            char n[64];
            snprintf(n, sizeof n, "/mnt/f%d", i);
            os::set_map_sync(os::create_file(n, 0, false), i & 1);
            snprintf(n, sizeof n, "/dev/dax0.%d", i);
            os::create_file(n, 8ull << 21, true);
        }
        base = baseline();
        log_setup(p);
        lib_init();
        warm = p.get("warm");
        if (warm) { // what is created once per process exists already
            umfMemspaceHostAllGet();
            umfMemspaceHighestCapacityGet();
            umfMemspaceLowestLatencyGet();
            umfMemspaceHighestBandwidthGet();
            std::set<int> need = {K_SIM};
            bool scalable = false;
            for (auto &op : p.ops)
                if (op.code % NOPS == SWEEP) {
                    int k = (int)((uint64_t)op.a[1] % (NKIND + NPOOL));
                    if (k < NKIND)
                        need.insert(k);
                    else
                        need.insert(K_OS), scalable |= k - NKIND == P_SCALABLE;
                } else if (op.code % NOPS == MAKE)
                    need.insert((int)((uint64_t)op.a[1] % NKIND));
                else if (op.code % NOPS == STACK)
                    scalable |= (uint64_t)op.a[1] % NPOOL == P_SCALABLE;
            for (int k : need) {
                Rng r(5);
                make(s[0], 0, k, r);
                if (s[0].h && k == K_SIM)
                    for (int q = P_SCALABLE; q < P_SCALABLE + scalable; q++) {
                        Rng r2(5);
                        stack(s[1], 1, 0, q, r2, -1);
                        drop(s[1], 1);
                    }
                drop(s[0], 0);
            }
        }
        sticky0 = faults_fired_kind(F_TOPOLOGY) + faults_fired_kind(F_DLOPEN);
    }
    // something remembered until the next teardown has failed
    bool sticky() {
        return !warm && faults_fired();
    }
    // -------------------------------------------------------------- create
    // result of the whole creation; `invalid`: the arguments must be refused
    umf_result_t make(Obj &o, int slot, int kind, Rng &r, bool *invalid = nullptr) {
        bool dummy;
        if (!invalid)
            invalid = &dummy;
        *invalid = false;
        o.kind = kind;
        o.page = 4096;
        char path[64];
        switch (kind) {
        case K_SIM: {
            provs.emplace_back();
            o.sim = &provs.back();
            o.sim->strict = true;
            return umfMemoryProviderCreate(provider_ops(), o.sim, &o.h);
        }
        case K_OS:
            return make_os(o, slot, r, invalid);
        case K_FILE: {
            snprintf(path, sizeof path, "/mnt/f%d", slot);
            std::string q = path;
            int bad = (int)r.below(12);
            if (bad == 0)
                q = "/mnt/" + std::string(5000, 'x'), *invalid = true;
            if (bad == 1)
                q = "/nowhere/at/all", *invalid = false;
            umf_file_memory_provider_params_handle_t pr = nullptr;
            umf_result_t x = umfFileMemoryProviderParamsCreate(&pr, q.c_str());
            if (x)
                return x;
            bool shared = (slot & 1) || r.chance(1, 2);
            if (slot & 1)
                o.page = 2u << 20;
            x = umfFileMemoryProviderParamsSetVisibility(
                pr, shared ? UMF_MEM_MAP_SHARED : UMF_MEM_MAP_PRIVATE);
            if (!x && r.chance(1, 3)) // a path set again replaces the first
                x = umfFileMemoryProviderParamsSetPath(pr, q.c_str());
            if (!x)
                x = umfMemoryProviderCreate(umfFileMemoryProviderOps(), pr, &o.h);
            umfFileMemoryProviderParamsDestroy(pr);
            if (bad == 1 && x == UMF_RESULT_SUCCESS) {
                // a file that did not exist is created
            }
            return x;
        }
        case K_DEVDAX: {
            snprintf(path, sizeof path, "/dev/dax0.%d", slot);
            o.page = 2u << 20;
            size_t n = (2u << 20) * (size_t)r.range(1, 8);
            int bad = (int)r.below(12);
            if (bad == 0)
                snprintf(path, sizeof path, "/dev/dax9.%d", slot), *invalid = true;
            umf_devdax_memory_provider_params_handle_t pr = nullptr;
            umf_result_t x = umfDevDaxMemoryProviderParamsCreate(&pr, path, n);
            if (x)
                return x;
            if (r.chance(1, 3))
                x = umfDevDaxMemoryProviderParamsSetDeviceDax(pr, path, n);
            if (!x)
                x = umfMemoryProviderCreate(umfDevDaxMemoryProviderOps(), pr, &o.h);
            umfDevDaxMemoryProviderParamsDestroy(pr);
            return x;
        }
        case K_FIXED: {
            size_t n = 4096 * (size_t)r.range(1, 64);
            o.region = os::reserve(n, 4096);
            o.region_size = n;
            umf_fixed_memory_provider_params_handle_t pr = nullptr;
            umf_result_t x = umfFixedMemoryProviderParamsCreate(&pr, o.region, n);
            if (x)
                return x;
            if (r.chance(1, 3))
                x = umfFixedMemoryProviderParamsSetMemory(pr, o.region, n);
            if (!x)
                x = umfMemoryProviderCreate(umfFixedMemoryProviderOps(), pr, &o.h);
            umfFixedMemoryProviderParamsDestroy(pr);
            return x;
        }
        case K_MEMSPACE:
            return make_memspace(o, r);
        case K_POLICY: {
            static const umf_mempolicy_membind_t t[] = {
                UMF_MEMPOLICY_INTERLEAVE, UMF_MEMPOLICY_BIND, UMF_MEMPOLICY_PREFERRED,
                UMF_MEMPOLICY_SPLIT};
            int b = (int)r.below(4);
            umf_result_t x = umfMempolicyCreate(t[b], &o.pol);
            if (x)
                return x;
            if (b == 0)
                x = umfMempolicySetInterleavePartSize(o.pol, 4096);
            if (b == 3) {
                o.parts[0].weight = 1;
                o.parts[0].target = 0;
                o.parts[1].weight = 2;
                o.parts[1].target = 1;
                x = umfMempolicySetCustomSplitPartitions(o.pol, o.parts, 2);
            }
            if (x)
                violate("policy", "setting up a policy failed (%s)", res_name(x));
            return x;
        }
        case K_FROMMS: {
            Obj ms, pol;
            umf_result_t x = UMF_RESULT_SUCCESS;
            umf_const_memspace_handle_t m = nullptr;
            bool pre = r.chance(1, 2);
            uint64_t f0 = faults_fired();
            if (pre) {
                m = r.chance(1, 2) ? umfMemspaceHostAllGet() : umfMemspaceHighestCapacityGet();
                if (!m) {
                    if (faults_fired() == f0 && !sticky())
                        violate("no-memspace", "no predefined memspace without faults");
                    return UMF_RESULT_ERROR_UNKNOWN;
                }
            } else {
                x = make_memspace(ms, r);
                m = ms.ms;
            }
            bool split = false;
            if (!x && r.chance(1, 2)) {
                Rng r2(r.next());
                x = make(pol, slot, K_POLICY, r2);
                split = true;
            }
            if (!x)
                x = umfMemoryProviderCreateFromMemspace(m, pol.pol, &o.h);
            (void)split;
            // partitions that name a node outside the memspace are refused
            if (x == UMF_RESULT_ERROR_INVALID_ARGUMENT && pol.pol &&
                umfMemspaceMemtargetNum(m) < 2)
                *invalid = true;
            if (x == UMF_RESULT_ERROR_INVALID_ARGUMENT && pol.pol &&
                m == umfMemspaceHighestCapacityGet())
                *invalid = true;
            if (pol.pol)
                umfMempolicyDestroy(pol.pol);
            if (ms.ms)
                umfMemspaceDestroy(ms.ms);
            return x;
        }
        case K_LIMITS:
            o.lim = umfDisjointPoolSharedLimitsCreate((size_t)1 << 24);
            return o.lim ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
        case K_ZE: {
            umf_level_zero_memory_provider_params_handle_t pr = nullptr;
            umf_result_t x = umfLevelZeroMemoryProviderParamsCreate(&pr);
            if (x)
                return x;
            umfLevelZeroMemoryProviderParamsSetContext(pr, (ze_context_handle_t)0x1000);
            bool dev = r.chance(1, 2);
            x = umfLevelZeroMemoryProviderParamsSetMemoryType(
                pr, dev ? UMF_MEMORY_TYPE_DEVICE : UMF_MEMORY_TYPE_HOST);
            if (!x && dev)
                x = umfLevelZeroMemoryProviderParamsSetDevice(pr, (ze_device_handle_t)0x2000);
            if (!x && dev && r.chance(1, 2)) {
                ze_device_handle_t d[2] = {(ze_device_handle_t)0x2000,
                                           (ze_device_handle_t)0x2010};
                x = umfLevelZeroMemoryProviderParamsSetResidentDevices(pr, d, 2);
            }
            if (!x)
                x = umfMemoryProviderCreate(umfLevelZeroMemoryProviderOps(), pr, &o.h);
            umfLevelZeroMemoryProviderParamsDestroy(pr);
            o.page = 65536;
            return x;
        }
        }
        return UMF_RESULT_ERROR_UNKNOWN;
    }
    umf_result_t make_os(Obj &o, int slot, Rng &r, bool *invalid) {
        umf_os_memory_provider_params_handle_t pr = nullptr;
        umf_result_t x = umfOsMemoryProviderParamsCreate(&pr);
        if (x)
            return x;
        static const umf_numa_mode_t modes[] = {
            UMF_NUMA_MODE_DEFAULT,   UMF_NUMA_MODE_BIND,  UMF_NUMA_MODE_INTERLEAVE,
            UMF_NUMA_MODE_PREFERRED, UMF_NUMA_MODE_SPLIT, UMF_NUMA_MODE_LOCAL};
        umf_numa_mode_t mode = r.chance(2, 5) ? UMF_NUMA_MODE_DEFAULT : modes[r.below(6)];
        int vis = (int)r.below(4); // 2: shared, 3: shared with a name
        unsigned list[2] = {0, 1};
        unsigned ln = (unsigned)r.range(1, 2);
        bool has_list = mode != UMF_NUMA_MODE_DEFAULT && mode != UMF_NUMA_MODE_LOCAL &&
                        !(mode == UMF_NUMA_MODE_PREFERRED && r.chance(1, 2));
        if (r.chance(1, 12)) { // wrong combination
            if (mode != UMF_NUMA_MODE_PREFERRED) {
                has_list = !has_list;
                *invalid = true;
            }
        }
        if (vis >= 2 && mode != UMF_NUMA_MODE_DEFAULT)
            *invalid = true; // documented as not supported
        if (vis >= 2)
            x = umfOsMemoryProviderParamsSetVisibility(pr, UMF_MEM_MAP_SHARED);
        char name[300];
        snprintf(name, sizeof name, "c19s%d", slot);
        if (vis == 3 && r.chance(1, 10)) {
            memset(name, 'n', 280);
            name[280] = 0;
            *invalid = true;
        }
        if (!x && vis == 3)
            x = umfOsMemoryProviderParamsSetShmName(pr, name);
        if (!x && vis == 3 && r.chance(1, 3))
            x = umfOsMemoryProviderParamsSetShmName(pr, name);
        if (!x)
            x = umfOsMemoryProviderParamsSetNumaMode(pr, mode);
        if (!x && has_list)
            x = umfOsMemoryProviderParamsSetNumaList(pr, list, ln);
        if (!x && has_list && r.chance(1, 3)) { // set again: replaces
            x = umfOsMemoryProviderParamsSetNumaList(pr, list, ln);
        }
        if (!x && mode == UMF_NUMA_MODE_INTERLEAVE && r.chance(2, 3))
            x = umfOsMemoryProviderParamsSetPartSize(pr, (size_t)r.range(1, 20000));
        if (!x && mode == UMF_NUMA_MODE_SPLIT && has_list && r.chance(2, 3)) {
            umf_numa_split_partition_t pt[3] = {{1, 0}, {(unsigned)r.range(1, 4), 0},
                                                {2, 0}};
            pt[1].target = ln - 1;
            unsigned k = (unsigned)r.range(1, 3);
            if (r.chance(1, 8))
                pt[0].target = 7, *invalid = true;
            else if (r.chance(1, 8))
                pt[k - 1].weight = 0, *invalid = true;
            x = umfOsMemoryProviderParamsSetPartitions(pr, pt, k);
            if (!x && r.chance(1, 3))
                x = umfOsMemoryProviderParamsSetPartitions(pr, pt, k);
        }
        if (!x)
            x = umfMemoryProviderCreate(umfOsMemoryProviderOps(), pr, &o.h);
        umfOsMemoryProviderParamsDestroy(pr);
        return x;
    }
    umf_result_t make_memspace(Obj &o, Rng &r) {
        unsigned both[2] = {0, 1}, one[1] = {(unsigned)r.below(2)};
        umf_result_t x;
        switch (r.below(3)) {
        case 0: {
            bool two = r.chance(1, 2);
            o.ids = two ? std::vector<unsigned>{0, 1} : std::vector<unsigned>{one[0]};
            return umfMemspaceCreateFromNumaArray(two ? both : one, two ? 2 : 1, &o.ms);
        }
        case 1: {
            o.ids = {0, 1};
            uint64_t f0 = faults_fired();
            umf_const_memspace_handle_t m = umfMemspaceHostAllGet();
            if (!m) {
                if (faults_fired() == f0 && !sticky())
                    violate("no-memspace", "no predefined memspace without faults");
                return UMF_RESULT_ERROR_UNKNOWN;
            }
            x = umfMemspaceClone(m, &o.ms);
            if (x || r.chance(1, 2))
                return x;
            unsigned id = one[0];
            o.ids = {id};
            x = umfMemspaceFilterById(o.ms, &id, 1);
            if (x) {
                umfMemspaceDestroy(o.ms);
                o.ms = nullptr;
            }
            return x;
        }
        default: {
            Obj src;
            x = umfMemspaceNew(&o.ms);
            if (x)
                return x;
            x = umfMemspaceCreateFromNumaArray(both, 2, &src.ms);
            o.ids.clear();
            for (unsigned i = 0; i < 2 && !x; i++) {
                x = umfMemspaceMemtargetAdd(o.ms, umfMemspaceMemtargetGet(src.ms, i));
                if (!x)
                    o.ids.push_back(i);
            }
            if (umfMemspaceMemtargetNum(o.ms) != o.ids.size())
                violate("memspace", "%zu targets in a memspace after %zu were added",
                        umfMemspaceMemtargetNum(o.ms), o.ids.size());
            if (src.ms)
                umfMemspaceDestroy(src.ms);
            if (x) {
                umfMemspaceDestroy(o.ms);
                o.ms = nullptr;
            }
            return x;
        }
        }
    }
    // a pool in slot o over the provider of slot b
    umf_result_t stack(Obj &o, int slot, int b, int kind, Rng &r, int limslot) {
        (void)slot;
        o.kind = -1;
        o.pool = kind;
        o.below = b;
        Obj &bo = s[b];
        umf_pool_create_flags_t fl = 0;
        o.tracked = true;
        o.own = r.chance(2, 5) && bo.users <= 1;
        if (kind == P_THIN && bo.kind == K_SIM && r.chance(2, 5))
            o.tracked = false, fl |= UMF_POOL_CREATE_FLAG_DISABLE_TRACKING;
        if (o.own)
            fl |= UMF_POOL_CREATE_FLAG_OWN_PROVIDER;
        umf_result_t x;
        switch (kind) {
        case P_THIN:
            thins.emplace_back();
            o.thin = &thins.back();
            x = make_thin_pool(o.thin, bo.h, fl);
            o.q = x ? nullptr : o.thin->h;
            return x;
        case P_PROXY:
            return umfPoolCreate(umfProxyPoolOps(), bo.h, nullptr, fl, &o.q);
        case P_SCALABLE: {
            if (r.chance(1, 3))
                return umfPoolCreate(umfScalablePoolOps(), bo.h, nullptr, fl, &o.q);
            umf_scalable_pool_params_handle_t pr = nullptr;
            x = umfScalablePoolParamsCreate(&pr);
            if (x)
                return x;
            x = umfScalablePoolParamsSetGranularity(pr, 1u << 21);
            if (!x)
                x = umfScalablePoolParamsSetKeepAllMemory(pr, r.chance(1, 2));
            if (!x)
                x = umfPoolCreate(umfScalablePoolOps(), bo.h, pr, fl, &o.q);
            umfScalablePoolParamsDestroy(pr);
            return x;
        }
        default: {
            umf_disjoint_pool_params_handle_t pr = nullptr;
            x = umfDisjointPoolParamsCreate(&pr);
            if (x)
                return x;
            if (r.chance(1, 2))
                x = umfDisjointPoolParamsSetSlabMinSize(pr, 4096u << r.below(5));
            if (!x && r.chance(1, 2))
                x = umfDisjointPoolParamsSetMinBucketSize(pr, (size_t)8 << r.below(7));
            if (!x && r.chance(1, 2))
                x = umfDisjointPoolParamsSetMaxPoolableSize(pr, (size_t)r.range(64, 100000));
            if (!x && r.chance(1, 2))
                x = umfDisjointPoolParamsSetCapacity(pr, (size_t)r.below(5));
            if (!x && r.chance(1, 3))
                x = umfDisjointPoolParamsSetName(pr, "c19");
            if (!x && limslot >= 0)
                x = umfDisjointPoolParamsSetSharedLimits(pr, s[limslot].lim);
            if (x)
                violate("params", "setting a pool parameter failed (%s)", res_name(x));
            x = umfPoolCreate(umfDisjointPoolOps(), bo.h, pr, fl, &o.q);
            umfDisjointPoolParamsDestroy(pr);
            return x;
        }
        }
    }
    void drop(Obj &o, int slot) {
        (void)slot;
        if (o.q) {
            umfPoolDestroy(o.q);
            o.q = nullptr;
            if (o.below >= 0) {
                Obj &b = s[o.below];
                if (o.own)
                    b.h = nullptr;
            }
        }
        if (o.h)
            umfMemoryProviderDestroy(o.h);
        if (o.kind == K_SIM && o.sim && (o.sim->alive || !o.sim->live.empty()))
            if (o.sim->alive)
                violate("not-finalised", "a provider was destroyed but not finalised");
        if (o.ms)
            umfMemspaceDestroy(o.ms);
        if (o.pol)
            umfMempolicyDestroy(o.pol);
        if (o.lim)
            umfDisjointPoolSharedLimitsDestroy(o.lim);
        if (o.region)
            os::release(o.region, o.region_size);
        bool busy = o.busy;
        o.clear();
        o.busy = busy;
    }
    void no_shm(int slot, const char *what) {
        char n[32];
        snprintf(n, sizeof n, "shm:c19s%d", slot);
        if (os::inode_of_path(n) >= 0)
            violate("leak:shm", "%s left its named shared memory object behind", what);
    }
    // -------------------------------------------------------------- use
    void must(bool cond, uint64_t f0, const char *what, int x) {
        if (!cond && faults_fired() == f0)
            violate("not-working", "%s failed (%s) on a created object without any "
                                   "fault", what, res_name(x));
    }
    void use(Obj &o, int slot, Rng &r) {
        uint64_t f0 = faults_fired();
        if (o.q) {
            void *v[4];
            size_t sz[4];
            int n = (int)r.range(1, 4);
            Obj &b = s[o.below];
            bool tiny = b.kind == K_FIXED || b.kind == K_DEVDAX;
            for (int i = 0; i < n; i++) {
                sz[i] = r.chance(1, 3) ? r.below(40000) + 1 : r.below(300) + 1;
                v[i] = umfPoolMalloc(o.q, sz[i]);
                if (!v[i]) {
                    if (!tiny)
                        must(false, f0, "umfPoolMalloc",
                             umfPoolGetLastAllocationError(o.q));
                    continue;
                }
                fill(v[i], sz[i], (uintptr_t)v[i]);
                if (o.tracked && umfPoolByPtr(v[i]) != o.q)
                    violate("lookup", "%p does not resolve to its pool", v[i]);
            }
            for (int i = 0; i < n; i++) {
                if (!v[i])
                    continue;
                if (verify(v[i], sz[i], (uintptr_t)v[i]) >= 0)
                    violate("corrupt", "block %p changed", v[i]);
                umf_result_t x = umfPoolFree(o.q, v[i]);
                must(x == UMF_RESULT_SUCCESS, f0, "umfPoolFree", x);
            }
            return;
        }
        if (o.h) {
            size_t n = o.page * (size_t)r.range(1, o.kind == K_OS ? 6 : 1);
            void *p = nullptr;
            umf_result_t x = umfMemoryProviderAlloc(o.h, n, 0, &p);
            must(x == UMF_RESULT_SUCCESS || (o.users && (o.kind == K_FIXED || o.kind == K_DEVDAX)),
                 f0, "umfMemoryProviderAlloc", x);
            if (!x) {
                if (o.kind != K_ZE) {
                    fill(p, n, (uintptr_t)p);
                    if (verify(p, n, (uintptr_t)p) >= 0)
                        violate("corrupt", "block %p changed", p);
                }
                x = umfMemoryProviderFree(o.h, p, n);
                if (o.kind == K_FILE || o.kind == K_DEVDAX || o.kind == K_FIXED)
                    x = x == UMF_RESULT_ERROR_NOT_SUPPORTED ? UMF_RESULT_SUCCESS : x;
                must(x == UMF_RESULT_SUCCESS, f0, "umfMemoryProviderFree", x);
                if (x && o.sim)
                    o.sim->strict = false;
            }
            return;
        }
        if (o.ms) {
            if (umfMemspaceMemtargetNum(o.ms) != o.ids.size())
                violate("memspace", "the memspace has %zu targets, not %zu",
                        umfMemspaceMemtargetNum(o.ms), o.ids.size());
            std::set<unsigned> got;
            for (unsigned i = 0; i < o.ids.size(); i++) {
                unsigned id = 99;
                size_t cap = 0;
                umf_const_memtarget_handle_t t = umfMemspaceMemtargetGet(o.ms, i);
                if (umfMemtargetGetId(t, &id))
                    violate("memspace", "target %u has no id", i);
                got.insert(id);
                if (!sticky()) {
                    umf_result_t x = umfMemtargetGetCapacity(t, &cap);
                    must(x == UMF_RESULT_SUCCESS && cap, f0, "umfMemtargetGetCapacity", x);
                }
            }
            if (got != std::set<unsigned>(o.ids.begin(), o.ids.end()))
                violate("memspace", "the memspace does not have the targets asked for");
            return;
        }
        (void)slot;
    }
    // -------------------------------------------------------------- ops
    // one creation; on success the object is checked, on failure the state
    template <class F> void attempt(const char *what, Obj &o, int slot, F create) {
        Baseline b = baseline();
        int libs = loader_open_count();
        uint64_t f0 = faults_fired();
        std::map<Provider *, size_t> held;
        if (!multi)
            for (auto &p : provs)
                held[&p] = p.live.size();
        bool invalid = false;
        umf_result_t x = create(&invalid);
        if (!valid_result(x))
            violate("result", "creating %s returned %d", what, (int)x);
        bool have = o.h || o.q || o.ms || o.pol || o.lim;
        if (x == UMF_RESULT_SUCCESS) {
            if (!have)
                violate("success-without-object", "creating %s succeeded without "
                                                  "giving an object", what);
            if (invalid)
                violate("accepted", "creating %s succeeded with arguments that are "
                                    "documented as invalid", what);
            probe("created");
            return;
        }
        // failed
        bool faulted = faults_fired() != f0;
        if (!faulted && !invalid && !sticky())
            violate("create-failed", "creating %s failed (%s) without any fault", what,
                    res_name(x));
        if (faulted)
            probe("creation failed by a fault");
        else if (invalid)
            probe("creation refused for its arguments");
        if (have)
            violate("failed-with-object", "creating %s failed (%s) and gave an object",
                    what, res_name(x));
        reset(o);
        no_shm(slot, what);
        if (multi || !warm)
            return;
        check_no_leak(b, what);
        if (loader_open_count() != libs)
            violate("leak:library", "%s left a library open", what);
        for (auto &p : provs)
            if (p.live.size() != held[&p] || (p.alive && !known_alive(p)))
                violate("leak:provider", "%s left memory or a provider behind", what);
    }
    bool known_alive(Provider &p) {
        for (auto &o : s)
            if (o.sim == &p && (o.h || o.users))
                return true;
        for (auto &o : s) // owned by a pool
            if (o.sim == &p)
                return true;
        return false;
    }
    void reset(Obj &o) {
        if (o.region)
            os::release(o.region, o.region_size);
        Provider *sp = o.sim;
        (void)sp;
        bool busy = o.busy;
        o.clear();
        o.busy = busy;
    }
    static const char *kname(int k) {
        static const char *n[] = {"a user provider", "an OS provider", "a file provider",
                                  "a device-DAX provider", "a fixed provider",
                                  "a memspace", "a policy", "a provider from a memspace",
                                  "shared limits", "a Level Zero provider"};
        return n[k];
    }
    static const char *pname(int k) {
        static const char *n[] = {"a user pool", "a proxy pool", "a disjoint pool",
                                  "a scalable pool"};
        return n[k];
    }
    void exec(const Op &op) override {
        int i = (int)((uint64_t)op.a[0] % NS);
        Obj &o = s[i];
        if (o.busy)
            return;
        o.busy = true;
        running++;
        step(op, i, o);
        running--;
        o.busy = false;
    }
    bool empty(Obj &o) { return o.kind < 0 && o.pool < 0; }
    void step(const Op &op, int i, Obj &o) {
        Rng r((uint64_t)op.a[2]);
        uint64_t seed = r.next();
        switch (op.code % NOPS) {
        case MAKE: {
            int k = (int)((uint64_t)op.a[1] % NKIND);
            if (!empty(o))
                break;
            attempt(kname(k), o, i, [&](bool *inv) {
                Rng q(seed);
                return make(o, i, k, q, inv);
            });
            if (empty(o))
                retry(kname(k), o, i, [&](bool *inv) {
                    Rng q(seed);
                    return make(o, i, k, q, inv);
                });
            if (!empty(o)) {
                Rng q(seed ^ 1);
                use(o, i, q);
            }
            break;
        }
        case STACK: {
            int b = (int)((uint64_t)op.a[3] % NS), l = (int)((uint64_t)op.a[4] % NS);
            int k = (int)((uint64_t)op.a[1] % NPOOL);
            if (!empty(o) || b == i || s[b].busy || !s[b].h || s[b].kind == K_ZE)
                break;
            // a pool that owns a provider must be its only user
            bool own_ok = s[b].users == 0;
            if (s[b].kind == K_FIXED && k == P_SCALABLE)
                break; // too small for the scalable pool's granularity
            if (s[b].kind == K_DEVDAX && k == P_SCALABLE)
                break;
            if (s[b].kind == K_FILE && k == P_SCALABLE)
                break; // needs a provider that supports free()
            if (s[b].page > 4096 && k == P_DISJOINT)
                break;
            if (!own_ok && owned(b))
                break;
            if (l == i || l == b || !s[l].lim || s[l].busy)
                l = -1;
            s[b].busy = true;
            s[b].users++;
            if (l >= 0)
                s[l].users++;
            bool keep = false;
            auto f = [&](bool *) {
                Rng q(seed);
                return stack(o, i, b, k, q, k == P_DISJOINT ? l : -1);
            };
            attempt(pname(k), o, i, f);
            if (empty(o))
                retry(pname(k), o, i, f);
            keep = !empty(o);
            if (keep) {
                limit_of[i] = l;
                Rng q(seed ^ 1);
                use(o, i, q);
            } else {
                s[b].users--;
                if (l >= 0)
                    s[l].users--;
                // the provider is still the caller's and works
                Rng q(seed ^ 2);
                if (s[b].users == 0)
                    use(s[b], b, q);
            }
            s[b].busy = false;
            break;
        }
        case USE:
            if (!empty(o) && !(o.h && o.users)) {
                Rng q(seed);
                use(o, i, q);
            }
            break;
        case SWEEP: {
            if (!empty(o) || multi || !warm)
                break;
            sweep(o, i, (int)((uint64_t)op.a[1] % (NKIND + NPOOL)), seed, op);
            break;
        }
        case UNMAKE:
            if (empty(o) || o.users)
                break;
            unmake(i);
            break;
        }
    }
    bool owned(int b) {
        for (auto &o : s)
            if (o.q && o.below == b && o.own)
                return true;
        return false;
    }
    void sweep(Obj &o, int i, int k, uint64_t seed, const Op &op) {
        int b = NS;
        const char *what = k < NKIND ? kname(k) : pname(k - NKIND);
        auto below = [&] {
            for (uint64_t n = 0; !s[b].h; n++) {
                Rng q(mix64(seed, n));
                make(s[b], b, op.a[4] & 1 ? K_OS : K_SIM, q);
                if (!s[b].h)
                    reset(s[b]);
            }
            // one user: the pool may own it; two: it stays when the pool goes
            s[b].users = seed >> 40 & 1 ? 1 : 2;
        };
        if (k >= NKIND) { // over a provider and limits of its own
            faults_enable(false);
            below();
            if (op.a[4] & 2) {
                Rng q(seed);
                make(s[NS + 1], NS + 1, K_LIMITS, q);
            }
            faults_enable(true);
        }
        Baseline b0 = baseline();
        uint32_t n, burst = (uint32_t)((uint64_t)op.a[3] % 4);
        // (what the system refuses to unmap or take back has to stay)
        const uint64_t mask = ((1ull << F_N) - 1) &
                              ~(1ull << F_MUNMAP | 1ull << F_PROV_FREE | 1ull << F_IPC_PUT |
                                1ull << F_IPC_CLOSE);
        for (n = 1; n < 400; n++) {
            bool bad = false;
            attempt(what, o, i, [&](bool *inv) {
                Rng q(seed);
                fault_arm(mask, n, burst);
                umf_result_t x =
                    k < NKIND ? make(o, i, k, q, inv)
                              : stack(o, i, b, k - NKIND, q,
                                      k - NKIND == P_DISJOINT && s[NS + 1].lim ? NS + 1 : -1);
                fault_arm(0, 0, 0);
                bad = *inv;
                return x;
            });
            uint32_t hits = fault_arm_hits();
            if (!empty(o)) {
                faults_enable(false);
                Rng q(seed ^ n);
                use(o, i, q);
                drop(o, i);
                if (k >= NKIND && !s[b].h) { // the pool owned it
                    if (s[b].sim && s[b].sim->alive)
                        violate("not-finalised", "the provider owned by a pool outlived it");
                    reset(s[b]);
                    below();
                }
                faults_enable(true);
            } else if (k >= NKIND) { // still the caller's, and works
                faults_enable(false);
                Rng q(seed ^ n);
                if (s[b].sim && !s[b].sim->alive)
                    violate("finalised", "a failed creation of %s destroyed the caller's "
                                         "provider", what);
                use(s[b], b, q);
                faults_enable(true);
            }
            // (the tracker keeps some nodes of what was removed from it)
            check_no_leak(b0, what, k < NKIND && k != K_SIM);
            if (!hits) {
                probe("every call of a creation failed once");
                break;
            }
            (void)bad;
        }
        if (n >= 400)
            probe("creation with more than 400 calls");
        if (k >= NKIND) {
            faults_enable(false);
            s[b].users = 0;
            Rng q(seed);
            use(s[b], b, q);
            drop(s[b], b);
            if (s[NS + 1].lim)
                drop(s[NS + 1], NS + 1);
            faults_enable(true);
        }
    }
    std::map<int, int> limit_of;
    // once nothing fails any more the same creation succeeds
    template <class F> void retry(const char *what, Obj &o, int slot, F create) {
        (void)slot;
        if (multi || !warm)
            return;
        faults_enable(false);
        uint64_t f0 = faults_fired();
        bool invalid = false;
        umf_result_t x = create(&invalid);
        faults_enable(true);
        if (invalid) {
            if (x == UMF_RESULT_SUCCESS)
                violate("accepted", "creating %s succeeded with arguments that are "
                                    "documented as invalid", what);
            reset(o);
            return;
        }
        if (x != UMF_RESULT_SUCCESS)
            violate("retry-failed", "creating %s again, without any fault, failed (%s)",
                    what, res_name(x));
        (void)f0;
        probe("created again after a failure");
    }
    void unmake(int i) {
        Obj &o = s[i];
        int b = o.q ? o.below : -1, l = -1;
        bool own = o.own && o.q;
        if (o.q && limit_of.count(i)) {
            l = limit_of[i];
            limit_of.erase(i);
        }
        if (b >= 0) {
            if (s[b].busy && own)
                return; // someone uses the provider
            s[b].busy = own ? true : s[b].busy;
        }
        drop(o, i);
        if (b >= 0) {
            if (own)
                s[b].busy = false;
            s[b].users--;
            if (own) { // its provider went with it
                s[b].h = nullptr;
                if (s[b].region)
                    os::release(s[b].region, s[b].region_size);
                if (s[b].sim && s[b].sim->alive)
                    violate("not-finalised", "the provider owned by a pool outlived it");
                s[b].clear();
            }
        }
        if (l >= 0)
            s[l].users--;
    }
    void finish() override {
        for (int i = 0; i < NS; i++)
            s[i].busy = false;
        for (int i = 0; i < NS; i++)
            if (!empty(s[i]) && !(s[i].h && s[i].users)) {
                Rng r(3);
                use(s[i], i, r);
            }
        for (int i = 0; i < NS; i++)
            if (s[i].q)
                unmake(i);
        for (int i = 0; i < NS; i++)
            if (!empty(s[i]))
                drop(s[i], i);
        for (int i = 0; i < NS; i++)
            no_shm(i, "a destroyed provider");
        umfTearDown();
        check_no_leak(base, "the run");
        if (loader_open_count())
            violate("leak:library", "a library is still open after teardown");
        for (auto &p : provs) {
            if (p.alive)
                violate("leak:provider", "a provider was never finalised");
            if (!p.live.empty() && p.strict && !faults_fired())
                violate("leak:provider", "%zu blocks were not given back", p.live.size());
        }
        // and everything can be created after all
        lib_init();
        std::set<int> kinds;
        for (auto &op : prog.ops)
            if (op.code % NOPS == MAKE)
                kinds.insert((int)((uint64_t)op.a[1] % NKIND));
        for (int k : kinds) {
            Rng r(mix64(prog.ops.size(), (uint64_t)k));
            bool inv = false;
            umf_result_t x = make(s[0], 0, k % NKIND, r, &inv);
            if (x && inv)
                reset(s[0]);
            else if (x)
                violate("retry-failed", "creating %s after the faults failed (%s)",
                        kname(k % NKIND), res_name(x));
            Rng q(6);
            use(s[0], 0, q);
            drop(s[0], 0);
        }
        umfTearDown();
        check_no_leak(base, "the last cycle");
    }
};
SIM_SCENARIO("C19.create", Create)
} // namespace
