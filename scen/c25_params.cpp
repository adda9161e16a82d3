// C25: parameter objects. Random sequences of setter calls (valid and invalid
// values, allocation failures inside them) against a model of the object; then
// providers and pools are created from them and what arrives at the simulated
// OS, driver, TBB library or upstream provider has to be what the model says.
#include "stubs.h"
#include <deque>
#include <hwloc.h>
#include <sys/mman.h>
#include <umf/mempolicy.h>
#include <umf/memspace.h>
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_scalable.h>
#include <umf/providers/provider_devdax_memory.h>
#include <umf/providers/provider_file_memory.h>
#include <umf/providers/provider_fixed_memory.h>
#include <umf/providers/provider_level_zero.h>
#include <umf/providers/provider_os_memory.h>
using namespace simx;
namespace {
enum { MAKE, SET, BUILD, DROP, NOPS };
enum { K_OS, K_FILE, K_DAX, K_FIXED, K_ZE, K_DISJ, K_SCAL, K_POL, NKIND };
const size_t MB2 = 2 << 20;
const int NODES = 4;

struct Vals { // what the object has been told (and has accepted)
    unsigned prot = 6;
    int vis = UMF_MEM_MAP_PRIVATE;
    bool has_shm = false;
    std::string shm, path;
    std::vector<unsigned> list;
    int mode = UMF_NUMA_MODE_DEFAULT;
    size_t part = 0;
    std::vector<std::pair<unsigned, unsigned>> parts; // weight, target
    size_t size = 0;
    uintptr_t ptr = 0;
    // Level Zero
    uintptr_t ctx = 0, dev = 0;
    int type = 0, res = -1;
    unsigned nres = 0, policy = 0, ordinal = 0;
    // pools
    size_t slab = 0, maxp = 0, cap = 0, minb = 8, gran = MB2;
    int trace = 0, limits = -1;
    bool keep = false;
    int bind = 0;
};
struct Obj {
    int kind = -1;
    void *h = nullptr;
    Vals v;
    umf_mempolicy_split_partition_t pol_parts[8];
};
const unsigned prots[] = {1, 2, 4, 8, 6, 6, 6, 14, 10, 12, 15, 3, 0, 16, 22, 0x80000000u, ~0u,
                          0x100, 32, 7};

struct Params : Scenario {
    static const int NO = 3; // objects per task
    Obj objs[9][NO];
    ze_device_handle_t resarr[9][NO][2][3];
    void *region[9] = {};
    umf_disjoint_pool_shared_limits_handle_t lim[2] = {};
    std::deque<Provider> ups;
    Baseline base;
    bool ze_gone = false;
    uint64_t ze0 = 0;

    const char *op_name(uint32_t c) override {
        static const char *n[] = {"params_create", "params_set", "create_from", "params_destroy"};
        return n[c % NOPS];
    }
    const char *real_parts() override {
        return "parameter objects and initialisation of the OS, file, device-DAX, fixed and "
               "Level Zero providers, the disjoint and scalable pools, memory policies, flag "
               "translation, metadata allocator";
    }
    const char *stub_parts() override {
        return "OS calls, Level Zero driver, TBB gate, upstream provider";
    }
    void generate(Rng &r, Program &p, bool thorough) override {
        log_cfg(r, p, 15);
        int nt = (int)r.range(1, 3), k = (int)r.range(6, thorough ? 60 : 36);
        int only = r.chance(1, 3) ? -1 : (int)r.below(NKIND);
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < k; i++) {
                unsigned x = (unsigned)r.below(100);
                int c = i < 1 ? MAKE : x < 8 ? MAKE : x < 68 ? SET : x < 95 ? BUILD : DROP;
                p.add((uint32_t)t, (uint32_t)c, (int64_t)r.below(NO),
                      only >= 0 && r.chance(9, 10) ? only : (int64_t)r.below(NKIND),
                      (int64_t)r.below(1 << 20), (int64_t)r.below(1 << 20),
                      (int64_t)r.below(1 << 20), r.chance(1, 3));
            }
        p.cfg["fsdax"] = r.chance(1, 3);
        pick_faults(r, p, {F_META, F_META, F_META, F_BAMMAP, F_MMAP, F_MMAP_FILE, F_OPEN, F_FTRUNC,
                           F_MUTEXINIT, F_DRIVER, F_TOPOLOGY, F_MEMBIND, F_MADVISE}, 60);
    }
    static std::string fpath(int t, int n) {
        return "/params" + std::to_string(t) + "_" + std::to_string(n);
    }
    static std::string dpath(int t, int n) {
        return "/dev/dax" + std::to_string(t) + "." + std::to_string(n);
    }
    void setup(const Program &p) override {
        loader_install();
        std::string t = "package:4 numa:1(memory=1073741824) core:1 pu:1";
        setenv("HWLOC_SYNTHETIC", t.c_str(), 1);
        base = baseline();
        log_setup(p);
        lib_init();
        for (int i = 1; i <= (int)p.ntasks && i < 9; i++) {
            region[i] = os::reserve(8 * MB2, 4096);
            for (int n = 0; n < 2; n++) {
                int ino = os::create_file(dpath(i, n).c_str(), 4 * MB2, true);
                os::set_map_sync(ino, true);
                ino = os::create_file(fpath(i, n).c_str(), MB2, false);
                if (p.get("fsdax"))
                    os::set_map_sync(ino, true);
            }
            base.files += 4;
        }
        ups.resize(9);
        for (auto &u : ups)
            make_provider(&u);
        for (int i = 0; i < 2; i++)
            lim[i] = umfDisjointPoolSharedLimitsCreate(i ? 64 * MB2 : 3 * MB2);
        ze0 = faults_fired_kind(F_DLOPEN);
    }
    // -------------------------------------------------------------- setters
    // the judgement of one setter call: ok = the arguments are documented
    bool judged(const char *what, umf_result_t r, bool ok, uint64_t f0) {
        if (!valid_result(r))
            violate("bad-result", "%s returned %d", what, (int)r);
        if (!ok) {
            if (r == UMF_RESULT_SUCCESS)
                violate("invalid-accepted", "%s accepted an argument outside its documented "
                                            "values", what);
            if (r != UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                !(r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY && faults_fired() != f0))
                violate("wrong-error", "%s refused an invalid argument with %s", what,
                        res_name(r));
            probe("a setter refused an invalid argument");
            return false;
        }
        if (r == UMF_RESULT_SUCCESS)
            return true;
        if (faults_fired() == f0)
            violate("valid-refused", "%s refused a valid argument (%s) without any fault", what,
                    res_name(r));
        if (r != UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY)
            violate("wrong-error", "%s failed with %s when memory was refused", what, res_name(r));
        probe("a setter failed for lack of memory");
        return false;
    }
    static std::string some_string(int64_t a, const std::string &good, bool *long_ = nullptr) {
        // heap copy with an exact length: the caller's buffer dies after the call
        if (a % 9 == 7) {
            if (long_)
                *long_ = true;
            return std::string((size_t)(200 + a % 4200), 'x');
        }
        return good;
    }
    void set(Obj &o, int t, int slot, int64_t a, int64_t b, int64_t c) {
        uint64_t f0 = faults_fired();
        Vals &v = o.v;
        umf_result_t r;
        switch (o.kind) {
        case K_OS: {
            auto h = (umf_os_memory_provider_params_handle_t)o.h;
            switch (a % 8) {
            case 0: {
                unsigned x = prots[b % 20];
                if (judged("SetProtection", umfOsMemoryProviderParamsSetProtection(h, x), true,
                           f0))
                    v.prot = x;
                break;
            }
            case 1: {
                int x = b % 10 < 8 ? 1 + (int)(b & 1) : (int)(b % 3) * 3;
                if (judged("SetVisibility", umfOsMemoryProviderParamsSetVisibility(
                                                h, (umf_memory_visibility_t)x), true, f0))
                    v.vis = x;
                break;
            }
            case 2: {
                if (b % 5 == 0) {
                    if (judged("SetShmName", umfOsMemoryProviderParamsSetShmName(h, nullptr),
                               true, f0))
                        v.has_shm = false;
                    break;
                }
                std::string n = "c25_" + std::to_string(t) + "_" + std::to_string(b % 3);
                if (c % 7 == 0)
                    n = std::string((size_t)(240 + c % 20), 's');
                if (c % 7 == 0)
                    n += std::to_string(t);
                if (c % 11 == 0)
                    n = "a/" + n;
                std::vector<char> buf(n.c_str(), n.c_str() + n.size() + 1);
                r = umfOsMemoryProviderParamsSetShmName(h, buf.data());
                std::fill(buf.begin(), buf.end(), 'Z');
                if (judged("SetShmName", r, true, f0))
                    v.has_shm = true, v.shm = n;
                break;
            }
            case 3: {
                if (b % 11 == 0) {
                    judged("SetNumaList(NULL, n)",
                           umfOsMemoryProviderParamsSetNumaList(h, nullptr, 1 + (unsigned)(c % 3)),
                           false, f0);
                    break;
                }
                std::vector<unsigned> l;
                unsigned n = b % 5 == 0 ? 0 : b % 13 == 0 ? 400 : 1 + (unsigned)(b / 16 % 4);
                for (unsigned i = 0; i < n; i++)
                    l.push_back(n > 4 ? i % NODES : (unsigned)((c >> i) + i) % NODES);
                std::vector<unsigned> buf = l;
                buf.push_back(99);
                r = umfOsMemoryProviderParamsSetNumaList(
                    h, n || b & 1024 ? buf.data() : nullptr, n);
                std::fill(buf.begin(), buf.end(), 77u);
                if (judged("SetNumaList", r, true, f0))
                    v.list = l;
                break;
            }
            case 4: {
                int x = (int)(b % 6);
                if (judged("SetNumaMode", umfOsMemoryProviderParamsSetNumaMode(
                                              h, (umf_numa_mode_t)x), true, f0))
                    v.mode = x;
                break;
            }
            case 5: {
                static const size_t ps[] = {0, 1, 4096, 8192, 4097, 12288, 65536, SIZE_MAX,
                                            SIZE_MAX - 4094, SIZE_MAX - 4095};
                size_t x = ps[b % 10];
                if (judged("SetPartSize", umfOsMemoryProviderParamsSetPartSize(h, x), true, f0))
                    v.part = x;
                break;
            }
            case 6: {
                if (b % 11 == 0) {
                    judged("SetPartitions(NULL, n)",
                           umfOsMemoryProviderParamsSetPartitions(h, nullptr, 2), false, f0);
                    break;
                }
                std::vector<umf_numa_split_partition_t> pv;
                unsigned n = b % 4 == 0 ? 0 : 1 + (unsigned)(b / 16 % 5);
                for (unsigned i = 0; i < n; i++) {
                    umf_numa_split_partition_t e;
                    e.weight = (unsigned)(c >> (2 * i)) % 4;
                    if (!e.weight && b % 3)
                        e.weight = 2;
                    e.target = b % 17 == 0   ? 9
                               : v.list.empty() ? i % NODES
                                                : v.list[(size_t)(c >> i) % v.list.size()];
                    pv.push_back(e);
                }
                auto buf = pv;
                buf.push_back({5, 88});
                r = umfOsMemoryProviderParamsSetPartitions(
                    h, n || b & 1024 ? buf.data() : nullptr, n);
                std::fill(buf.begin(), buf.end(), umf_numa_split_partition_t{0, 66});
                if (judged("SetPartitions", r, true, f0)) {
                    v.parts.clear();
                    for (auto &e : pv)
                        v.parts.push_back({e.weight, e.target});
                }
                break;
            }
            case 7:
                switch (b % 7) {
                case 0: r = umfOsMemoryProviderParamsSetProtection(nullptr, 2); break;
                case 1: r = umfOsMemoryProviderParamsSetVisibility(nullptr, UMF_MEM_MAP_SHARED);
                    break;
                case 2: r = umfOsMemoryProviderParamsSetShmName(nullptr, "x"); break;
                case 3: { unsigned n0 = 0;
                    r = umfOsMemoryProviderParamsSetNumaList(nullptr, &n0, 1); break; }
                case 4: r = umfOsMemoryProviderParamsSetNumaMode(nullptr, UMF_NUMA_MODE_BIND);
                    break;
                case 5: r = umfOsMemoryProviderParamsSetPartSize(nullptr, 4096); break;
                default: { umf_numa_split_partition_t e{1, 0};
                    r = umfOsMemoryProviderParamsSetPartitions(nullptr, &e, 1); }
                }
                judged("a setter with a NULL handle", r, false, f0);
            }
            break;
        }
        case K_FILE: {
            auto h = (umf_file_memory_provider_params_handle_t)o.h;
            switch (a % 4) {
            case 0: {
                const char *bad = b % 8 == 0 ? "" : nullptr;
                if (b % 8 < 2) {
                    judged("SetPath", umfFileMemoryProviderParamsSetPath(h, bad), false, f0);
                    break;
                }
                std::string n = some_string(b, fpath(t, (int)(c & 1)));
                if (n[0] == 'x')
                    n[0] = '/';
                std::vector<char> buf(n.c_str(), n.c_str() + n.size() + 1);
                r = umfFileMemoryProviderParamsSetPath(h, buf.data());
                std::fill(buf.begin(), buf.end(), 'Z');
                if (judged("SetPath", r, true, f0))
                    v.path = n;
                break;
            }
            case 1:
                if (judged("SetProtection",
                           umfFileMemoryProviderParamsSetProtection(h, prots[b % 20]), true, f0))
                    v.prot = prots[b % 20];
                break;
            case 2: {
                int x = b % 10 < 8 ? 1 + (int)(b & 1) : (int)(b % 3) * 3;
                if (judged("SetVisibility", umfFileMemoryProviderParamsSetVisibility(
                                                h, (umf_memory_visibility_t)x), true, f0))
                    v.vis = x;
                break;
            }
            default:
                r = b % 3 == 0   ? umfFileMemoryProviderParamsSetPath(nullptr, "/x")
                    : b % 3 == 1 ? umfFileMemoryProviderParamsSetProtection(nullptr, 2)
                                 : umfFileMemoryProviderParamsSetVisibility(nullptr,
                                                                            UMF_MEM_MAP_SHARED);
                judged("a setter with a NULL handle", r, false, f0);
            }
            break;
        }
        case K_DAX: {
            auto h = (umf_devdax_memory_provider_params_handle_t)o.h;
            switch (a % 3) {
            case 0: {
                size_t sz = c % 7 == 0 ? 0 : (size_t)(1 + c % 4) * MB2;
                if (b % 8 < 2) {
                    judged("SetDeviceDax", umfDevDaxMemoryProviderParamsSetDeviceDax(
                                               h, b % 8 ? nullptr : "", sz ? sz : MB2), false, f0);
                    break;
                }
                std::string n = some_string(b, dpath(t, (int)(c & 1)));
                std::vector<char> buf(n.c_str(), n.c_str() + n.size() + 1);
                r = umfDevDaxMemoryProviderParamsSetDeviceDax(h, buf.data(), sz);
                std::fill(buf.begin(), buf.end(), 'Z');
                if (judged("SetDeviceDax", r, true, f0))
                    v.path = n, v.size = sz;
                break;
            }
            case 1: {
                unsigned x = prots[b % 20];
                if (judged("SetProtection",
                           umfDevDaxMemoryProviderParamsSetProtection(h, x),
                           x && !(x & ~15u), f0))
                    v.prot = x;
                break;
            }
            default:
                r = b & 1 ? umfDevDaxMemoryProviderParamsSetDeviceDax(nullptr, "/dev/dax0.0", MB2)
                          : umfDevDaxMemoryProviderParamsSetProtection(nullptr, 2);
                judged("a setter with a NULL handle", r, false, f0);
            }
            break;
        }
        case K_FIXED: {
            auto h = (umf_fixed_memory_provider_params_handle_t)o.h;
            uintptr_t ptr = b % 6 == 0 ? 0 : (uintptr_t)region[t] + (uintptr_t)(b % 5) * MB2;
            size_t sz = c % 6 == 0 ? 0 : (size_t)(1 + c % 3) * MB2 / 2;
            bool nullh = a % 8 == 0;
            if (judged("SetMemory", umfFixedMemoryProviderParamsSetMemory(
                                        nullh ? nullptr : h, (void *)ptr, sz),
                       !nullh && ptr && sz, f0))
                v.ptr = ptr, v.size = sz;
            break;
        }
        case K_ZE: {
            auto h = (umf_level_zero_memory_provider_params_handle_t)o.h;
            switch (a % 7) {
            case 0: {
                uintptr_t x = b % 5 == 0 ? 0 : 0x1000u * (unsigned)(t * 8 + slot * 2 + (b & 1));
                if (judged("SetContext", umfLevelZeroMemoryProviderParamsSetContext(
                                             h, (ze_context_handle_t)x), x, f0))
                    v.ctx = x;
                break;
            }
            case 1: {
                uintptr_t x = b % 3 == 0 ? 0 : 0x77000 + (unsigned)(b % 4);
                if (judged("SetDevice", umfLevelZeroMemoryProviderParamsSetDevice(
                                            h, (ze_device_handle_t)x), true, f0))
                    v.dev = x;
                break;
            }
            case 2: {
                int x = 1 + (int)(b % 3);
                if (judged("SetMemoryType", umfLevelZeroMemoryProviderParamsSetMemoryType(
                                                h, (umf_usm_memory_type_t)x), true, f0))
                    v.type = x;
                break;
            }
            case 3: {
                if (b % 6 == 0) {
                    judged("SetResidentDevices(NULL, n)",
                           umfLevelZeroMemoryProviderParamsSetResidentDevices(
                               h, nullptr, 1 + (unsigned)(c % 2)), false, f0);
                    break;
                }
                unsigned n = (unsigned)(b % 4);
                int which = (int)(c & 1);
                if (judged("SetResidentDevices",
                           umfLevelZeroMemoryProviderParamsSetResidentDevices(
                               h, n || c & 2 ? resarr[t][slot][which] : nullptr, n), true, f0))
                    v.nres = n, v.res = which;
                break;
            }
            case 4: {
                unsigned x = (unsigned)(b % 3);
                if (judged("SetFreePolicy",
                           umfLevelZeroMemoryProviderParamsSetFreePolicy(
                               h, (umf_level_zero_memory_provider_free_policy_t)x), true, f0))
                    v.policy = x;
                break;
            }
            case 5: {
                unsigned x = b % 7 == 0 ? ~0u : (unsigned)(b % 5);
                if (judged("SetDeviceOrdinal",
                           umfLevelZeroMemoryProviderParamsSetDeviceOrdinal(h, x), true, f0))
                    v.ordinal = x;
                break;
            }
            default:
                switch (b % 6) {
                case 0: r = umfLevelZeroMemoryProviderParamsSetContext(
                            nullptr, (ze_context_handle_t)0x10); break;
                case 1: r = umfLevelZeroMemoryProviderParamsSetDevice(nullptr, nullptr); break;
                case 2: r = umfLevelZeroMemoryProviderParamsSetMemoryType(
                            nullptr, UMF_MEMORY_TYPE_HOST); break;
                case 3: r = umfLevelZeroMemoryProviderParamsSetResidentDevices(nullptr, nullptr,
                                                                               0); break;
                case 4: r = umfLevelZeroMemoryProviderParamsSetFreePolicy(
                            nullptr, UMF_LEVEL_ZERO_MEMORY_PROVIDER_FREE_POLICY_DEFAULT); break;
                default: r = umfLevelZeroMemoryProviderParamsSetDeviceOrdinal(nullptr, 1);
                }
                judged("a setter with a NULL handle", r, false, f0);
            }
            break;
        }
        case K_DISJ: {
            auto h = (umf_disjoint_pool_params_handle_t)o.h;
            static const size_t sz[] = {0, 1, 64, 100, 4096, 5000, 65536, 1 << 20, MB2,
                                        (size_t)1 << 31, ((size_t)1 << 31) + 1,
                                        (size_t)1 << 40, SIZE_MAX};
            switch (a % 8) {
            case 0:
                if (judged("SetSlabMinSize", umfDisjointPoolParamsSetSlabMinSize(h, sz[b % 9]),
                           true, f0))
                    v.slab = sz[b % 9];
                break;
            case 1:
                if (judged("SetMaxPoolableSize",
                           umfDisjointPoolParamsSetMaxPoolableSize(h, sz[b % 13]), true, f0))
                    v.maxp = sz[b % 13];
                break;
            case 2: {
                size_t x = b % 7 == 0 ? SIZE_MAX : (size_t)(b % 4);
                if (judged("SetCapacity", umfDisjointPoolParamsSetCapacity(h, x), true, f0))
                    v.cap = x;
                break;
            }
            case 3: {
                size_t x = b % 4 == 0 ? sz[c % 13] : (size_t)1 << (c % (b % 4 == 1 ? 64 : 14));
                if (b % 8 == 2)
                    x += 1 + (size_t)(c / 64 % 3);
                if (judged("SetMinBucketSize", umfDisjointPoolParamsSetMinBucketSize(h, x),
                           x && !(x & (x - 1)), f0))
                    v.minb = x;
                break;
            }
            case 4: {
                int x = (int)(b % 6) - 1;
                if (judged("SetTrace", umfDisjointPoolParamsSetTrace(h, x), true, f0))
                    v.trace = x;
                break;
            }
            case 5: {
                int x = (int)(b % 3) - 1;
                if (judged("SetSharedLimits", umfDisjointPoolParamsSetSharedLimits(
                                                  h, x < 0 ? nullptr : lim[x]), true, f0))
                    v.limits = x;
                break;
            }
            case 6: {
                std::vector<char> n((size_t)(b % 200) + 1, 'n');
                n.back() = 0;
                umf_result_t x = umfDisjointPoolParamsSetName(h, n.data());
                std::fill(n.begin(), n.end(), 'Z');
                judged("SetName", x, true, f0);
                break;
            }
            default:
                switch (b % 7) {
                case 0: r = umfDisjointPoolParamsSetSlabMinSize(nullptr, 64); break;
                case 1: r = umfDisjointPoolParamsSetMaxPoolableSize(nullptr, 64); break;
                case 2: r = umfDisjointPoolParamsSetCapacity(nullptr, 64); break;
                case 3: r = umfDisjointPoolParamsSetMinBucketSize(nullptr, 64); break;
                case 4: r = umfDisjointPoolParamsSetTrace(nullptr, 1); break;
                case 5: r = umfDisjointPoolParamsSetSharedLimits(nullptr, nullptr); break;
                default: r = umfDisjointPoolParamsSetName(nullptr, "x");
                }
                judged("a setter with a NULL handle", r, false, f0);
            }
            break;
        }
        case K_SCAL: {
            auto h = (umf_scalable_pool_params_handle_t)o.h;
            bool nullh = a % 9 == 0;
            if (a & 1) {
                size_t x = b % 5 == 0 ? 0 : (size_t)1 << (12 + b % 12);
                if (judged("SetGranularity",
                           umfScalablePoolParamsSetGranularity(nullh ? nullptr : h, x),
                           !nullh && x, f0))
                    v.gran = x;
            } else if (judged("SetKeepAllMemory", umfScalablePoolParamsSetKeepAllMemory(
                                                      nullh ? nullptr : h, b & 1), !nullh, f0))
                v.keep = b & 1;
            break;
        }
        case K_POL: {
            auto h = (umf_mempolicy_handle_t)o.h;
            bool nullh = a % 9 == 0;
            if (a & 1) {
                static const size_t ps[] = {0, 1, 4096, 8192, 4097, 12288, 65536};
                size_t x = ps[b % 7];
                if (judged("SetInterleavePartSize",
                           umfMempolicySetInterleavePartSize(nullh ? nullptr : h, x),
                           !nullh && v.bind == UMF_MEMPOLICY_INTERLEAVE, f0))
                    v.part = x;
            } else {
                // the policy refers to the caller's array: it has to stay
                umf_mempolicy_split_partition_t *l = o.pol_parts + (v.parts.empty() ? 0 : 0);
                unsigned n = (unsigned)(b % 5);
                bool ok = !nullh && v.bind == UMF_MEMPOLICY_SPLIT;
                if (ok)
                    for (unsigned i = 0; i < n; i++)
                        l[i] = {1 + (unsigned)(c >> i) % 3, (unsigned)(c >> (i + 3)) % NODES};
                if (judged("SetCustomSplitPartitions",
                           umfMempolicySetCustomSplitPartitions(nullh ? nullptr : h, l, n), ok,
                           f0)) {
                    v.parts.clear();
                    for (unsigned i = 0; i < n; i++)
                        v.parts.push_back({l[i].weight, l[i].target});
                }
            }
            break;
        }
        }
    }
    // -------------------------------------------------------------- objects
    void drop(Obj &o) {
        if (!o.h)
            return;
        umf_result_t r;
        switch (o.kind) {
        case K_OS: r = umfOsMemoryProviderParamsDestroy(
                       (umf_os_memory_provider_params_handle_t)o.h); break;
        case K_FILE: r = umfFileMemoryProviderParamsDestroy(
                         (umf_file_memory_provider_params_handle_t)o.h); break;
        case K_DAX: r = umfDevDaxMemoryProviderParamsDestroy(
                        (umf_devdax_memory_provider_params_handle_t)o.h); break;
        case K_FIXED: r = umfFixedMemoryProviderParamsDestroy(
                          (umf_fixed_memory_provider_params_handle_t)o.h); break;
        case K_ZE: r = umfLevelZeroMemoryProviderParamsDestroy(
                       (umf_level_zero_memory_provider_params_handle_t)o.h); break;
        case K_DISJ: r = umfDisjointPoolParamsDestroy(
                         (umf_disjoint_pool_params_handle_t)o.h); break;
        case K_SCAL: r = umfScalablePoolParamsDestroy(
                         (umf_scalable_pool_params_handle_t)o.h); break;
        default: r = umfMempolicyDestroy((umf_mempolicy_handle_t)o.h);
        }
        if (r)
            violate("destroy-failed", "destroying a parameter object failed (%s)", res_name(r));
        o.h = nullptr;
    }
    void make(Obj &o, int t, int slot, int kind, int64_t a, int64_t b) {
        drop(o);
        o.kind = kind;
        o.v = Vals();
        Vals &v = o.v;
        uint64_t f0 = faults_fired();
        void *h = (void *)0x5a5a;
        umf_result_t r;
        bool nullh = a % 16 == 0, ok = !nullh;
#define OUT(T) (nullh ? nullptr : (T *)&h)
        switch (kind) {
        case K_OS:
            r = umfOsMemoryProviderParamsCreate(OUT(umf_os_memory_provider_params_handle_t));
            break;
        case K_FILE: {
            v.path = fpath(t, (int)(b & 1));
            if (a % 7 == 0)
                ok = false;
            r = umfFileMemoryProviderParamsCreate(OUT(umf_file_memory_provider_params_handle_t),
                                                  a % 7     ? v.path.c_str()
                                                  : b % 4 < 2 ? "" : nullptr);
            break;
        }
        case K_DAX:
            v.path = dpath(t, (int)(b & 1));
            v.size = (size_t)(1 + b % 4) * MB2;
            if (a % 7 == 0)
                ok = false;
            r = umfDevDaxMemoryProviderParamsCreate(
                OUT(umf_devdax_memory_provider_params_handle_t),
                a % 7 ? v.path.c_str() : b % 4 < 2 ? "" : nullptr, v.size);
            break;
        case K_FIXED:
            v.ptr = a % 7 == 0 ? 0 : (uintptr_t)region[t] + MB2;
            v.size = b % 7 == 0 ? 0 : MB2;
            ok = ok && v.ptr && v.size;
            r = umfFixedMemoryProviderParamsCreate(
                OUT(umf_fixed_memory_provider_params_handle_t), (void *)v.ptr, v.size);
            break;
        case K_ZE:
            r = umfLevelZeroMemoryProviderParamsCreate(
                OUT(umf_level_zero_memory_provider_params_handle_t));
            for (int w = 0; w < 2; w++)
                for (int i = 0; i < 3; i++)
                    resarr[t][slot][w][i] =
                        (ze_device_handle_t)(uintptr_t)(0x88000 + w * 8 + i);
            break;
        case K_DISJ:
            r = umfDisjointPoolParamsCreate(OUT(umf_disjoint_pool_params_handle_t));
            break;
        case K_SCAL:
            r = umfScalablePoolParamsCreate(OUT(umf_scalable_pool_params_handle_t));
            break;
        default:
            v.bind = (int)(b % 4);
            r = umfMempolicyCreate((umf_mempolicy_membind_t)v.bind, OUT(umf_mempolicy_handle_t));
        }
        if (judged("creating a parameter object", r, ok, f0)) {
            if (h == (void *)0x5a5a || !h)
                violate("no-object", "creating a parameter object succeeded without giving one");
            o.h = h;
        }
    }
    // -------------------------------------------------------------- building
    static int os_prot(unsigned p) {
        return (p & 2 ? PROT_READ : 0) | (p & 4 ? PROT_WRITE : 0) | (p & 8 ? PROT_EXEC : 0);
    }
    const Map *map_of(void *p) {
        auto &m = os::maps();
        auto it = m.upper_bound((uintptr_t)p);
        if (it == m.begin())
            return nullptr;
        --it;
        return (uintptr_t)p < it->first + it->second.len ? &it->second : nullptr;
    }
    void check_map(void *p, const Vals &v, bool shared, int inode, const char *what) {
        const Map *m = map_of(p);
        if (!m)
            violate("not-mapped", "%s: %p is not mapped", what, p);
        if (m->prot != os_prot(v.prot))
            violate("wrong-protection", "%s: memory mapped with protection %d, asked for %#x",
                    what, m->prot, v.prot);
        int type = m->flags & 3; // MAP_SHARED_VALIDATE == 3
        if ((type == MAP_PRIVATE) == shared)
            violate("wrong-visibility", "%s: memory mapped %s, asked for the opposite", what,
                    type == MAP_PRIVATE ? "private" : "shared");
        if (inode != -2 && m->inode != inode)
            violate("wrong-file", "%s: memory maps file %d instead of %d", what, m->inode, inode);
    }
    void purge(umf_memory_provider_handle_t h, void *p, size_t n, bool lazy_ok, bool anon,
               const char *what) {
        auto &ad = os::advices();
        for (int force = 0; force < 2; force++) {
            size_t n0 = ad.size();
            uint64_t f0 = faults_fired();
            umf_result_t r = force ? umfMemoryProviderPurgeForce(h, p, n)
                                   : umfMemoryProviderPurgeLazy(h, p, n);
            int mine = 0;
            for (size_t i = n0; i < ad.size(); i++)
                if (ad[i].task == task_id()) {
                    mine++;
                    if (ad[i].adv != (force ? MADV_DONTNEED : 8 /* MADV_FREE */) ||
                        ad[i].addr != (uintptr_t)p || ad[i].len != n)
                        violate("wrong-advice", "%s: purge_%s of %p+%zu gave the OS advice %d for "
                                                "%p+%zu", what, force ? "force" : "lazy", p, n,
                                ad[i].adv, (void *)ad[i].addr, ad[i].len);
                }
            if (!force && !lazy_ok) {
                if (r != UMF_RESULT_ERROR_NOT_SUPPORTED || mine)
                    violate("lazy-purge", "%s: purge_lazy returned %s", what, res_name(r));
            } else if (!force && !anon && r && mine == 1)
                probe("the OS does not free shared memory lazily");
            else if (r == UMF_RESULT_SUCCESS ? mine != 1 : faults_fired() == f0)
                violate("purge-failed", "%s: purge_%s returned %s after %d calls of the OS", what,
                        force ? "force" : "lazy", res_name(r), mine);
        }
    }
    // the set of nodes each page of the range was bound to, last bind wins
    std::vector<std::vector<unsigned>> nodes_of(void *p, size_t n, size_t b0, int *pol,
                                                unsigned *flags) {
        std::vector<std::vector<unsigned>> out(n / 4096);
        auto &bs = os::binds();
        for (size_t i = b0; i < bs.size(); i++) {
            if (bs[i].task != task_id())
                continue;
            *pol = bs[i].policy, *flags = bs[i].flags;
            for (size_t k = 0; k < out.size(); k++) {
                uintptr_t a = (uintptr_t)p + k * 4096;
                if (a >= bs[i].addr && a < bs[i].addr + bs[i].len)
                    out[k] = bs[i].nodes;
            }
        }
        return out;
    }
    static std::string names(const std::vector<unsigned> &v) {
        std::string s = "{";
        for (unsigned x : v)
            s += (s.size() > 1 ? "," : "") + std::to_string(x);
        return s + "}";
    }
    void check_numa(umf_memory_provider_handle_t h, const Vals &v, bool exact) {
        std::set<unsigned> uniq(v.list.begin(), v.list.end());
        std::vector<unsigned> all(uniq.begin(), uniq.end());
        size_t n = 4096;
        std::vector<unsigned> want; // node of each page
        size_t part = (v.part + 4095) / 4096 * 4096;
        bool by_page = false;
        if (v.mode == UMF_NUMA_MODE_INTERLEAVE && v.part) {
            by_page = true;
            if (part > 65536)
                return;
            n = part * 3;
            for (size_t k = 0; k < n / 4096; k++)
                want.push_back(v.list[k * 4096 / part % v.list.size()]);
        } else if (v.mode == UMF_NUMA_MODE_SPLIT) {
            by_page = true;
            auto parts = v.parts;
            if (parts.empty())
                for (unsigned x : v.list)
                    parts.push_back({1, x});
            for (auto &x : parts)
                for (unsigned i = 0; i < x.first; i++)
                    want.push_back(x.second);
            n = want.size() * 4096;
        }
        size_t b0 = os::binds().size();
        uint64_t f0 = faults_fired();
        void *p = nullptr;
        umf_result_t r = umfMemoryProviderAlloc(h, n, 0, &p);
        if (r) {
            if (faults_fired() == f0)
                violate("alloc-failed", "allocating %zu bytes with valid NUMA parameters failed "
                                        "(%s)", n, res_name(r));
            return;
        }
        int pol = -1;
        unsigned flags = 0;
        auto got = nodes_of(p, n, b0, &pol, &flags);
        if (by_page) {
            for (size_t k = 0; k < got.size(); k++)
                if (got[k] != std::vector<unsigned>{want[k]})
                    violate("wrong-node", "page %zu of %zu was bound to %s, the parameters say "
                                          "node %u", k, got.size(), names(got[k]).c_str(),
                            want[k]);
        } else if (v.mode == UMF_NUMA_MODE_BIND || v.mode == UMF_NUMA_MODE_INTERLEAVE ||
                   (v.mode == UMF_NUMA_MODE_PREFERRED && !all.empty())) {
            if (got[0] != all)
                violate("wrong-nodes", "memory was bound to the nodes %s instead of %s",
                        names(got[0]).c_str(), names(all).c_str());
            int wp = v.mode == UMF_NUMA_MODE_INTERLEAVE ? HWLOC_MEMBIND_INTERLEAVE
                                                        : HWLOC_MEMBIND_BIND;
            if (pol != wp || (bool)(flags & HWLOC_MEMBIND_STRICT) != (v.mode == UMF_NUMA_MODE_BIND))
                violate("wrong-policy", "memory was bound with policy %d and flags %#x in NUMA "
                                        "mode %d", pol, flags, v.mode);
        }
        probe("NUMA parameters reached the OS");
        (void)exact;
        f0 = faults_fired();
        r = umfMemoryProviderFree(h, p, n);
        if (r && faults_fired() == f0)
            violate("free-failed", "free failed (%s)", res_name(r));
    }
    // result of creating something: `may` = acceptable errors, empty: must work
    bool created(const char *what, umf_result_t r, const std::set<int> &must,
                 const std::set<int> &may, uint64_t f0) {
        if (!valid_result(r))
            violate("bad-result", "creating %s returned %d", what, (int)r);
        if (r == UMF_RESULT_SUCCESS) {
            if (!must.empty())
                violate("bad-params-accepted", "%s was created from parameters that have to be "
                                               "refused", what);
            return true;
        }
        if (faults_fired() == f0 && !must.count(r) && !may.count(r))
            violate(must.empty() ? "create-failed" : "wrong-error",
                    "creating %s without any fault returned %s", what, res_name(r));
        return false;
    }
    void destroy(umf_memory_provider_handle_t h, const char *what) {
        umfMemoryProviderDestroy(h);
        (void)what;
    }
    void build(Obj &o, int t, int slot, int64_t a, int64_t b, int64_t c) {
        const Vals v = o.v; // the parameters at the time of creation
        uint64_t f0 = faults_fired();
        std::set<int> must, may;
        const int INV = UMF_RESULT_ERROR_INVALID_ARGUMENT;
        umf_memory_provider_handle_t h = nullptr;
        umf_memory_pool_handle_t q = nullptr;
        umf_result_t r;
        bool shared = v.vis == UMF_MEM_MAP_SHARED;
        // 1. create
        switch (o.kind) {
        case K_OS: {
            if (shared && v.mode != UMF_NUMA_MODE_DEFAULT)
                must.insert(UMF_RESULT_ERROR_NOT_SUPPORTED);
            if (v.prot & ~15u)
                must.insert(INV);
            if (v.vis != 1 && v.vis != 2)
                must.insert(INV);
            if (v.mode == UMF_NUMA_MODE_DEFAULT || v.mode == UMF_NUMA_MODE_LOCAL) {
                if (!v.list.empty())
                    must.insert(INV);
            } else if (v.mode != UMF_NUMA_MODE_PREFERRED && v.list.empty())
                must.insert(INV);
            for (auto &x : v.parts)
                if (!x.first ||
                    std::find(v.list.begin(), v.list.end(), x.second) == v.list.end()) {
                    if (v.mode == UMF_NUMA_MODE_SPLIT)
                        must.insert(INV);
                    else
                        may.insert(INV);
                }
            if (v.mode == UMF_NUMA_MODE_INTERLEAVE && v.part > SIZE_MAX - 4095)
                must.insert(INV);
            if (shared && v.has_shm &&
                (v.shm.find('/') != std::string::npos || v.shm.size() > 253))
                must.insert(INV);
            r = umfMemoryProviderCreate(umfOsMemoryProviderOps(), o.h, &h);
            if (!created("an OS provider", r, must, may, f0))
                return;
            break;
        }
        case K_FILE:
            if (v.prot & ~15u)
                must.insert(INV);
            if (v.vis != 1 && v.vis != 2)
                must.insert(INV);
            if (v.path.size() >= 4096)
                must.insert(INV);
            r = umfMemoryProviderCreate(umfFileMemoryProviderOps(), o.h, &h);
            if (!created("a file provider", r, must, may, f0))
                return;
            break;
        case K_DAX:
            if (!v.size || v.path[0] != '/')
                must.insert(INV);
            r = umfMemoryProviderCreate(umfDevDaxMemoryProviderOps(), o.h, &h);
            if (!created("a device-DAX provider", r, must, may, f0))
                return;
            break;
        case K_FIXED:
            r = umfMemoryProviderCreate(umfFixedMemoryProviderOps(), o.h, &h);
            if (!created("a fixed provider", r, must, may, f0))
                return;
            break;
        case K_ZE: {
            if (!v.ctx || (v.type == UMF_MEMORY_TYPE_HOST) == (v.dev != 0) ||
                v.type == UMF_MEMORY_TYPE_UNKNOWN)
                must.insert(INV);
            if (v.type == UMF_MEMORY_TYPE_UNKNOWN && v.ctx && v.dev) {
                // not documented at creation: only that no memory can come of it
                must.clear();
                may = {INV, UMF_RESULT_ERROR_UNKNOWN};
            }
            ZE.policy_of[(ze_context_handle_t)v.ctx] =
                v.policy == 1   ? ZE_DRIVER_MEMORY_FREE_POLICY_EXT_FLAG_BLOCKING_FREE
                : v.policy == 2 ? ZE_DRIVER_MEMORY_FREE_POLICY_EXT_FLAG_DEFER_FREE
                                : 0;
            if (faults_fired_kind(F_DLOPEN) != ze0) // the library stays unusable
                may.insert(UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE);
            r = umfMemoryProviderCreate(umfLevelZeroMemoryProviderOps(), o.h, &h);
            if (!created("a Level Zero provider", r, must, may, f0))
                return;
            break;
        }
        case K_DISJ:
            ups[(size_t)t].arena_slack = 0;
            r = umfPoolCreate(umfDisjointPoolOps(), ups[(size_t)t].h, o.h, 0, &q);
            if (!created("a disjoint pool", r, must, may, f0))
                return;
            break;
        case K_SCAL:
            TBB.policy.erase(t);
            r = umfPoolCreate(umfScalablePoolOps(), ups[(size_t)t].h, o.h, 0, &q);
            if (!created("a scalable pool", r, must, may, f0))
                return;
            break;
        default: { // K_POL
            Vals w;
            w.list.clear();
            unsigned n = 1 + (unsigned)(a / 8 % NODES);
            for (unsigned i = 0; i < n; i++)
                w.list.push_back((i + (unsigned)(b % NODES)) % NODES);
            umf_memspace_handle_t ms = nullptr;
            r = umfMemspaceCreateFromNumaArray(w.list.data(), w.list.size(), &ms);
            if (r) {
                if (faults_fired() == f0)
                    violate("create-failed", "a memory space without any fault: %s", res_name(r));
                return;
            }
            if (v.bind == UMF_MEMPOLICY_SPLIT)
                for (auto &x : v.parts)
                    if (std::find(w.list.begin(), w.list.end(), x.second) == w.list.end())
                        must.insert(INV);
            r = umfMemoryProviderCreateFromMemspace(ms, (umf_mempolicy_handle_t)o.h, &h);
            umfMemspaceDestroy(ms);
            if (!created("a provider from a memory space and policy", r, must, may, f0))
                return;
            w.mode = v.bind == UMF_MEMPOLICY_BIND         ? UMF_NUMA_MODE_BIND
                     : v.bind == UMF_MEMPOLICY_INTERLEAVE ? UMF_NUMA_MODE_INTERLEAVE
                     : v.bind == UMF_MEMPOLICY_PREFERRED  ? UMF_NUMA_MODE_PREFERRED
                                                          : UMF_NUMA_MODE_SPLIT;
            w.part = v.bind == UMF_MEMPOLICY_INTERLEAVE ? v.part : 0;
            w.parts = v.parts;
            if (a & 1)
                drop(o);
            check_numa(h, w, true);
            destroy(h, "it");
            probe("provider from a policy");
            return;
        }
        }
        // 2. the object may change or go away: what was created does not care
        if (o.kind == K_ZE && v.res >= 0)
            for (auto &x : resarr[t][slot][v.res])
                x = (ze_device_handle_t)(uintptr_t)0xdead;
        if (a % 4 == 0)
            drop(o);
        else if (a % 4 == 1) {
            set(o, t, slot, a / 4, c, b);
            set(o, t, slot, b / 4, a, c);
            probe("the object was changed after the creation");
        }
        // 3. use
        void *p = nullptr;
        f0 = faults_fired();
        switch (o.kind) {
        case K_OS: {
            r = umfMemoryProviderAlloc(h, 8192, 0, &p);
            if (!r) {
                int ino = !shared ? -1 : v.has_shm ? os::inode_of_path(("shm:" + v.shm).c_str())
                                                   : -2;
                check_map(p, v, shared, ino, "OS provider");
                purge(h, p, 4096, true, !shared, "OS provider");
                size_t hs = 0;
                uint64_t f1 = faults_fired();
                umf_result_t x = umfMemoryProviderGetIPCHandleSize(h, &hs);
                if (shared ? x && faults_fired() == f1 : !x)
                    violate("ipc-enabled", "IPC handles of %s memory: %s",
                            shared ? "shared" : "private", res_name(x));
                f1 = faults_fired();
                x = umfMemoryProviderFree(h, p, 8192);
                if (x && faults_fired() == f1)
                    violate("free-failed", "free failed (%s)", res_name(x));
            } else if (faults_fired() == f0)
                violate("alloc-failed", "OS provider: alloc failed (%s)", res_name(r));
            if (!shared && (v.mode != UMF_NUMA_MODE_INTERLEAVE || !v.part)) {
                // (the first part has been given away already)
                check_numa(h, v, true);
            } else if (v.mode == UMF_NUMA_MODE_INTERLEAVE && v.part <= 4096)
                probe("interleaved by small parts");
            break;
        }
        case K_FILE: {
            r = umfMemoryProviderAlloc(h, 4096, 0, &p);
            if (!r) {
                check_map(p, v, shared, os::inode_of_path(v.path.c_str()), "file provider");
                purge(h, p, 4096, false, false, "file provider");
                size_t hs = 0;
                umf_result_t x = umfMemoryProviderGetIPCHandleSize(h, &hs);
                if (shared ? (bool)x : !x)
                    violate("ipc-enabled", "IPC handles of %s memory: %s",
                            shared ? "shared" : "private", res_name(x));
                umfMemoryProviderFree(h, p, 4096);
            } else if (faults_fired() == f0)
                violate("alloc-failed", "file provider: alloc failed (%s)", res_name(r));
            break;
        }
        case K_DAX: {
            r = umfMemoryProviderAlloc(h, MB2, 0, &p);
            if (!r) {
                check_map(p, v, true, os::inode_of_path(v.path.c_str()), "device-DAX provider");
                const Map *m = map_of(p);
                if (m->len < v.size || m->off)
                    violate("wrong-file", "device-DAX provider: %zu bytes at %zu mapped, the "
                                          "device has %zu", m->len, m->off, v.size);
                purge(h, p, MB2, false, false, "device-DAX provider");
                umfMemoryProviderFree(h, p, MB2);
            } else if (faults_fired() == f0)
                violate("alloc-failed", "device-DAX provider: alloc failed (%s)", res_name(r));
            p = nullptr;
            if (!umfMemoryProviderAlloc(h, v.size + MB2, 0, &p))
                violate("too-much", "device-DAX provider gave more than the device has");
            break;
        }
        case K_FIXED: {
            r = umfMemoryProviderAlloc(h, v.size, 0, &p);
            if (!r) {
                if ((uintptr_t)p != v.ptr)
                    violate("wrong-region", "fixed provider: %p+%zu is not the region %p+%zu", p,
                            v.size, (void *)v.ptr, v.size);
                umfMemoryProviderFree(h, p, v.size);
            } else if (faults_fired() == f0)
                violate("alloc-failed", "fixed provider: the whole region cannot be allocated "
                                        "(%s)", res_name(r));
            p = nullptr;
            if (!umfMemoryProviderAlloc(h, v.size + 1, 0, &p))
                violate("too-much", "fixed provider gave more than its region has");
            break;
        }
        case K_ZE: {
            r = umfMemoryProviderAlloc(h, 4096, 0, &p);
            if (v.type == UMF_MEMORY_TYPE_UNKNOWN) {
                if (!r)
                    violate("bad-type", "memory of an unknown type was allocated");
                break;
            }
            if (!r) {
                auto it = ZE.live.find((uintptr_t)p);
                if (it == ZE.live.end())
                    violate("not-mapped", "%p is no memory of the driver", p);
                ZeAlloc &z = it->second;
                if (z.type != (v.type == UMF_MEMORY_TYPE_HOST     ? 1
                               : v.type == UMF_MEMORY_TYPE_DEVICE ? 2
                                                                  : 3) ||
                    (uintptr_t)z.ctx != v.ctx ||
                    (v.type != UMF_MEMORY_TYPE_HOST &&
                     ((uintptr_t)z.dev != v.dev || z.ordinal != v.ordinal)))
                    violate("wrong-device-memory", "memory of type %d, context %p, device %p, "
                                                   "ordinal %u: the parameters say otherwise",
                            z.type, (void *)z.ctx, (void *)z.dev, z.ordinal);
                std::set<ze_device_handle_t> want;
                for (unsigned i = 0; i < v.nres; i++)
                    want.insert((ze_device_handle_t)(uintptr_t)(0x88000 + v.res * 8 + (int)i));
                if (z.resident != want)
                    violate("wrong-residency", "memory is resident on %zu devices, or on others "
                                               "than the %u configured", z.resident.size(),
                            v.nres);
                uint64_t f1 = faults_fired();
                umf_result_t x = umfMemoryProviderFree(h, p, 4096);
                if (x && faults_fired() == f1)
                    violate("free-failed", "free failed (%s)", res_name(x));
                if (x) { // refused: the memory stays with the driver
                    NoFault n;
                    x = umfMemoryProviderFree(h, p, 4096);
                    if (x)
                        violate("free-failed", "free failed again (%s)", res_name(x));
                }
                probe("device memory has the configured properties");
            } else if (faults_fired() == f0)
                violate("alloc-failed", "Level Zero provider: alloc failed (%s)", res_name(r));
            break;
        }
        case K_DISJ: use_disjoint(q, v, ups[(size_t)t], b, c); break;
        case K_SCAL: {
            auto it = TBB.policy.find(t);
            if (it == TBB.policy.end() || it->second.granularity != v.gran ||
                it->second.keep_all != v.keep || it->second.fixed)
                violate("wrong-policy", "the TBB pool was created with granularity %zu and "
                                        "keep_all_memory %d, configured are %zu and %d",
                        it->second.granularity, it->second.keep_all, v.gran, v.keep);
            p = umfPoolMalloc(q, 100);
            if (p)
                umfPoolFree(q, p);
            break;
        }
        }
        if (q)
            umfPoolDestroy(q);
        if (h)
            destroy(h, "it");
        if (o.kind == K_OS && shared && v.has_shm &&
            os::inode_of_path(("shm:" + v.shm).c_str()) >= 0)
            violate("leak:shm", "the named shared memory object stayed");
        if (o.kind == K_ZE)
            for (int w = 0; w < 2; w++)
                for (int i = 0; i < 3; i++)
                    resarr[t][slot][w][i] =
                        (ze_device_handle_t)(uintptr_t)(0x88000 + w * 8 + i);
    }
    // what the pool asks of its provider follows from the parameters
    void use_disjoint(umf_memory_pool_handle_t q, const Vals &v, Provider &u, int64_t b,
                      int64_t c) {
        const size_t cutoff = (size_t)1 << 31;
        static const size_t sz[] = {1, 8, 9, 64, 100, 3000, 4096, 5000, 70000, 1 << 20,
                                    (1 << 20) + 1, 3 * (MB2 / 2)};
        std::vector<void *> ptrs;
        for (int i = 0; i < 3; i++) {
            size_t s = sz[(size_t)((b >> (4 * i)) + c) % 12];
            if (i == 2 && c % 3 == 0)
                s = c % 2 ? 3 * ((size_t)1 << 30) : ((size_t)1 << 40) + (size_t)c;
            uint64_t f0 = faults_fired(), a0 = u.n_alloc;
            size_t bytes0 = u.bytes;
            void *p = umfPoolMalloc(q, s);
            bool pooled = s <= v.maxp && s <= cutoff;
            size_t took = u.bytes - bytes0;
            if (!p) {
                bool limit = v.limits >= 0, big = v.minb > (1 << 24) || s > (1 << 28);
                if (faults_fired() == f0 && !limit && !big)
                    violate("alloc-failed", "malloc(%zu) failed without any fault", s);
                continue;
            }
            ptrs.push_back(p);
            if (!pooled && (u.n_alloc != a0 + 1 || took != s))
                violate("not-direct", "malloc(%zu) above the poolable size of %zu took %zu bytes "
                                      "from the provider", s, v.maxp, took);
            size_t us = umfPoolMallocUsableSize(q, p);
            size_t minb = std::max(std::min(v.minb, cutoff), (size_t)8);
            if (us < s || (pooled && us < minb))
                violate("usable-size", "malloc(%zu) has %zu usable bytes, buckets start at %zu",
                        s, us, minb);
            if (pooled && took && (took < v.slab || took < us))
                violate("small-slab", "malloc(%zu) made the pool ask for %zu bytes, the minimal "
                                      "slab is %zu", s, took, v.slab);
            probe(pooled ? "pooled as configured" : "direct as configured");
        }
        for (void *p : ptrs) {
            uint64_t f0 = faults_fired();
            umf_result_t r = umfPoolFree(q, p);
            if (r && faults_fired() == f0)
                violate("free-failed", "free failed (%s)", res_name(r));
        }
        if (ptrs.size() && v.cap == 0 && v.slab <= 8 && u.bytes)
            violate("capacity", "a pool of capacity 0 keeps %zu bytes of freed slabs", u.bytes);
    }
    void exec(const Op &op) override {
        int t = (int)op.task % 9, slot = (int)((uint64_t)op.a[0] % NO);
        Obj &o = objs[t][slot];
        int64_t a = op.a[2] & 0xfffff, b = op.a[3] & 0xfffff, c = op.a[4] & 0xfffff;
        if (!region[t])
            return;
        if (op.code == DROP) {
            drop(o);
            return;
        }
        if (op.code == MAKE || !o.h) {
            make(o, t, slot, (int)((uint64_t)op.a[1] % NKIND), a, b);
            return;
        }
        if (op.code == SET) {
            set(o, t, slot, a, b, c);
            if (!op.a[5])
                return;
        }
        if (c & 1) {
            NoFault n;
            build(o, t, slot, a / 8, b, c);
        } else
            build(o, t, slot, a / 8, b, c);
    }
    void finish() override {
        for (auto &x : objs)
            for (auto &o : x)
                drop(o);
        for (auto &l : lim)
            umfDisjointPoolSharedLimitsDestroy(l);
        for (auto &u : ups) {
            if (!u.live.empty())
                violate("leak:blocks", "%zu blocks of the upstream provider are left",
                        u.live.size());
            umfMemoryProviderDestroy(u.h);
        }
        for (auto &x : ZE.live)
            if (!ZE.refused.count(x.second.serial)) // the driver refused to free it
                violate("leak:device", "an allocation of %zu bytes of the driver is left",
                        x.second.size);
        for (int i = 1; i < 9; i++)
            if (region[i])
                os::release(region[i], 8 * MB2);
        umfTearDown();
        for (int i = 1; i < 9; i++)
            for (int n = 0; n < 2 && region[i]; n++)
                ;
        check_no_leak(base, "the run");
    }
};
SIM_SCENARIO("C25.params", Params)
} // namespace
