// C27: work that repeats and gives back all it takes does not make the library
// hold more and more, also when the same call fails every time round.
#include "stubs.h"
#include <deque>
extern "C" {
#include "ipc_internal.h"
#include <umf/ipc.h>
}
#include <umf/base.h>
#include <umf/mempolicy.h>
#include <umf/memspace.h>
#include <umf/memtarget.h>
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_proxy.h>
#include <umf/pools/pool_scalable.h>
#include <umf/providers/provider_devdax_memory.h>
#include <umf/providers/provider_file_memory.h>
#include <umf/providers/provider_fixed_memory.h>
#include <umf/providers/provider_level_zero.h>
#include <umf/providers/provider_os_memory.h>
using namespace simx;
namespace {
enum { POOLS, SPLITS, IPC, CREATES, DIRECT, INITS, NOPS };
enum { U_SIM, U_OS, U_FILE, U_FIXED, U_DEVDAX, U_NESTED, NUP };
enum { P_PROXY, P_DISJOINT, P_SCALABLE, P_THIN, NPOOL };
const std::vector<Fault> kinds = {
    F_META,      F_META,      F_META,  F_BAMMAP,  F_PROV_ALLOC, F_PROV_SPLIT,
    F_PROV_MERGE, F_PROV_QUERY, F_IPC_GET, F_IPC_OPEN, F_MMAP,  F_MMAP_FILE,
    F_FTRUNC,    F_FALLOC,    F_MUTEXINIT, F_MADVISE, F_OPEN,   F_STAT,
    F_PROV_INIT, F_MEMBIND,   F_TOPOLOGY};
struct Measure {
    std::vector<std::pair<const char *, int64_t>> v;
};
// what one task works with
struct Bench {
    int up = 0, pl = 0;
    Provider sim, sim2;
    ThinPool thin, thin2, inner;
    PoolProvider nest;
    umf_memory_provider_handle_t h = nullptr;
    umf_memory_pool_handle_t q = nullptr, below = nullptr, q2 = nullptr;
    void *region = nullptr;
    size_t page = 4096;
    bool tainted = false; // a free was refused: memory is rightly missing
};
const size_t REGION = 4u << 20;

struct Steady : Scenario {
    std::deque<Provider> provs;
    std::deque<Bench> benches;
    Baseline base;
    // rounds of all tasks that take part
    int active = 0, waiting = 0, streak[16] = {};
    uint64_t round = 0, mark = 0;
    bool valid = false, done = false;
    Measure last, first;

    const char *op_name(uint32_t c) override {
        static const char *n[] = {"pool_rounds", "split_rounds", "ipc_rounds",
                                  "create_rounds", "provider_rounds", "init_rounds"};
        return n[c % NOPS];
    }
    const char *real_parts() override {
        return "pools (proxy, disjoint, scalable), providers (OS, file, fixed, "
               "device-DAX), tracking, IPC caches, memspaces, policies, control, "
               "base allocator, critnib, coarse, TBB malloc, hwloc";
    }
    const char *stub_parts() override {
        return "upstream provider, pass-through pools, OS calls";
    }
    void generate(Rng &r, Program &p, bool thorough) override {
        p.cfg["steps"] = 20000000;
        int nt = r.chance(3, 4) ? 1 : (int)r.range(2, 3);
        p.cfg["limit"] = r.range(1, 4);
        for (int t = 1; t <= nt; t++) {
            int k = (int)r.range(1, thorough ? 3 : 2);
            for (int i = 0; i < k; i++) {
                static const int w[] = {POOLS, POOLS, POOLS, SPLITS, SPLITS, IPC, IPC,
                                        CREATES, DIRECT, INITS};
                int c = w[r.below(10)];
                if (c == INITS && nt > 1)
                    c = POOLS;
                int64_t f = r.chance(1, 2) ? 0 : 1 + (int64_t)r.below(kinds.size());
                p.add((uint32_t)t, (uint32_t)c, (int64_t)r.below(64), (int64_t)r.next(),
                      f, r.range(1, r.chance(1, 3) ? 24 : 5), r.range(1, 4),
                      r.chance(1, 3) ? r.range(1, 3) : 0);
            }
        }
    }
    void setup(const Program &p) override {
        loader_install();
        for (int i = 0; i < 8; i++) {
            char n[64];
            snprintf(n, sizeof n, "/mnt/f%d", i);
            os::set_map_sync(os::create_file(n, 0, false), false);
            snprintf(n, sizeof n, "/dev/dax0.%d", i);
            os::create_file(n, 8ull << 21, true);
        }
        os::set_env("UMF_MAX_OPENED_IPC_HANDLES",
                    std::to_string(p.get("limit", 2)).c_str());
        base = baseline();
        lib_init();
    }
    // -------------------------------------------------------------- rounds
    Measure measure() {
        Measure m;
        int64_t bytes = 0, blocks = 0, maps = 0, hand = 0;
        for (auto *l : {&provs})
            for (auto &p : *l)
                bytes += (int64_t)p.bytes, blocks += (int64_t)p.live.size(),
                    maps += (int64_t)p.mappings.size(), hand += (int64_t)p.handles_live;
        for (auto &b : benches)
            for (auto *p : {&b.sim, &b.sim2})
                bytes += (int64_t)p->bytes, blocks += (int64_t)p->live.size(),
                    maps += (int64_t)p->mappings.size(), hand += (int64_t)p->handles_live;
        m.v = {{"metadata blocks", (int64_t)os::meta_live()},
               {"bytes of metadata", (int64_t)os::meta_live_bytes()},
               {"bytes mapped by the metadata allocator", (int64_t)os::mapped_bytes(0)},
               {"bytes mapped by providers", (int64_t)os::mapped_bytes(1)},
               {"mappings of providers", (int64_t)os::mapped_count(1)},
               {"bytes taken from upstream providers", bytes},
               {"blocks taken from upstream providers", blocks},
               {"opened mappings of upstream providers", maps},
               {"IPC handles of upstream providers", hand},
               {"file descriptors", os::open_fds()},
               {"files", (int64_t)os::file_count()},
               {"node sets", os::live_bitmaps()},
               {"topologies", os::live_topologies()},
               {"libraries", loader_open_count()}};
        return m;
    }
    void compare() {
        Measure m = measure();
        waiting = 0;
        round++;
        done = false;
        if (valid) {
            bool any = false;
            for (size_t i = 0; i < m.v.size(); i++) {
                streak[i] = m.v[i].second > last.v[i].second ? streak[i] + 1 : 0;
                any |= streak[i] > 0;
                if (streak[i] >= 24)
                    violate("accumulates", "%s grew in each of 24 rounds that gave "
                            "back all they took, from %ld to %ld%s", m.v[i].first,
                            (long)first.v[i].second, (long)m.v[i].second,
                            os::meta_describe(3, mark).c_str());
            }
            done = !any;
            if (done)
                probe("steady");
        } else {
            memset(streak, 0, sizeof streak);
            first = m;
            mark = os::meta_mark();
        }
        valid = true;
        last = m;
    }
    void arrive() {
        uint64_t g = round;
        waiting++;
        if (waiting != active)
            yield_until([&] { return round != g || waiting == active; });
        if (round == g)
            compare();
    }
    template <class F> void rounds(const Op &op, Bench *b, F cycle) {
        int per = (int)std::max<int64_t>(1, std::min<int64_t>(4, op.a[4]));
        for (int i = 0; i < 36; i++) // nodes of the maps are reused after 16 removals
            if (!one(op, b, cycle))
                return;
        valid = false;
        for (int n = 0; n < 64; n++) {
            bool ok = true;
            for (int i = 0; i < per && ok; i++)
                ok = one(op, b, cycle);
            if (!ok)
                break;
            arrive();
            if (done)
                break;
        }
        valid = false;
    }
    template <class F> bool one(const Op &op, Bench *b, F cycle) {
        Rng r((uint64_t)op.a[1]);
        arm(op);
        cycle(r);
        fault_arm(0, 0, 0);
        if (b && b->tainted)
            probe("a free was refused");
        return !(b && b->tainted);
    }
    void arm(const Op &op) {
        if (op.a[2] <= 0)
            return;
        Fault f = kinds[(size_t)(op.a[2] - 1) % kinds.size()];
        fault_arm(1ull << f, (uint32_t)std::max<int64_t>(1, op.a[3]), (uint32_t)op.a[5]);
    }
    bool calm(const Op &op) { return op.a[2] <= 0; }
    // -------------------------------------------------------------- objects
    void must(umf_result_t x, const char *what) {
        if (x)
            violate("create-failed", "%s failed (%s) without any fault", what, res_name(x));
    }
    umf_result_t make_up(int u, int slot, Bench &b, Rng &r) {
        char path[64];
        umf_result_t x = UMF_RESULT_SUCCESS;
        switch (u) {
        case U_SIM:
            return umfMemoryProviderCreate(provider_ops(), &b.sim, &b.h);
        case U_OS: {
            umf_os_memory_provider_params_handle_t pr = nullptr;
            x = umfOsMemoryProviderParamsCreate(&pr);
            if (x)
                return x;
            unsigned nodes[] = {0, 1};
            switch (r.below(5)) {
            case 0:
                x = umfOsMemoryProviderParamsSetVisibility(pr, UMF_MEM_MAP_SHARED);
                break;
            case 1:
                x = umfOsMemoryProviderParamsSetVisibility(pr, UMF_MEM_MAP_SHARED);
                snprintf(path, sizeof path, "c27s%d", slot);
                if (!x)
                    x = umfOsMemoryProviderParamsSetShmName(pr, path);
                break;
            case 2:
                x = umfOsMemoryProviderParamsSetNumaList(pr, nodes, 2);
                if (!x)
                    x = umfOsMemoryProviderParamsSetNumaMode(pr, r.chance(1, 2)
                                                                     ? UMF_NUMA_MODE_SPLIT
                                                                     : UMF_NUMA_MODE_INTERLEAVE);
                break;
            }
            if (!x)
                x = umfMemoryProviderCreate(umfOsMemoryProviderOps(), pr, &b.h);
            umfOsMemoryProviderParamsDestroy(pr);
            return x;
        }
        case U_FILE: {
            snprintf(path, sizeof path, "/mnt/f%d", slot);
            umf_file_memory_provider_params_handle_t pr = nullptr;
            x = umfFileMemoryProviderParamsCreate(&pr, path);
            if (x)
                return x;
            x = umfFileMemoryProviderParamsSetVisibility(
                pr, r.chance(1, 2) ? UMF_MEM_MAP_SHARED : UMF_MEM_MAP_PRIVATE);
            if (!x)
                x = umfMemoryProviderCreate(umfFileMemoryProviderOps(), pr, &b.h);
            umfFileMemoryProviderParamsDestroy(pr);
            return x;
        }
        case U_FIXED: {
            if (!b.region)
                b.region = os::reserve(REGION, 4096);
            umf_fixed_memory_provider_params_handle_t pr = nullptr;
            x = umfFixedMemoryProviderParamsCreate(&pr, b.region, REGION);
            if (x)
                return x;
            x = umfMemoryProviderCreate(umfFixedMemoryProviderOps(), pr, &b.h);
            umfFixedMemoryProviderParamsDestroy(pr);
            return x;
        }
        case U_DEVDAX: {
            snprintf(path, sizeof path, "/dev/dax0.%d", slot);
            umf_devdax_memory_provider_params_handle_t pr = nullptr;
            x = umfDevDaxMemoryProviderParamsCreate(&pr, path, 8ull << 21);
            if (x)
                return x;
            x = umfMemoryProviderCreate(umfDevDaxMemoryProviderOps(), pr, &b.h);
            umfDevDaxMemoryProviderParamsDestroy(pr);
            b.page = 2u << 20;
            return x;
        }
        default: { // memory of another pool
            x = umfMemoryProviderCreate(provider_ops(), &b.sim, &b.h);
            if (x)
                return x;
            x = make_pool(r.chance(2, 3) ? P_DISJOINT : P_PROXY, b.h, b.inner, r, 0, &b.below);
            if (x) {
                umfMemoryProviderDestroy(b.h);
                b.h = nullptr;
                return x;
            }
            b.nest.pool = b.below;
            x = umfMemoryProviderCreate(pool_provider_ops(), &b.nest, &b.nest.h);
            if (x) {
                umfPoolDestroy(b.below);
                umfMemoryProviderDestroy(b.h);
                b.below = nullptr;
                b.h = nullptr;
            }
            return x;
        }
        }
    }
    void drop_up(Bench &b) {
        if (b.nest.h)
            umfMemoryProviderDestroy(b.nest.h);
        if (b.below)
            umfPoolDestroy(b.below);
        if (b.h)
            umfMemoryProviderDestroy(b.h);
        b.nest.h = b.h = nullptr;
        b.below = nullptr;
    }
    umf_memory_provider_handle_t top(Bench &b) { return b.nest.h ? b.nest.h : b.h; }
    umf_result_t make_pool(int k, umf_memory_provider_handle_t up, ThinPool &t, Rng &r,
                           umf_pool_create_flags_t fl, umf_memory_pool_handle_t *out) {
        umf_result_t x;
        switch (k) {
        case P_PROXY:
            return umfPoolCreate(umfProxyPoolOps(), up, nullptr, fl, out);
        case P_SCALABLE: {
            umf_scalable_pool_params_handle_t pr = nullptr;
            x = umfScalablePoolParamsCreate(&pr);
            if (x)
                return x;
            x = umfPoolCreate(umfScalablePoolOps(), up, pr, fl, out);
            umfScalablePoolParamsDestroy(pr);
            return x;
        }
        case P_DISJOINT: {
            umf_disjoint_pool_params_handle_t pr = nullptr;
            x = umfDisjointPoolParamsCreate(&pr);
            if (x)
                return x;
            if (r.chance(1, 2))
                umfDisjointPoolParamsSetSlabMinSize(pr, 4096u << r.below(4));
            if (r.chance(1, 2))
                umfDisjointPoolParamsSetMaxPoolableSize(pr, (size_t)4096 << r.below(5));
            if (r.chance(1, 2))
                umfDisjointPoolParamsSetCapacity(pr, (size_t)r.below(4));
            x = umfPoolCreate(umfDisjointPoolOps(), up, pr, fl, out);
            umfDisjointPoolParamsDestroy(pr);
            return x;
        }
        default:
            x = make_thin_pool(&t, up, fl);
            *out = x ? nullptr : t.h;
            return x;
        }
    }
    // gives a block back; a refusal is tried again without faults
    void give(Bench &b, umf_memory_pool_handle_t q, void *p) {
        if (!p)
            return;
        umf_result_t x = r_free(q, p);
        if (!x)
            return;
        fault_arm(0, 0, 0);
        if (umfPoolByPtr(p) == q && !r_free(q, p))
            return;
        b.tainted = true;
    }
    umf_result_t r_free(umf_memory_pool_handle_t q, void *p) {
        return umfPoolFree(q, p);
    }
    // -------------------------------------------------------------- ops
    void pools(const Op &op, int slot) {
        benches.emplace_back();
        Bench &b = benches.back();
        Rng r((uint64_t)op.a[1] + 1);
        b.up = (int)((uint64_t)op.a[0] % NUP);
        b.pl = (int)((uint64_t)op.a[0] / NUP % NPOOL);
        if (b.pl == P_SCALABLE && b.up >= U_FILE)
            b.up = r.chance(1, 2) ? U_SIM : U_OS;
        must(make_up(b.up, slot, b, r), "provider");
        must(make_pool(b.pl, top(b), b.thin, r, 0, &b.q), "pool");
        bool quiet_free = r.chance(1, 2);
        size_t cap = b.up == U_FIXED ? 30000 : b.up == U_DEVDAX ? 5000 : 200000;
        bool big = r.chance(1, 3);
        rounds(op, &b, [&](Rng &c) {
            void *v[12] = {};
            int n = (int)c.range(1, 12);
            for (int i = 0; i < n; i++) {
                size_t sz = c.chance(big ? 2 : 1, 4) ? c.below(cap) + 1 : c.below(400) + 1;
                switch (b.pl == P_THIN ? 0 : c.below(5)) {
                case 0:
                case 1:
                    v[i] = umfPoolMalloc(b.q, sz);
                    break;
                case 2:
                    v[i] = umfPoolCalloc(b.q, 1, sz);
                    break;
                case 3:
                    v[i] = umfPoolAlignedMalloc(b.q, sz, (size_t)1 << c.range(3, 13));
                    break;
                default: {
                    v[i] = umfPoolMalloc(b.q, sz);
                    void *p = umfPoolRealloc(b.q, v[i], c.below(cap) + 1);
                    if (p)
                        v[i] = p;
                }
                }
                if (c.chance(1, 3)) { // out of order
                    int j = (int)c.below((uint64_t)i + 1);
                    give(b, b.q, v[j]);
                    v[j] = nullptr;
                }
                if (v[i] && c.chance(1, 4)) {
                    umfPoolByPtr(v[i]);
                    umfPoolMallocUsableSize(b.q, v[i]);
                }
                if (b.tainted)
                    return;
            }
            if (quiet_free)
                fault_arm(0, 0, 0);
            for (int i = n; i-- > 0;)
                give(b, b.q, v[i]);
        });
        fault_arm(0, 0, 0);
        if (b.tainted)
            b.sim.strict = false;
        umfPoolDestroy(b.q);
        drop_up(b);
    }
    // blocks split and merged through the tracking provider
    void splits(const Op &op, int slot) {
        (void)slot;
        benches.emplace_back();
        Bench &b = benches.back();
        Rng r((uint64_t)op.a[1] + 1);
        must(make_up(U_SIM, slot, b, r), "provider");
        must(make_pool(P_THIN, top(b), b.thin, r, 0, &b.q), "pool");
        bool inner = r.chance(1, 3);
        bool quiet_free = r.chance(1, 2);
        if (inner) {
            b.nest.pool = b.q;
            must(umfMemoryProviderCreate(pool_provider_ops(), &b.nest, &b.nest.h), "provider");
            must(make_pool(r.chance(1, 2) ? P_PROXY : P_DISJOINT, b.nest.h, b.thin2, r, 0, &b.q2),
                 "pool");
        }
        ThinPool &t = b.thin;
        rounds(op, &b, [&](Rng &c) {
            std::vector<std::pair<uintptr_t, size_t>> v;
            int blocks = (int)c.range(1, 3);
            for (int k = 0; k < blocks; k++) {
                size_t n = 4096 * (size_t)c.range(2, 12);
                uintptr_t p = (uintptr_t)umfPoolMalloc(b.q, n);
                if (!p)
                    continue;
                std::vector<std::pair<uintptr_t, size_t>> w = {{p, n}};
                int steps = (int)c.range(0, 6);
                for (int i = 0; i < steps; i++) {
                    size_t j = c.below(w.size());
                    if (c.chance(3, 5) && w[j].second > 4096) {
                        size_t f = 4096 * (size_t)c.range(1, (int64_t)(w[j].second / 4096) - 1);
                        uintptr_t a = w[j].first, m = a + f;
                        size_t len = w[j].second;
                        t.blocks[a] = f;
                        t.blocks[m] = len - f;
                        if (umfMemoryProviderAllocationSplit(t.provider, (void *)a, len, f)) {
                            t.blocks[a] = len;
                            t.blocks.erase(m);
                        } else {
                            w[j].second = f;
                            w.insert(w.begin() + (long)j + 1, {m, len - f});
                        }
                    } else if (j + 1 < w.size()) {
                        uintptr_t a = w[j].first, m = w[j + 1].first;
                        size_t len = w[j].second + w[j + 1].second;
                        if (!umfMemoryProviderAllocationMerge(t.provider, (void *)a,
                                                              (void *)m, len)) {
                            t.blocks[a] = len;
                            t.blocks.erase(m);
                            w[j].second = len;
                            w.erase(w.begin() + (long)j + 1);
                        }
                    }
                }
                v.insert(v.end(), w.begin(), w.end());
            }
            void *in[4] = {};
            if (b.q2)
                for (int i = 0; i < 4; i++)
                    in[i] = umfPoolMalloc(b.q2, c.below(9000) + 1);
            if (quiet_free)
                fault_arm(0, 0, 0);
            for (auto *p : in)
                if (b.q2)
                    give(b, b.q2, p);
            while (!v.empty()) {
                size_t j = c.below(v.size());
                give(b, b.q, (void *)v[j].first);
                v.erase(v.begin() + (long)j);
            }
        });
        fault_arm(0, 0, 0);
        if (b.tainted)
            b.sim.strict = false;
        if (b.q2)
            umfPoolDestroy(b.q2);
        if (b.nest.h) {
            umfMemoryProviderDestroy(b.nest.h);
            b.nest.h = nullptr;
        }
        umfPoolDestroy(b.q);
        drop_up(b);
    }
    // handles made, opened, closed and put
    void ipc(const Op &op, int slot) {
        (void)slot;
        benches.emplace_back();
        Bench &b = benches.back();
        Rng r((uint64_t)op.a[1] + 1);
        must(make_up(U_SIM, slot, b, r), "provider");
        int pk = (int)r.below(3) ? P_THIN : P_DISJOINT;
        must(make_pool(pk, b.h, b.thin, r, 0, &b.q), "pool");
        make_provider(&b.sim2);
        must(make_pool(P_THIN, b.sim2.h, b.thin2, r, 0, &b.q2), "pool");
        umf_ipc_handler_handle_t hd = nullptr;
        must(umfPoolGetIPCHandler(b.q2, &hd), "handler");
        bool quiet_free = r.chance(1, 2), keep = r.chance(1, 4);
        void *kept = keep ? umfPoolMalloc(b.q, 4096) : nullptr;
        rounds(op, &b, [&](Rng &c) {
            int n = (int)c.range(1, 4);
            void *v[4] = {}, *o[4] = {};
            umf_ipc_handle_t h[4] = {};
            for (int i = 0; i < n; i++) {
                size_t sz = 4096 * (size_t)c.range(1, 6);
                v[i] = keep && i == 0 ? kept : umfPoolMalloc(b.q, sz);
                if (!v[i])
                    continue;
                size_t hs = 0;
                if (umfGetIPCHandle(v[i], &h[i], &hs)) {
                    h[i] = nullptr;
                    continue;
                }
                if (c.chance(1, 4)) { // a second handle of the same block
                    umf_ipc_handle_t g = nullptr;
                    if (!umfGetIPCHandle(v[i], &g, &hs) && umfPutIPCHandle(g))
                        violate("put-failed", "a handle could not be put back");
                }
                if (c.chance(3, 4) && umfOpenIPCHandle(hd, h[i], &o[i]))
                    o[i] = nullptr;
                if (o[i] && c.chance(1, 4)) {
                    void *again = nullptr;
                    if (!umfOpenIPCHandle(hd, h[i], &again) && umfCloseIPCHandle(again))
                        violate("close-failed", "an opened handle could not be closed");
                }
            }
            if (quiet_free)
                fault_arm(0, 0, 0);
            for (int i = 0; i < n; i++) {
                if (o[i] && umfCloseIPCHandle(o[i]))
                    violate("close-failed", "an opened handle could not be closed");
                if (h[i] && umfPutIPCHandle(h[i]))
                    violate("put-failed", "a handle could not be put back");
                if (v[i] && v[i] != kept)
                    give(b, b.q, v[i]);
            }
        });
        fault_arm(0, 0, 0);
        if (b.tainted)
            b.sim.strict = b.sim2.strict = false;
        if (kept)
            give(b, b.q, kept);
        umfPoolDestroy(b.q2);
        umfMemoryProviderDestroy(b.sim2.h);
        umfPoolDestroy(b.q);
        drop_up(b);
    }
    // objects of every kind made and destroyed, used in between
    void creates(const Op &op, int slot) {
        benches.emplace_back();
        Bench &b = benches.back();
        int what = (int)((uint64_t)op.a[0] % (NUP + 4));
        rounds(op, &b, [&](Rng &c) {
            if (what < NUP) {
                umf_result_t x = make_up(what, slot, b, c);
                if (x)
                    return;
                int pk = (int)c.below(NPOOL);
                if (pk == P_SCALABLE && what >= U_FILE)
                    pk = P_PROXY;
                umf_memory_pool_handle_t q = nullptr;
                if (!make_pool(pk, top(b), b.thin, c, 0, &q)) {
                    void *p = umfPoolMalloc(q, 100);
                    size_t z = 0;
                    umf_ipc_handler_handle_t hd = nullptr;
                    umfPoolGetIPCHandler(q, &hd);
                    umfPoolGetIPCHandleSize(q, &z);
                    give(b, q, p);
                    umfPoolDestroy(q);
                }
                drop_up(b);
                return;
            }
            switch (what - NUP) {
            case 0: {
                unsigned ids[2] = {0, 1};
                umf_memspace_handle_t m = nullptr, k = nullptr;
                if (!umfMemspaceCreateFromNumaArray(ids, 2, &m)) {
                    if (!umfMemspaceClone(m, &k)) {
                        umfMemspaceFilterById(k, ids, 1);
                        size_t cap;
                        umfMemtargetGetCapacity(umfMemspaceMemtargetGet(k, 0), &cap);
                        umfMemspaceDestroy(k);
                    }
                    umf_memory_provider_handle_t h = nullptr;
                    if (!umfMemoryProviderCreateFromMemspace(m, nullptr, &h)) {
                        void *p = nullptr;
                        if (!umfMemoryProviderAlloc(h, 8192, 0, &p))
                            b.tainted |= umfMemoryProviderFree(h, p, 8192) != 0;
                        umfMemoryProviderDestroy(h);
                    }
                    umfMemspaceDestroy(m);
                }
                break;
            }
            case 1: {
                umf_mempolicy_handle_t pol = nullptr;
                if (!umfMempolicyCreate(UMF_MEMPOLICY_INTERLEAVE, &pol)) {
                    umfMempolicySetInterleavePartSize(pol, 4096);
                    umf_const_memspace_handle_t m = umfMemspaceHostAllGet();
                    umf_memory_provider_handle_t h = nullptr;
                    if (m && !umfMemoryProviderCreateFromMemspace(m, pol, &h))
                        umfMemoryProviderDestroy(h);
                    umfMempolicyDestroy(pol);
                }
                break;
            }
            case 2: { // parameter objects, set again and again
                umf_file_memory_provider_params_handle_t f = nullptr;
                if (!umfFileMemoryProviderParamsCreate(&f, "/mnt/f7")) {
                    umfFileMemoryProviderParamsSetPath(f, "/mnt/f6");
                    umfFileMemoryProviderParamsDestroy(f);
                }
                umf_os_memory_provider_params_handle_t o = nullptr;
                if (!umfOsMemoryProviderParamsCreate(&o)) {
                    unsigned nodes[2] = {0, 1};
                    umfOsMemoryProviderParamsSetNumaList(o, nodes, 2);
                    umfOsMemoryProviderParamsSetNumaList(o, nodes, 1);
                    umfOsMemoryProviderParamsSetShmName(o, "c27n");
                    umfOsMemoryProviderParamsSetShmName(o, "c27m");
                    umf_numa_split_partition_t pt[2] = {{1, 0}, {2, 1}};
                    umfOsMemoryProviderParamsSetPartitions(o, pt, 2);
                    umfOsMemoryProviderParamsSetPartitions(o, pt, 1);
                    umfOsMemoryProviderParamsDestroy(o);
                }
                umf_devdax_memory_provider_params_handle_t d = nullptr;
                if (!umfDevDaxMemoryProviderParamsCreate(&d, "/dev/dax0.7", 2u << 20)) {
                    umfDevDaxMemoryProviderParamsSetDeviceDax(d, "/dev/dax0.6", 2u << 20);
                    umfDevDaxMemoryProviderParamsDestroy(d);
                }
                umf_disjoint_pool_params_handle_t p = nullptr;
                if (!umfDisjointPoolParamsCreate(&p)) {
                    umfDisjointPoolParamsSetName(p, "one");
                    umfDisjointPoolParamsSetName(p, "two");
                    umfDisjointPoolParamsDestroy(p);
                }
                umf_level_zero_memory_provider_params_handle_t z = nullptr;
                if (!umfLevelZeroMemoryProviderParamsCreate(&z)) {
                    ze_device_handle_t dv[2] = {(ze_device_handle_t)0x2000,
                                                (ze_device_handle_t)0x2010};
                    umfLevelZeroMemoryProviderParamsSetResidentDevices(z, dv, 2);
                    umfLevelZeroMemoryProviderParamsSetResidentDevices(z, dv, 1);
                    umfLevelZeroMemoryProviderParamsDestroy(z);
                }
                umf_disjoint_pool_shared_limits_handle_t l =
                    umfDisjointPoolSharedLimitsCreate(1 << 20);
                if (l)
                    umfDisjointPoolSharedLimitsDestroy(l);
                break;
            }
            default: { // control queries
                if (!b.h && make_up(U_OS, slot, b, c))
                    return;
                size_t v = 0;
                umfCtlGet("umf.provider.by_handle.stats.allocated_memory", b.h, &v);
                umfCtlGet("umf.provider.by_handle.stats.peak_memory", b.h, &v);
                umfCtlGet("umf.provider.by_handle.no.such", b.h, &v);
                umfCtlGet("umf.provider.default.params", b.h, &v);
                drop_up(b);
            }
            }
        });
        fault_arm(0, 0, 0);
        drop_up(b);
        if (b.tainted)
            b.sim.strict = false;
    }
    // a provider used without a pool
    void direct(const Op &op, int slot) {
        benches.emplace_back();
        Bench &b = benches.back();
        Rng r((uint64_t)op.a[1] + 1);
        b.up = (int)((uint64_t)op.a[0] % U_NESTED);
        must(make_up(b.up, slot, b, r), "provider");
        bool quiet_free = r.chance(1, 2);
        bool can_split = b.up != U_OS;
        rounds(op, &b, [&](Rng &c) {
            struct S {
                char *p;
                size_t n;
            };
            std::vector<S> v;
            int n = (int)c.range(1, 6);
            for (int i = 0; i < n; i++) {
                size_t sz = b.page * (size_t)c.range(1, b.up == U_DEVDAX ? 2 : 5);
                void *p = nullptr;
                size_t al = c.chance(1, 4) ? b.page << c.below(b.up == U_DEVDAX ? 1 : 3) : 0;
                if (!umfMemoryProviderAlloc(b.h, sz, al, &p) && p)
                    v.push_back({(char *)p, sz});
                if (!v.empty() && c.chance(1, 3)) {
                    size_t j = c.below(v.size());
                    if (can_split && v[j].n > b.page) {
                        if (!umfMemoryProviderAllocationSplit(b.h, v[j].p, v[j].n, b.page)) {
                            S hi = {v[j].p + b.page, v[j].n - b.page};
                            v[j].n = b.page;
                            if (c.chance(1, 2) &&
                                !umfMemoryProviderAllocationMerge(b.h, v[j].p, hi.p,
                                                                  hi.n + b.page))
                                v[j].n += hi.n;
                            else
                                v.push_back(hi);
                        }
                    } else if (c.chance(1, 2))
                        umfMemoryProviderPurgeLazy(b.h, v[j].p, v[j].n);
                    else
                        umfMemoryProviderPurgeForce(b.h, v[j].p, v[j].n);
                }
                if (!v.empty() && c.chance(1, 3)) {
                    size_t j = c.below(v.size());
                    back(b, v[j].p, v[j].n);
                    v.erase(v.begin() + (long)j);
                }
            }
            if (quiet_free)
                fault_arm(0, 0, 0);
            while (!v.empty() && !b.tainted) {
                size_t j = c.below(v.size());
                back(b, v[j].p, v[j].n);
                v.erase(v.begin() + (long)j);
            }
        });
        fault_arm(0, 0, 0);
        if (b.tainted)
            b.sim.strict = false;
        drop_up(b);
    }
    void back(Bench &b, char *p, size_t n) {
        if (umfMemoryProviderFree(b.h, p, n)) {
            fault_arm(0, 0, 0);
            b.tainted |= umfMemoryProviderFree(b.h, p, n) != UMF_RESULT_SUCCESS;
        }
    }
    // the library itself started and stopped
    void inits(const Op &op, int slot) {
        umfTearDown();
        rounds(op, nullptr, [&](Rng &c) {
            if (umfInit())
                return;
            if (c.chance(1, 3)) {
                umfInit();
                umfTearDown();
            }
            if (c.chance(1, 2)) {
                umfMemspaceHostAllGet();
                umfMemspaceHighestCapacityGet();
            }
            if (c.chance(1, 2)) {
                Bench b;
                if (!make_up(U_OS, slot, b, c)) {
                    umf_memory_pool_handle_t q = nullptr;
                    if (!make_pool((int)c.below(NPOOL), b.h, b.thin, c, 0, &q)) {
                        void *p = umfPoolMalloc(q, 5000);
                        if (p)
                            umfPoolFree(q, p);
                        umfPoolDestroy(q);
                    }
                    drop_up(b);
                }
            }
            umfTearDown();
        });
        fault_arm(0, 0, 0);
        lib_init();
    }
    void exec(const Op &op) override {
        if (op.a[2] > 0 && !faults_enabled())
            faults_enable(true);
        int slot = task_id() % 8;
        // from here on the others wait for this task at the end of each round:
        // one that is stalled inside the library may make it keep memory
        active++;
        valid = false;
        work(op, slot);
        active--;
        valid = false;
    }
    void work(const Op &op, int slot) {
        switch (op.code % NOPS) {
        case POOLS:
            pools(op, slot);
            break;
        case SPLITS:
            splits(op, slot);
            break;
        case IPC:
            ipc(op, slot);
            break;
        case CREATES:
            creates(op, slot);
            break;
        case DIRECT:
            direct(op, slot);
            break;
        default:
            inits(op, slot);
        }
    }
    void finish() override {
        for (auto &b : benches) {
            if (b.region)
                os::release(b.region, REGION);
            b.region = nullptr;
            if (!b.tainted && (b.sim.bytes || b.sim2.bytes))
                violate("leak:provider", "memory was not given back to the upstream "
                                         "provider");
        }
        umfTearDown();
    }
};
SIM_SCENARIO("C27.steady", Steady)
} // namespace
