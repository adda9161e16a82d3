// C13: initialisation and teardown are reference counted; every successful
// initialisation gives a fully working library; nothing is left afterwards.
#include "stubs.h"
#include <deque>
#include <umf/ipc.h>
#include <umf/memspace.h>
#include <umf/memtarget.h>
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_scalable.h>
#include <umf/providers/provider_level_zero.h>
#include <umf/providers/provider_os_memory.h>
extern "C" {
umf_result_t umfCtlGet(const char *name, void *ctx, void *arg);
}
using namespace simx;
namespace {
enum { INIT, TEARDOWN, USE, EXTRA, NOPS };
enum { U_THIN, U_DISJOINT, U_OS, U_MEMSPACE, U_IPC, U_SCALABLE, U_ZE, U_CTL, NUSE };

struct Init : Scenario {
    Baseline base;
    int refs = 0;             // successful initialisations not torn down
    std::map<int, int> mine;  // by task
    int inflight = 0;         // INIT / TEARDOWN / USE operations running
    bool exclusive = false;
    uint64_t epoch_faults = 0;
    bool dirty = false;       // a failed init happened since the last teardown
    std::deque<Provider> provs;
    std::deque<ThinPool> pools;

    const char *op_name(uint32_t c) override {
        static const char *n[] = {"init", "teardown", "use", "extra_teardown"};
        return n[c % NOPS];
    }
    const char *real_parts() override {
        return "libumf, tracker, ipc cache, base allocator, memspaces, ctl, OS "
               "provider, disjoint pool, scalable pool, TBB malloc, Level Zero "
               "provider";
    }
    const char *stub_parts() override {
        return "upstream provider, thin pool, Level Zero driver, OS calls";
    }
    void generate(Rng &r, Program &p, bool thorough) override {
        int nt = (int)r.range(1, 4), k = (int)r.range(3, thorough ? 14 : 10);
        // a few kinds per run, so that they meet
        int kinds[3] = {(int)r.below(NUSE), (int)r.below(NUSE), (int)r.below(NUSE)};
        int warm = (int)r.below(2);
        if (warm) // a first cycle without faults or concurrency
            p.add(0, INIT), p.add(0, USE, kinds[0]), p.add(0, TEARDOWN);
        if (r.chance(1, 4))
            p.add(0, INIT); // main holds a reference all the time
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < k; i++) {
                unsigned x = (unsigned)r.below(100);
                int c = i == 0 ? INIT : x < 25 ? INIT : x < 50 ? TEARDOWN
                                                 : x < 96 ? USE : EXTRA;
                p.add((uint32_t)t, (uint32_t)c, kinds[r.below(3)],
                      (int64_t)r.next());
            }
        pick_faults(r, p, {F_META, F_BAMMAP, F_META, F_BAMMAP, F_MUTEXINIT,
                           F_TOPOLOGY, F_MMAP, F_PROV_ALLOC, F_DRIVER},
                    60);
    }
    void setup(const Program &) override {
        loader_install();
        // the lock that guards initialisation is created once per process
        {
            lib_init();
            umfTearDown();
        }
        base = baseline();
        for (auto &q : provs)
            (void)q;
    }
    bool clean() { return faults_fired() == epoch_faults; }
    // the result of a step of a use: may only fail when a fault was injected
    bool ok(bool cond, const char *what, int r = 0) {
        if (!cond && clean())
            violate("not-usable", "%s failed (%s) on an initialised library "
                                  "without any fault", what, res_name(r));
        return cond;
    }
    void quiescent() {
        if (inflight || refs)
            return;
        check_no_leak(base, "a full cycle of the library");
        if (loader_open_count())
            violate("leak:library", "%d libraries still open after the last "
                                    "teardown", loader_open_count());
        if (!dirty && os::mapped_bytes(0))
            violate("leak:base", "the last teardown left %zu bytes mapped for "
                                 "metadata%s", os::mapped_bytes(0),
                    os::maps_describe(0).c_str());
        probe("quiescent, everything returned");
    }
    void enter() {
        yield_until([this] { return !exclusive; });
        if (!inflight && !refs)
            epoch_faults = faults_fired();
        inflight++;
    }
    void leave() {
        inflight--;
        quiescent();
    }
    void exec(const Op &op) override {
        int me = task_id();
        switch (op.code % NOPS) {
        case INIT: {
            enter();
            uint64_t f0 = faults_fired();
            if (inflight > 1)
                probe("init with other calls in flight");
            int r = umfInit();
            if (r == 0) {
                refs++;
                mine[me]++;
            } else {
                if (r > 0)
                    violate("init-result", "umfInit returned %d", r);
                if (faults_fired() == f0 && clean())
                    violate("init-failed", "umfInit failed without any fault");
                if (refs == 0)
                    dirty = true;
                probe("init failed");
            }
            leave();
            break;
        }
        case TEARDOWN:
            if (!mine[me])
                break;
            enter();
            mine[me]--;
            if (--refs == 0 && inflight == 1)
                probe("last teardown");
            if (refs == 0)
                dirty = false;
            umfTearDown();
            leave();
            break;
        case EXTRA: // with no reference at all this must do nothing
            if (refs || inflight || exclusive)
                break;
            exclusive = true;
            umfTearDown();
            exclusive = false;
            probe("teardown without initialisation");
            quiescent();
            break;
        case USE:
            if (!mine[me])
                break;
            enter();
            use((int)(op.a[0] % NUSE), (uint64_t)op.a[1]);
            leave();
            break;
        }
    }
    Provider &new_provider() {
        provs.emplace_back();
        return provs.back();
    }
    umf_memory_provider_handle_t sim_prov(Provider &p) {
        umf_memory_provider_handle_t h = nullptr;
        umf_result_t r = umfMemoryProviderCreate(provider_ops(), &p, &h);
        p.h = h;
        return ok(r == UMF_RESULT_SUCCESS, "umfMemoryProviderCreate", r) ? h
                                                                         : nullptr;
    }
    umf_memory_provider_handle_t os_prov() {
        umf_os_memory_provider_params_handle_t pr = nullptr;
        umf_result_t r = umfOsMemoryProviderParamsCreate(&pr);
        if (!ok(r == UMF_RESULT_SUCCESS, "umfOsMemoryProviderParamsCreate", r))
            return nullptr;
        umf_memory_provider_handle_t h = nullptr;
        r = umfMemoryProviderCreate(umfOsMemoryProviderOps(), pr, &h);
        umfOsMemoryProviderParamsDestroy(pr);
        return ok(r == UMF_RESULT_SUCCESS, "umfMemoryProviderCreate(OS)", r)
                   ? h
                   : nullptr;
    }
    // allocate, check, look up, free
    void pool_use(umf_memory_pool_handle_t h, uint64_t seed, bool lookup) {
        Rng r(seed);
        std::vector<std::pair<void *, size_t>> v;
        int n = (int)r.range(1, 4);
        for (int i = 0; i < n; i++) {
            size_t sz = r.chance(1, 3) ? r.below(65536) + 1 : r.below(300) + 1;
            void *p = umfPoolMalloc(h, sz);
            if (!ok(p != nullptr, "umfPoolMalloc"))
                continue;
            fill(p, sz, (uintptr_t)p);
            v.push_back({p, sz});
            if (lookup && umfPoolByPtr((char *)p + sz - 1) != h)
                violate("lookup", "%p does not resolve to its pool after "
                                  "initialisation", p);
        }
        for (auto &x : v) {
            if (verify(x.first, x.second, (uintptr_t)x.first) >= 0)
                violate("corrupt", "block %p changed", x.first);
            umf_result_t q = r.chance(1, 2) && lookup ? umfFree(x.first)
                                                      : umfPoolFree(h, x.first);
            if (q != UMF_RESULT_SUCCESS && clean())
                violate("not-usable", "free failed (%s)", res_name(q));
        }
    }
    void use(int kind, uint64_t seed) {
        static const char *names[] = {"use thin pool", "use disjoint pool", "use OS provider",
                                      "use memspace", "use IPC", "use scalable pool",
                                      "use Level Zero", "use ctl"};
        probe(names[kind]);
        switch (kind) {
        case U_THIN:
        case U_IPC: {
            Provider &p = new_provider();
            auto h = sim_prov(p);
            if (!h)
                return;
            pools.emplace_back();
            ThinPool &q = pools.back();
            umf_result_t r = make_thin_pool(&q, h, 0);
            if (ok(r == UMF_RESULT_SUCCESS, "umfPoolCreate", r)) {
                if (kind == U_THIN)
                    pool_use(q.h, seed, true);
                else
                    ipc_use(q);
                umfPoolDestroy(q.h);
            }
            umfMemoryProviderDestroy(h);
            break;
        }
        case U_DISJOINT: {
            Provider &p = new_provider();
            auto h = sim_prov(p);
            if (!h)
                return;
            umf_disjoint_pool_params_handle_t pr = nullptr;
            umf_result_t r = umfDisjointPoolParamsCreate(&pr);
            if (ok(r == UMF_RESULT_SUCCESS, "umfDisjointPoolParamsCreate", r)) {
                umf_memory_pool_handle_t q = nullptr;
                r = umfPoolCreate(umfDisjointPoolOps(), h, pr, 0, &q);
                umfDisjointPoolParamsDestroy(pr);
                if (ok(r == UMF_RESULT_SUCCESS, "umfPoolCreate(disjoint)", r)) {
                    pool_use(q, seed, true);
                    umfPoolDestroy(q);
                }
            }
            umfMemoryProviderDestroy(h);
            if (p.live.size() && faults_fired_kind(F_META) +
                                         faults_fired_kind(F_BAMMAP) == 0)
                violate("leak:provider", "%zu blocks not given back",
                        p.live.size());
            break;
        }
        case U_SCALABLE: {
            auto h = seed & 1 ? os_prov() : sim_prov(new_provider());
            if (!h)
                return;
            umf_memory_pool_handle_t q = nullptr;
            umf_result_t r = umfPoolCreate(umfScalablePoolOps(), h, nullptr, 0, &q);
            if (ok(r == UMF_RESULT_SUCCESS, "umfPoolCreate(scalable)", r)) {
                pool_use(q, seed, true);
                umfPoolDestroy(q);
            }
            umfMemoryProviderDestroy(h);
            break;
        }
        case U_OS:
        case U_CTL: {
            auto h = os_prov();
            if (!h)
                return;
            void *p = nullptr;
            umf_result_t r = umfMemoryProviderAlloc(h, 8192, 0, &p);
            if (ok(r == UMF_RESULT_SUCCESS, "umfMemoryProviderAlloc(OS)", r)) {
                fill(p, 8192, seed);
                if (kind == U_CTL) {
                    size_t v = 0;
                    umf_result_t c = umfCtlGet(
                        "umf.provider.by_handle.stats.allocated_memory", h, &v);
                    if (ok(c == UMF_RESULT_SUCCESS, "umfCtlGet", c) && v != 8192)
                        violate("ctl-value", "allocated_memory is %zu", v);
                }
                if (verify(p, 8192, seed) >= 0)
                    violate("corrupt", "block %p changed", p);
                r = umfMemoryProviderFree(h, p, 8192);
                ok(r == UMF_RESULT_SUCCESS, "umfMemoryProviderFree(OS)", r);
            }
            umfMemoryProviderDestroy(h);
            break;
        }
        case U_MEMSPACE: {
            umf_const_memspace_handle_t m = umfMemspaceHostAllGet();
            if (!ok(m != nullptr, "umfMemspaceHostAllGet"))
                return;
            size_t n = umfMemspaceMemtargetNum(m);
            if (n != 2)
                violate("memspace", "host all has %zu targets, the machine 2", n);
            umf_memory_provider_handle_t h = nullptr;
            umf_result_t r = umfMemoryProviderCreateFromMemspace(m, nullptr, &h);
            if (ok(r == UMF_RESULT_SUCCESS, "provider from memspace", r)) {
                void *p = nullptr;
                r = umfMemoryProviderAlloc(h, 4096, 0, &p);
                if (ok(r == UMF_RESULT_SUCCESS, "umfMemoryProviderAlloc", r))
                    umfMemoryProviderFree(h, p, 4096);
                umfMemoryProviderDestroy(h);
            }
            break;
        }
        case U_ZE: {
            umf_level_zero_memory_provider_params_handle_t pr = nullptr;
            umf_result_t r = umfLevelZeroMemoryProviderParamsCreate(&pr);
            if (!ok(r == UMF_RESULT_SUCCESS, "ze params", r))
                return;
            umfLevelZeroMemoryProviderParamsSetContext(
                pr, (ze_context_handle_t)0x1000);
            umfLevelZeroMemoryProviderParamsSetMemoryType(pr, UMF_MEMORY_TYPE_HOST);
            umf_memory_provider_handle_t h = nullptr;
            r = umfMemoryProviderCreate(umfLevelZeroMemoryProviderOps(), pr, &h);
            umfLevelZeroMemoryProviderParamsDestroy(pr);
            if (ok(r == UMF_RESULT_SUCCESS, "ze provider", r)) {
                void *p = nullptr;
                r = umfMemoryProviderAlloc(h, 4096, 0, &p);
                if (ok(r == UMF_RESULT_SUCCESS, "ze alloc", r))
                    umfMemoryProviderFree(h, p, 4096);
                umfMemoryProviderDestroy(h);
            }
            break;
        }
        }
    }
    void ipc_use(ThinPool &q) {
        void *p = umfPoolMalloc(q.h, 5000);
        if (!ok(p != nullptr, "umfPoolMalloc"))
            return;
        umf_ipc_handle_t hd = nullptr;
        size_t sz = 0;
        umf_result_t r = umfGetIPCHandle(p, &hd, &sz);
        if (ok(r == UMF_RESULT_SUCCESS, "umfGetIPCHandle", r)) {
            umf_ipc_handler_handle_t ih = nullptr;
            void *m = nullptr;
            r = umfPoolGetIPCHandler(q.h, &ih);
            if (ok(r == UMF_RESULT_SUCCESS, "umfPoolGetIPCHandler", r)) {
                r = umfOpenIPCHandle(ih, hd, &m);
                if (ok(r == UMF_RESULT_SUCCESS, "umfOpenIPCHandle", r)) {
                    r = umfCloseIPCHandle(m);
                    ok(r == UMF_RESULT_SUCCESS, "umfCloseIPCHandle", r);
                }
            }
            r = umfPutIPCHandle(hd);
            ok(r == UMF_RESULT_SUCCESS, "umfPutIPCHandle", r);
        }
        r = umfPoolFree(q.h, p);
        ok(r == UMF_RESULT_SUCCESS, "umfPoolFree", r);
    }
    void finish() override {
        while (refs > 0) {
            if (--refs == 0)
                dirty = false;
            umfTearDown();
        }
        inflight = 0;
        quiescent();
        // faults are over: everything works again
        epoch_faults = faults_fired();
        if (umfInit())
            violate("init-failed", "umfInit failed after the faults ended");
        refs = 1;
        inflight = 1;
        for (int k = 0; k < NUSE; k++)
            use(k, 7);
        inflight = 0;
        refs = 0;
        dirty = false;
        umfTearDown();
        quiescent();
        if (os::mapped_bytes(0))
            violate("leak:base", "%zu bytes of metadata mappings left",
                    os::mapped_bytes(0));
    }
};
SIM_SCENARIO("C13.init", Init)
} // namespace
