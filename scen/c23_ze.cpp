// C23: Level Zero provider over a simulated driver with a strict ledger.
#include "stubs.h"
#include <deque>
#include <umf/providers/provider_level_zero.h>
using namespace simx;
namespace {
enum { CREATE, DESTROY, ALLOC, FREE, PAGE, GET, PUT, OPEN, CLOSE, UNSUPPORTED, NOPS };
struct ZP {
    int type = 1; // UMF_MEMORY_TYPE_HOST..
    ze_context_handle_t ctx{};
    ze_device_handle_t dev{};
    int nres = 0;
    ze_device_handle_t res[3]{};
    int policy = 0;
    uint32_t ordinal = 0;
    umf_memory_provider_handle_t h = nullptr;
    int inflight = 0;
    bool exclusive = false;
    int objs = 0; // allocations, mappings
};
struct Slot {
    void *p = nullptr;
    size_t size = 0;
    int prov = 0;
    bool busy = false;
    int readers = 0;
    uint64_t serial = 0;
};
struct HSlot {
    std::vector<char> data;
    bool used = false, busy = false;
    int prov = 0, slot = 0, inode = -1, proc = 0;
    uint64_t serial = 0;
};
struct OSlot {
    void *p = nullptr;
    bool busy = false;
    int prov = 0;
};
struct Ze : Scenario {
    std::deque<ZP> provs;
    std::deque<Slot> slots;
    std::deque<HSlot> hs;
    std::deque<OSlot> os_;
    Baseline base;
    bool sticky = false; // the library could not be opened
    int nprocs = 1;

    const char *op_name(uint32_t c) override {
        static const char *n[] = {"create", "destroy", "alloc", "free", "page_size",
                                  "get_ipc", "put_ipc", "open_ipc", "close_ipc",
                                  "unsupported"};
        return n[c % NOPS];
    }
    const char *real_parts() override {
        return "provider_level_zero, memory_provider, descriptor duplication, "
               "base allocator, library loading";
    }
    const char *stub_parts() override {
        return "Level Zero driver (ledger, fault injecting), OS calls";
    }
    void generate(Rng &r, Program &p, bool thorough) override {
        int nt = (int)r.range(1, 4), k = (int)r.range(4, thorough ? 30 : 20);
        p.cfg["provs"] = r.range(1, 3);
        for (int i = 0; i < 3; i++) {
            std::string n = std::to_string(i);
            p.cfg["type" + n] = r.range(1, 3);
            p.cfg["nres" + n] = (int64_t)r.below(4);
            p.cfg["policy" + n] = (int64_t)r.below(3);
            p.cfg["ord" + n] = (int64_t)r.below(3);
        }
        p.cfg["noput"] = r.chance(1, 5);
        p.cfg["nofree"] = r.chance(1, 6);
        p.cfg["page"] = r.chance(1, 2) ? 4096 : 65536;
        p.cfg["maxalloc"] = r.chance(1, 2) ? 1 << 20 : 8192;
        p.cfg["procs"] = r.range(1, 3);
        p.cfg["slots"] = r.range(1, 6);
        int ipc = (int)r.range(0, 50);
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < k; i++) {
                unsigned x = (unsigned)r.below(100);
                int c = (int)r.below(100) < ipc
                            ? (x < 35 ? GET : x < 50 ? PUT : x < 80 ? OPEN : CLOSE)
                            : x < 6 ? CREATE : x < 10 ? DESTROY : x < 55 ? ALLOC
                              : x < 88 ? FREE : x < 97 ? PAGE : UNSUPPORTED;
                static const int64_t sz[] = {1, 100, 4096, 5000, 8192, 65536, 1 << 20,
                                             (1 << 20) + 1, 3 << 20, 1ll << 40};
                p.add((uint32_t)t, (uint32_t)c, (int64_t)r.below(8),
                      sz[r.below(10)],
                      r.chance(1, 2) ? 0 : 1ll << r.below(17), (int64_t)r.below(3),
                      (int64_t)r.below(8));
            }
        pick_faults(r, p, {F_DRIVER, F_DRIVER, F_DRIVER, F_META, F_PIDFD, F_DLOPEN}, 75);
    }
    void setup(const Program &p) override {
        loader_install();
        base = baseline();
        lib_init();
        ZE.has_put = !p.get("noput");
        ZE.has_free_ext = !p.get("nofree");
        ZE.page = (size_t)p.get("page", 4096);
        ZE.max_alloc = (size_t)p.get("maxalloc", 8192);
        nprocs = (int)p.get("procs", 1);
        for (int i = 0; i < p.get("provs", 1); i++) {
            provs.emplace_back();
            ZP &q = provs.back();
            std::string n = std::to_string(i);
            q.type = (int)p.get(("type" + n).c_str(), 1);
            q.nres = (int)p.get(("nres" + n).c_str());
            q.policy = (int)p.get(("policy" + n).c_str());
            q.ordinal = (uint32_t)p.get(("ord" + n).c_str());
            q.ctx = (ze_context_handle_t)(uintptr_t)(0x1000 * (i + 1));
            q.dev = q.type == 1 ? nullptr : (ze_device_handle_t)(uintptr_t)(0x77000 + i);
            for (int j = 0; j < q.nres; j++)
                q.res[j] = (ze_device_handle_t)(uintptr_t)(0x88000 + j);
            ZE.policy_of[q.ctx] =
                q.policy == 1 ? ZE_DRIVER_MEMORY_FREE_POLICY_EXT_FLAG_BLOCKING_FREE
                : q.policy == 2 ? ZE_DRIVER_MEMORY_FREE_POLICY_EXT_FLAG_DEFER_FREE
                                : 0;
        }
        slots.resize((size_t)p.get("slots", 2));
        hs.resize(slots.size());
        os_.resize(slots.size());
    }
    int nlive(ze_context_handle_t c) { // not counting refused frees
        int n = 0;
        for (auto &x : ZE.live)
            if (x.second.ctx == c && !ZE.refused.count(x.second.serial))
                n++;
        return n;
    }
    // call result against what the driver told this task
    void result(const char *what, umf_result_t r, uint64_t f0, bool other_fail,
                umf_memory_provider_handle_t h) {
        int me = task_id();
        auto it = ZE.first_err.find(me);
        if (!valid_result(r))
            violate("bad-result", "%s returned %d", what, (int)r);
        if (it != ZE.first_err.end()) {
            ze_result_t e = it->second;
            if (r == UMF_RESULT_SUCCESS)
                violate("error-swallowed", "%s succeeded although the driver "
                                           "refused a call (%#x)", what, (unsigned)e);
            umf_result_t want =
                e == ZE_RESULT_ERROR_OUT_OF_HOST_MEMORY ? UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY
                : e == ZE_RESULT_ERROR_INVALID_ARGUMENT ? UMF_RESULT_ERROR_INVALID_ARGUMENT
                : UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
            if (r != want)
                violate("wrong-error", "%s returned %s for driver error %#x", what,
                        res_name(r), (unsigned)e);
            if (h && r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC) {
                const char *m = "x";
                int32_t n = 0;
                umfMemoryProviderGetLastNativeError(h, &m, &n);
                if (n != (int32_t)e)
                    violate("native-error", "%s failed with driver error %#x, "
                            "the native error reads %#x", what, (unsigned)e,
                            (unsigned)n);
                probe("native error read");
            }
        } else if (r != UMF_RESULT_SUCCESS && !other_fail && faults_fired() == f0)
            violate("spurious-failure", "%s failed (%s) without any refusal", what,
                    res_name(r));
    }
    void create(ZP &q) {
        uint64_t f0 = faults_fired();
        umf_level_zero_memory_provider_params_handle_t pr = nullptr;
        if (umfLevelZeroMemoryProviderParamsCreate(&pr) != UMF_RESULT_SUCCESS) {
            if (faults_fired() == f0)
                violate("create-failed", "params");
            return;
        }
        umfLevelZeroMemoryProviderParamsSetContext(pr, q.ctx);
        umfLevelZeroMemoryProviderParamsSetDevice(pr, q.dev);
        umfLevelZeroMemoryProviderParamsSetMemoryType(
            pr, (umf_usm_memory_type_t)q.type);
        ze_device_handle_t tmp[3];
        memcpy(tmp, q.res, sizeof tmp);
        umfLevelZeroMemoryProviderParamsSetResidentDevices(
            pr, q.nres ? tmp : nullptr, (uint32_t)q.nres);
        umfLevelZeroMemoryProviderParamsSetFreePolicy(
            pr, (umf_level_zero_memory_provider_free_policy_t)q.policy);
        umfLevelZeroMemoryProviderParamsSetDeviceOrdinal(pr, q.ordinal);
        ZE.first_err.erase(task_id());
        umf_memory_provider_handle_t h = nullptr;
        umf_result_t r = umfMemoryProviderCreate(umfLevelZeroMemoryProviderOps(), pr, &h);
        memset(tmp, 0, sizeof tmp); // the provider must have copied the array
        umfLevelZeroMemoryProviderParamsDestroy(pr);
        if (faults_fired_kind(F_DLOPEN))
            sticky = true;
        bool unsup = q.policy && !ZE.has_free_ext;
        result("create", r, f0, sticky || unsup, nullptr);
        if (r == UMF_RESULT_SUCCESS) {
            if (!h)
                violate("create-null", "creation succeeded without a provider");
            if (unsup)
                violate("create-unsupported", "a provider whose free policy the "
                                              "driver cannot honour was created");
            q.h = h;
        } else {
            probe("creation failed");
            if (h)
                violate("create-both", "creation failed (%s) and returned a provider",
                        res_name(r));
        }
        if (nlive(q.ctx))
            violate("leak:device", "creation (%s) left %d driver allocations",
                    res_name(r), nlive(q.ctx));
    }
    void exec(const Op &op) override {
        int me = task_id();
        os::set_proc(me % nprocs);
        ZP &q0 = provs[(size_t)op.a[3] % provs.size()];
        uint32_t c = op.code % NOPS;
        if (c == CREATE || c == DESTROY) {
            if (q0.exclusive)
                return;
            q0.exclusive = true;
            yield_until([&] { return q0.inflight == 0; });
            if (!q0.h)
                create(q0);
            else if (c == DESTROY && !q0.objs) {
                umfMemoryProviderDestroy(q0.h);
                q0.h = nullptr;
            }
            q0.exclusive = false;
            return;
        }
        switch (c) {
        case ALLOC: {
            Slot &s = slots[(size_t)op.a[0] % slots.size()];
            if (s.busy || s.p || s.readers)
                return;
            s.busy = true;
            s.prov = (int)((size_t)op.a[3] % provs.size());
            if (enter(q0)) {
                uint64_t f0 = faults_fired();
                size_t size = (size_t)op.a[1], al = (size_t)op.a[2];
                void *p = nullptr;
                umf_result_t r = umfMemoryProviderAlloc(q0.h, size, al, &p);
                result("alloc", r, f0, false, q0.h);
                if (r == UMF_RESULT_SUCCESS) {
                    auto it = ZE.live.find((uintptr_t)p);
                    if (it == ZE.live.end() || it->second.size != size)
                        violate("alloc-ghost", "alloc(%zu) returned %p, which the "
                                               "driver did not hand out", size, p);
                    ZeAlloc &a = it->second;
                    if (a.type != q0.type || a.ctx != q0.ctx || a.dev != q0.dev ||
                        (q0.type != 1 && a.ordinal != q0.ordinal))
                        violate("alloc-kind", "allocation of another type, context, "
                                              "device or ordinal");
                    if (al && (uintptr_t)p % al)
                        violate("misaligned", "alloc(%zu, %zu) returned %p", size, al, p);
                    for (int i = 0; i < q0.nres; i++)
                        if (!a.resident.count(q0.res[i]))
                            violate("not-resident", "allocation is not resident on "
                                                    "device %d", i);
                    s.p = p;
                    s.size = size;
                    s.serial = a.serial;
                    q0.objs++;
                    if (a.relaxed)
                        probe("relaxed allocation");
                } else
                    probe("alloc failed");
                leave(q0);
            }
            s.busy = false;
            break;
        }
        case FREE: {
            Slot &s = slots[(size_t)op.a[0] % slots.size()];
            if (s.busy || !s.p || s.readers)
                return;
            for (auto &h : hs)
                if (h.used && h.serial == s.serial)
                    return;
            s.busy = true;
            ZP &q = provs[(size_t)s.prov];
            if (enter(q)) {
                uint64_t f0 = faults_fired();
                umf_result_t r = umfMemoryProviderFree(q.h, s.p, s.size);
                result("free", r, f0, false, q.h);
                if (r == UMF_RESULT_SUCCESS) {
                    s.p = nullptr;
                    q.objs--;
                } else if (!ZE.live.count((uintptr_t)s.p))
                    violate("free-state", "a failed free released the block");
                leave(q);
            }
            s.busy = false;
            break;
        }
        case PAGE: {
            if (!enter(q0))
                return;
            Slot &s = slots[(size_t)op.a[0] % slots.size()];
            uint64_t f0 = faults_fired();
            size_t v = 0;
            void *p = nullptr;
            bool with = op.a[2] && s.p && !s.busy &&
                        provs[(size_t)s.prov].h == q0.h;
            if (with) {
                p = s.p;
                s.readers++;
            }
            umf_result_t r = umfMemoryProviderGetMinPageSize(q0.h, p, &v);
            if (with)
                s.readers--;
            result("min_page_size", r, f0, false, q0.h);
            if (r == UMF_RESULT_SUCCESS && v != ZE.page)
                violate("page-size", "page size reads %zu, is %zu", v, ZE.page);
            ZE.first_err.erase(me);
            f0 = faults_fired();
            r = umfMemoryProviderGetRecommendedPageSize(q0.h, 4096, &v);
            result("recommended_page_size", r, f0, false, q0.h);
            if (r == UMF_RESULT_SUCCESS && v != ZE.page)
                violate("page-size", "page size reads %zu, is %zu", v, ZE.page);
            leave(q0);
            break;
        }
        case GET: {
            size_t si = (size_t)op.a[0] % slots.size();
            Slot &s = slots[si];
            HSlot &h = hs[(size_t)op.a[4] % hs.size()];
            if (s.busy || !s.p || h.busy || h.used)
                return;
            h.busy = true;
            s.readers++;
            ZP &q = provs[(size_t)s.prov];
            if (enter(q)) {
                uint64_t f0 = faults_fired();
                size_t n = 0;
                umf_result_t r = umfMemoryProviderGetIPCHandleSize(q.h, &n);
                result("ipc_handle_size", r, f0, false, q.h);
                h.data.assign(n, 0);
                r = umfMemoryProviderGetIPCHandle(q.h, s.p, s.size, h.data.data());
                result("get_ipc_handle", r, f0, false, q.h);
                if (r == UMF_RESULT_SUCCESS) {
                    h.used = true;
                    h.prov = s.prov;
                    h.slot = (int)si;
                    h.proc = os::proc();
                    h.serial = s.serial;
                    q.objs++;
                }
                leave(q);
            }
            s.readers--;
            h.busy = false;
            break;
        }
        case PUT: {
            HSlot &h = hs[(size_t)op.a[4] % hs.size()];
            if (h.busy || !h.used)
                return;
            h.busy = true;
            os::set_proc(h.proc);
            ZP &q = provs[(size_t)h.prov];
            if (enter(q)) {
                uint64_t f0 = faults_fired();
                uint64_t n0 = ZE.n_put;
                umf_result_t r = umfMemoryProviderPutIPCHandle(q.h, h.data.data());
                result("put_ipc_handle", r, f0, false, q.h);
                if (ZE.has_put && ZE.n_put == n0)
                    violate("put-missing", "put did not reach the driver");
                h.used = false;
                q.objs--;
                leave(q);
            }
            h.busy = false;
            break;
        }
        case OPEN: {
            HSlot &h = hs[(size_t)op.a[4] % hs.size()];
            OSlot &o = os_[(size_t)op.a[0] % os_.size()];
            if (h.busy || !h.used || o.busy || o.p)
                return;
            h.busy = o.busy = true;
            ZP &q = provs[(size_t)h.prov];
            if (enter(q)) {
                int pr = os::proc();
                uint64_t f0 = faults_fired();
                std::vector<char> copy = h.data;
                void *p = nullptr;
                uint64_t n0 = ZE.n_open;
                umf_result_t r = umfMemoryProviderOpenIPCHandle(q.h, copy.data(), &p);
                result("open_ipc_handle", r, f0, false, q.h);
                if (copy != h.data)
                    violate("handle-modified", "opening changed the handle");
                if (r == UMF_RESULT_SUCCESS) {
                    auto it = ZE.opened.find((uintptr_t)p);
                    if (it == ZE.opened.end())
                        violate("open-ghost", "open returned %p, which the driver "
                                              "did not hand out", p);
                    auto hh = ZE.handles.find(it->second.first);
                    if (hh == ZE.handles.end() ||
                        hh->second.base != (uintptr_t)slots[(size_t)h.slot].p)
                        violate("open-wrong", "open mapped another allocation");
                    o.p = p;
                    o.prov = h.prov;
                    q.objs++;
                    if (pr != h.proc)
                        probe("opened in another process");
                }
                (void)n0;
                leave(q);
            }
            h.busy = o.busy = false;
            break;
        }
        case CLOSE: {
            OSlot &o = os_[(size_t)op.a[0] % os_.size()];
            if (o.busy || !o.p)
                return;
            o.busy = true;
            ZP &q = provs[(size_t)o.prov];
            if (enter(q)) {
                uint64_t f0 = faults_fired();
                umf_result_t r = umfMemoryProviderCloseIPCHandle(q.h, o.p, 4096);
                result("close_ipc_handle", r, f0, false, q.h);
                if (r == UMF_RESULT_SUCCESS) {
                    if (ZE.opened.count((uintptr_t)o.p))
                        violate("close-missing", "close did not reach the driver");
                    o.p = nullptr;
                    q.objs--;
                }
                leave(q);
            }
            o.busy = false;
            break;
        }
        case UNSUPPORTED: {
            if (!enter(q0))
                return;
            Slot &s = slots[(size_t)op.a[0] % slots.size()];
            if (s.p && !s.busy && provs[(size_t)s.prov].h == q0.h) {
                s.readers++;
                umf_result_t r = umfMemoryProviderPurgeLazy(q0.h, s.p, s.size);
                if (r != UMF_RESULT_ERROR_NOT_SUPPORTED)
                    violate("bad-result", "purge returned %s", res_name(r));
                s.readers--;
            }
            leave(q0);
            break;
        }
        }
        fds();
    }
    int running = 0;
    bool enter(ZP &q) {
        yield_until([&] { return !q.exclusive; });
        if (!q.h)
            return false;
        q.inflight++;
        running++;
        ZE.first_err.erase(task_id());
        return true;
    }
    void leave(ZP &q) {
        q.inflight--;
        running--;
    }
    void fds() {
        if (running)
            return;
        int n = 0;
        for (int i = 0; i < nprocs; i++)
            n += os::open_fds(i);
        if (n > (int)ZE.handles.size() + base.fds)
            violate("leak:descriptor", "%d descriptors open for %zu exported "
                    "handles%s", n, ZE.handles.size(), os::fds_describe().c_str());
    }
    void finish() override {
        os::set_proc(0);
        for (auto &o : os_)
            if (o.p && umfMemoryProviderCloseIPCHandle(provs[(size_t)o.prov].h, o.p, 4096))
                violate("close-failed", "close without faults");
        for (auto &h : hs)
            if (h.used) {
                os::set_proc(h.proc);
                if (umfMemoryProviderPutIPCHandle(provs[(size_t)h.prov].h, h.data.data()))
                    violate("put-failed", "put without faults");
            }
        os::set_proc(0);
        for (auto &s : slots)
            if (s.p && umfMemoryProviderFree(provs[(size_t)s.prov].h, s.p, s.size))
                violate("free-failed", "free without faults");
        for (auto &q : provs) {
            if (!q.h)
                create(q);
            if (!q.h && !sticky && !(q.policy && !ZE.has_free_ext))
                violate("not-recovered", "creation fails after the faults ended");
            if (q.h)
                umfMemoryProviderDestroy(q.h);
            if (nlive(q.ctx))
                violate("leak:device", "%d driver allocations left", nlive(q.ctx));
        }
        if (ZE.opened.size())
            violate("leak:opened", "%zu opened handles left", ZE.opened.size());
        umfTearDown();
        check_no_leak(base, "the Level Zero provider");
        if (loader_open_count())
            violate("leak:library", "the driver library was left open");
    }
};
SIM_SCENARIO("C23.ze", Ze)
} // namespace
