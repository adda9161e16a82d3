// C28: the extension interface. Providers and pools that a user writes are
// called exactly when and as the interface promises, optional functions may be
// left out, and what they answer comes back unchanged.
#include "common.h"
#include <deque>
extern "C" {
#include "memory_provider_internal.h"
#include <umf/ipc.h>
#include <umf/memory_pool.h>
}
#include <umf/base.h>
using namespace simx;
namespace {
enum { MKPROV, RMPROV, MKPOOL, RMPOOL, CALL, TRACKED, POOLCALL, FREEPTR, CTL, REFUSED, NOPS };
enum Fn {
    PI, PF, PALLOC, PFREE, PNERR, PREC, PMIN, PNAME, PLAZY, PFORCE, PMERGE, PSPLIT,
    PIPCSZ, PIPCGET, PIPCPUT, PIPCOPEN, PIPCCLOSE, PCTL,
    QI, QF, QMALLOC, QCALLOC, QREALLOC, QALIGNED, QUSABLE, QFREE, QERR, QCTL, NFN
};
const char *fn_name[] = {
    "provider.initialize", "provider.finalize", "provider.alloc", "provider.free",
    "provider.get_last_native_error", "provider.get_recommended_page_size",
    "provider.get_min_page_size", "provider.get_name", "provider.purge_lazy",
    "provider.purge_force", "provider.allocation_merge", "provider.allocation_split",
    "provider.get_ipc_handle_size", "provider.get_ipc_handle",
    "provider.put_ipc_handle", "provider.open_ipc_handle",
    "provider.close_ipc_handle", "provider.ctl", "pool.initialize", "pool.finalize",
    "pool.malloc", "pool.calloc", "pool.realloc", "pool.aligned_malloc",
    "pool.malloc_usable_size", "pool.free", "pool.get_last_allocation_error",
    "pool.ctl"};
// what a provider may leave out
enum { X_SPLIT = 1, X_LAZY = 2, X_FORCE = 4, X_IPC = 8, X_CTL = 16 };
const umf_result_t RES[] = {
    UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC,
    UMF_RESULT_ERROR_INVALID_ARGUMENT, UMF_RESULT_ERROR_INVALID_ALIGNMENT,
    UMF_RESULT_ERROR_NOT_SUPPORTED, UMF_RESULT_ERROR_USER_SPECIFIC,
    UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE, UMF_RESULT_ERROR_OUT_OF_RESOURCES,
    UMF_RESULT_ERROR_UNKNOWN};

struct Prov {
    int alive = 0; // between initialize and finalize
    int inits = 0, finals = 0;
    unsigned mask = 0;
    umf_memory_provider_handle_t h = nullptr;
    int pools = 0;
    bool owned = false;
};
struct Pool {
    int alive = 0, inits = 0, finals = 0;
    bool ctl = false, tracked = false;
    umf_memory_pool_handle_t h = nullptr;
    umf_memory_provider_handle_t given = nullptr;
    Prov *prov = nullptr;
    bool own = false;
    std::map<uintptr_t, size_t> live[8]; // by task
    void *early = nullptr;               // obtained while it was initialised
};
struct Call {
    int fn;
    const void *self;
    uint64_t a[4];
};
struct Mind { // per task
    std::vector<Call> got, want;
    umf_result_t res = UMF_RESULT_SUCCESS;
    uint64_t val = 0;
    umf_memory_provider_handle_t last = nullptr; // last failed provider
    bool early = false;                          // the pool allocates at once
    std::string name;
    uint64_t fa = 0, fm = 0; // faults before the operation
};
std::deque<Prov> *g_provs;
Mind g_mind[16];
Mind &mind() { return g_mind[task_id() & 15]; }
uintptr_t g_next;
const char *const TEXT = "what went wrong";

void seen(int fn, const void *self, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0,
          uint64_t d = 0) {
    point();
    mind().got.push_back({fn, self, {a, b, c, d}});
    trace("callback %s(%p, %llx, %llx, %llx, %llx)", fn_name[fn], self,
          (unsigned long long)a, (unsigned long long)b, (unsigned long long)c,
          (unsigned long long)d);
}
template <class T> T *as(void *p, int fn) {
    T *x = (T *)p;
    if (!x || x->alive != 1)
        violate("call-outside-life", "%s was called on an object that is %s",
                fn_name[fn], !x ? "NULL" : x->inits ? "finalized" : "not initialized");
    return x;
}
uint64_t U(const void *p) { return (uint64_t)(uintptr_t)p; }

// ---- provider callbacks
umf_result_t pinit(void *params, void **priv) {
    seen(PI, params);
    Mind &m = mind();
    if (m.res)
        return m.res;
    Prov *p = (Prov *)params;
    p->inits++;
    p->alive++;
    *priv = p;
    return UMF_RESULT_SUCCESS;
}
void pfinal(void *v) {
    Prov *p = as<Prov>(v, PF);
    seen(PF, p);
    p->alive--;
    p->finals++;
}
umf_result_t palloc(void *v, size_t s, size_t al, void **out) {
    Prov *p = as<Prov>(v, PALLOC);
    seen(PALLOC, p, s, al);
    if (!mind().res)
        *out = (void *)(uintptr_t)mind().val;
    return mind().res;
}
umf_result_t pfree(void *v, void *ptr, size_t s) {
    Prov *p = as<Prov>(v, PFREE);
    seen(PFREE, p, U(ptr), s);
    return mind().res;
}
void pnerr(void *v, const char **msg, int32_t *e) {
    Prov *p = as<Prov>(v, PNERR);
    seen(PNERR, p, U(msg), U(e));
    *msg = TEXT;
    *e = (int32_t)mind().val;
}
umf_result_t prec(void *v, size_t s, size_t *out) {
    seen(PREC, as<Prov>(v, PREC), s);
    if (!mind().res)
        *out = mind().val;
    return mind().res;
}
umf_result_t pmin(void *v, void *ptr, size_t *out) {
    seen(PMIN, as<Prov>(v, PMIN), U(ptr));
    if (!mind().res)
        *out = mind().val;
    return mind().res;
}
const char *pname(void *v) {
    seen(PNAME, as<Prov>(v, PNAME));
    return (const char *)(uintptr_t)mind().val;
}
umf_result_t plazy(void *v, void *ptr, size_t s) {
    seen(PLAZY, as<Prov>(v, PLAZY), U(ptr), s);
    return mind().res;
}
umf_result_t pforce(void *v, void *ptr, size_t s) {
    seen(PFORCE, as<Prov>(v, PFORCE), U(ptr), s);
    return mind().res;
}
umf_result_t pmerge(void *v, void *lo, void *hi, size_t t) {
    seen(PMERGE, as<Prov>(v, PMERGE), U(lo), U(hi), t);
    return mind().res;
}
umf_result_t psplit(void *v, void *ptr, size_t t, size_t f) {
    seen(PSPLIT, as<Prov>(v, PSPLIT), U(ptr), t, f);
    return mind().res;
}
umf_result_t pisz(void *v, size_t *out) {
    seen(PIPCSZ, as<Prov>(v, PIPCSZ));
    if (!mind().res)
        *out = mind().val;
    return mind().res;
}
umf_result_t piget(void *v, const void *ptr, size_t s, void *d) {
    seen(PIPCGET, as<Prov>(v, PIPCGET), U(ptr), s, U(d));
    return mind().res;
}
umf_result_t piput(void *v, void *d) {
    seen(PIPCPUT, as<Prov>(v, PIPCPUT), U(d));
    return mind().res;
}
umf_result_t piopen(void *v, void *d, void **out) {
    seen(PIPCOPEN, as<Prov>(v, PIPCOPEN), U(d));
    if (!mind().res)
        *out = (void *)(uintptr_t)mind().val;
    return mind().res;
}
umf_result_t piclose(void *v, void *ptr, size_t s) {
    seen(PIPCCLOSE, as<Prov>(v, PIPCCLOSE), U(ptr), s);
    return mind().res;
}
umf_result_t pctl(void *v, int, const char *name, void *arg, umf_ctl_query_type_t q) {
    seen(PCTL, as<Prov>(v, PCTL), U(arg), q);
    mind().name = name ? name : "(null)";
    return mind().res;
}
// ---- pool callbacks
umf_result_t qinit(umf_memory_provider_handle_t prov, void *params, void **priv) {
    Mind &m = mind();
    seen(QI, params);
    Pool *q = (Pool *)params;
    q->given = prov;
    if (m.early) {
        umf_result_t keep = m.res;
        m.res = UMF_RESULT_SUCCESS;
        void *b = nullptr;
        if (!umfMemoryProviderAlloc(prov, 4096, 0, &b) && b) {
            if (keep)
                umfMemoryProviderFree(prov, b, 4096);
            else
                q->early = b;
        } else
            m.last = umfGetLastFailedMemoryProvider();
        m.res = keep;
    }
    if (m.res)
        return m.res;
    q->inits++;
    q->alive++;
    *priv = q;
    return UMF_RESULT_SUCCESS;
}
void qfinal(void *v) {
    Pool *q = as<Pool>(v, QF);
    seen(QF, q);
    if (q->early)
        umfMemoryProviderFree(q->given, q->early, 4096);
    q->alive--;
    q->finals++;
}
void *qmalloc(void *v, size_t s) {
    seen(QMALLOC, as<Pool>(v, QMALLOC), s);
    return (void *)(uintptr_t)mind().val;
}
void *qcalloc(void *v, size_t n, size_t s) {
    seen(QCALLOC, as<Pool>(v, QCALLOC), n, s);
    return (void *)(uintptr_t)mind().val;
}
void *qrealloc(void *v, void *ptr, size_t s) {
    seen(QREALLOC, as<Pool>(v, QREALLOC), U(ptr), s);
    return (void *)(uintptr_t)mind().val;
}
void *qaligned(void *v, size_t s, size_t al) {
    seen(QALIGNED, as<Pool>(v, QALIGNED), s, al);
    return (void *)(uintptr_t)mind().val;
}
size_t qusable(void *v, void *ptr) {
    seen(QUSABLE, as<Pool>(v, QUSABLE), U(ptr));
    return (size_t)mind().val;
}
umf_result_t qfree(void *v, void *ptr) {
    seen(QFREE, as<Pool>(v, QFREE), U(ptr));
    return mind().res;
}
umf_result_t qerr(void *v) {
    seen(QERR, as<Pool>(v, QERR));
    return mind().res;
}
umf_result_t qctl(void *h, int, const char *name, void *arg, umf_ctl_query_type_t q) {
    seen(QCTL, h, U(arg), q); // gets the handle of the pool
    mind().name = name ? name : "(null)";
    return mind().res;
}
// what is called when the library kept the caller's structure
void stale() { violate("stale-ops", "a function was taken from the structure the "
                                    "caller has reused since"); }

struct Ext : Scenario {
    std::deque<Prov> provs;
    std::deque<Pool> pools;
    std::deque<Prov> dead; // objects of attempts that failed, kept for reports
    Baseline base;
    Program prog;
    const char *op_name(uint32_t c) override {
        static const char *n[] = {"create_provider", "destroy_provider", "create_pool",
                                  "destroy_pool", "provider_call", "tracked_call",
                                  "pool_call", "free_by_pointer", "control", "refused_call"};
        return n[c % NOPS];
    }
    const char *real_parts() override {
        return "memory_provider, memory_pool, tracking provider, critnib, control "
               "dispatch, base allocator";
    }
    const char *stub_parts() override {
        return "user providers and pools (planned answers), OS calls";
    }
    static int64_t num(Rng &r) {
        switch (r.below(8)) {
        case 0: return 0;
        case 1: return 1;
        case 2: return -1;
        case 3: return 4096;
        case 4: return INT64_MIN;
        case 5: return (int64_t)r.next();
        default: return (int64_t)r.below(1u << 22);
        }
    }
    void generate(Rng &r, Program &p, bool thorough) override {
        log_cfg(r, p, 12);
        int nt = (int)r.range(1, 3), k = (int)r.range(6, thorough ? 60 : 30);
        p.cfg["masks"] = (int64_t)(r.next() & 0x7fffffff);
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < k; i++) {
                static const int w[] = {MKPROV, MKPROV, RMPROV, MKPOOL, MKPOOL, RMPOOL,
                                        CALL, CALL, CALL, CALL, CALL, TRACKED, TRACKED,
                                        TRACKED, TRACKED, TRACKED, POOLCALL, POOLCALL,
                                        POOLCALL, FREEPTR, FREEPTR, CTL, CTL, REFUSED, REFUSED};
                int c = w[r.below(sizeof w / sizeof *w)];
                p.add((uint32_t)t, (uint32_t)c, (int64_t)r.below(64),
                      (int64_t)r.below(4096), (int64_t)r.below(16), num(r), num(r),
                      (int64_t)r.next());
            }
        pick_faults(r, p, {F_META, F_META, F_META, F_BAMMAP, F_MUTEXINIT}, 40);
    }
    // ---- expectations
    void want(int fn, const void *self, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0,
              uint64_t d = 0) {
        mind().want.push_back({fn, self, {a, b, c, d}});
    }
    void begin(umf_result_t res, uint64_t val) {
        Mind &m = mind();
        m.got.clear();
        m.want.clear();
        m.res = res;
        m.val = val;
        m.early = false;
        m.fa = faults_fired();
        m.fm = faults_fired_kind(F_MUTEXINIT);
    }
    static std::string show(const std::vector<Call> &v) {
        std::string s;
        for (auto &c : v) {
            char b[160];
            snprintf(b, sizeof b, "%s%s(%llx, %llx, %llx)", s.empty() ? "" : ", ",
                     fn_name[c.fn], (unsigned long long)c.a[0],
                     (unsigned long long)c.a[1], (unsigned long long)c.a[2]);
            s += b;
        }
        return s.empty() ? "nothing" : s;
    }
    static bool same(const std::vector<Call> &x, const std::vector<Call> &y) {
        if (x.size() != y.size())
            return false;
        for (size_t i = 0; i < x.size(); i++)
            if (x[i].fn != y[i].fn || x[i].self != y[i].self ||
                memcmp(x[i].a, y[i].a, sizeof x[i].a))
                return false;
        return true;
    }
    bool faulty() { return faults_fired() != mind().fa; }
    // something could not be created because metadata was refused
    void no_memory(umf_result_t r, umf_result_t res, const char *what) {
        if (faults_fired_kind(F_MUTEXINIT) == mind().fm &&
            r != UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY && (r != res || mind().got.empty()))
            violate("wrong-result", "%s gave %s; metadata was refused", what, res_name(r));
    }
    void calls(const char *what) {
        Mind &m = mind();
        if (!same(m.got, m.want))
            violate("wrong-calls", "%s called %s; must call %s", what,
                    show(m.got).c_str(), show(m.want).c_str());
    }
    void result(umf_result_t got, umf_result_t exp, const char *what) {
        if (got != exp)
            violate("wrong-result", "%s gave %s; must give %s", what, res_name(got),
                    res_name(exp));
    }
    // last failed provider of this thread; `fails` when non-null just failed
    void last(umf_memory_provider_handle_t fails, const char *what) {
        Mind &m = mind();
        if (fails)
            m.last = fails;
        umf_memory_provider_handle_t g = umfGetLastFailedMemoryProvider();
        if (g != m.last)
            violate("wrong-last-failed",
                    "after %s (%s) the last failed provider is %p; must be %p", what,
                    fails ? "failed" : "did not fail", (void *)g, (void *)m.last);
    }
    // a refused call may or may not count as a failure of the provider
    void last_refused(umf_memory_provider_handle_t h, const char *what) {
        Mind &m = mind();
        umf_memory_provider_handle_t g = umfGetLastFailedMemoryProvider();
        if (g != m.last && (!h || g != h))
            violate("wrong-last-failed", "after %s was refused the last failed "
                                         "provider is %p", what, (void *)g);
        m.last = g;
    }
    umf_result_t plan(int64_t v) {
        return v & 1 ? RES[(size_t)(v >> 1 & 0xff) % (sizeof RES / sizeof *RES)]
                     : UMF_RESULT_SUCCESS;
    }
    // ---- objects
    // slots: 0,1 belong to everybody and live as long as the run, the others to
    // one task
    Prov *prov_any(int64_t a) {
        int t = task_id();
        size_t s[] = {0, 1, (size_t)(2 * t), (size_t)(2 * t + 1)};
        for (int i = 0; i < 4; i++) {
            Prov &p = provs[s[(size_t)(a + i) % 4]];
            if (p.h)
                return &p;
        }
        return nullptr;
    }
    Pool *pool_any(int64_t a) {
        int t = task_id();
        size_t s[] = {0, 1, (size_t)(2 * t), (size_t)(2 * t + 1)};
        for (int i = 0; i < 4; i++) {
            Pool &p = pools[s[(size_t)(a + i) % 4]];
            if (p.h)
                return &p;
        }
        return nullptr;
    }
    static void build(umf_memory_provider_ops_t &o, unsigned mask) {
        memset(&o, 0, sizeof o);
        o.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
        o.initialize = pinit;
        o.finalize = pfinal;
        o.alloc = palloc;
        o.free = pfree;
        o.get_last_native_error = pnerr;
        o.get_recommended_page_size = prec;
        o.get_min_page_size = pmin;
        o.get_name = pname;
        if (mask & X_SPLIT)
            o.ext.allocation_split = psplit, o.ext.allocation_merge = pmerge;
        if (mask & X_LAZY)
            o.ext.purge_lazy = plazy;
        if (mask & X_FORCE)
            o.ext.purge_force = pforce;
        if (mask & X_IPC) {
            o.ipc.get_ipc_handle_size = pisz;
            o.ipc.get_ipc_handle = piget;
            o.ipc.put_ipc_handle = piput;
            o.ipc.open_ipc_handle = piopen;
            o.ipc.close_ipc_handle = piclose;
        }
        if (mask & X_CTL)
            o.ctl = pctl;
    }
    template <class T> static void scrub(T &o) {
        // every function pointer now leads to stale()
        uint32_t v = o.version;
        void **w = (void **)&o;
        for (size_t i = 0; i < sizeof o / sizeof *w; i++)
            w[i] = (void *)stale;
        o.version = v;
    }
    void make_prov(Prov &p, unsigned mask, umf_result_t res, unsigned how) {
        p = Prov();
        p.mask = mask;
        umf_memory_provider_ops_t o;
        build(o, mask);
        bool bad = false;
        if (how == 1)
            o.version = UMF_MAKE_VERSION(0, 9);
        else if (how == 2) { // something that must not be missing is missing
            bad = true;
            switch (mask * 7 % 11) {
            case 0: o.alloc = nullptr; break;
            case 1: o.free = nullptr; break;
            case 2: o.get_recommended_page_size = nullptr; break;
            case 3: o.get_min_page_size = nullptr; break;
            case 4: o.initialize = nullptr; break;
            case 5: o.finalize = nullptr; break;
            case 6: o.get_last_native_error = nullptr; break;
            case 7: o.get_name = nullptr; break;
            case 8:
                o.ext.allocation_split = mask & 1 ? nullptr : psplit;
                o.ext.allocation_merge = mask & 1 ? pmerge : nullptr;
                break;
            default:
                switch (mask * 3 % 5) {
                case 0: o.ipc.get_ipc_handle_size = mask & X_IPC ? nullptr : pisz; break;
                case 1: o.ipc.get_ipc_handle = mask & X_IPC ? nullptr : piget; break;
                case 2: o.ipc.put_ipc_handle = mask & X_IPC ? nullptr : piput; break;
                case 3: o.ipc.open_ipc_handle = mask & X_IPC ? nullptr : piopen; break;
                default: o.ipc.close_ipc_handle = mask & X_IPC ? nullptr : piclose;
                }
            }
        }
        begin(res, 0);
        umf_memory_provider_handle_t h = nullptr;
        umf_result_t r = umfMemoryProviderCreate(&o, &p, &h);
        scrub(o);
        if (bad) {
            result(r, UMF_RESULT_ERROR_INVALID_ARGUMENT,
                   "creating a provider whose mandatory functions are incomplete");
            calls("creating a provider whose functions are incomplete");
            last_refused(nullptr, "creating a provider");
            p = Prov();
            return;
        }
        if (faulty() && r) {
            if (p.inits != p.finals)
                violate("not-finalized", "a provider that could not be created was "
                                         "initialized %d times and finalized %d times",
                        p.inits, p.finals);
            no_memory(r, res, "creating a provider");
            last_refused(nullptr, "creating a provider");
            p = Prov();
            return;
        }
        want(PI, &p);
        calls("creating a provider");
        result(r, res, "creating a provider");
        last_refused(nullptr, "creating a provider");
        if (r) {
            p = Prov();
            return;
        }
        if (!h)
            violate("no-handle", "a created provider has no handle");
        p.h = h;
        if (umfMemoryProviderGetPriv(h) != &p)
            violate("wrong-priv", "the provider's data is %p; it gave %p",
                    umfMemoryProviderGetPriv(h), (void *)&p);
    }
    void drop_prov(Prov &p) {
        begin(UMF_RESULT_SUCCESS, 0);
        want(PF, &p);
        umfMemoryProviderDestroy(p.h);
        calls("destroying a provider");
        p = Prov();
    }
    void make_pool(Pool &q, Prov &p, unsigned flags, umf_result_t res, unsigned how,
                   bool early) {
        q = Pool();
        umf_memory_pool_ops_t o;
        memset(&o, 0, sizeof o);
        o.version = how == 1 ? UMF_MAKE_VERSION(0, 9) : UMF_POOL_OPS_VERSION_CURRENT;
        o.initialize = qinit;
        o.finalize = qfinal;
        o.malloc = qmalloc;
        o.calloc = qcalloc;
        o.realloc = qrealloc;
        o.aligned_malloc = qaligned;
        o.malloc_usable_size = qusable;
        o.free = qfree;
        o.get_last_allocation_error = qerr;
        o.ctl = how & 2 ? qctl : nullptr;
        q.ctl = how & 2;
        q.tracked = !(flags & UMF_POOL_CREATE_FLAG_DISABLE_TRACKING);
        q.own = flags & UMF_POOL_CREATE_FLAG_OWN_PROVIDER;
        uintptr_t block = next(4096);
        begin(res, block);
        mind().early = early;
        umf_memory_pool_handle_t h = nullptr;
        umf_result_t r = umfPoolCreate(&o, p.h, &q, flags, &h);
        scrub(o);
        mind().early = false;
        if (p.alive != 1)
            violate("provider-finalized", "creating a pool finalized its provider (%s)",
                    res_name(r));
        if (faulty() && r) {
            if (q.inits != q.finals)
                violate("not-finalized", "a pool that could not be created was "
                                         "initialized %d times and finalized %d times",
                        q.inits, q.finals);
            no_memory(r, res, "creating a pool");
            mind().last = umfGetLastFailedMemoryProvider();
            q = Pool();
            return;
        }
        want(QI, &q);
        if (early) {
            want(PALLOC, &p, 4096, 0);
            if (res)
                want(PFREE, &p, block, 4096);
        }
        // the block may be refused for lack of metadata
        if (faulty() && early && !q.early) {
            mind().want.resize(1);
            mind().got.resize(1);
        }
        calls("creating a pool");
        result(r, res, "creating a pool");
        last(nullptr, "creating a pool");
        if (r) {
            q = Pool();
            return;
        }
        if (!h)
            violate("no-handle", "a created pool has no handle");
        q.h = h;
        q.prov = &p;
        p.pools++;
        p.owned = q.own;
        if ((q.given == p.h) == q.tracked)
            violate("wrong-provider", "a pool %s tracking was given %s provider",
                    q.tracked ? "with" : "without", q.given == p.h ? "the caller's" : "another");
        umf_memory_provider_handle_t g = nullptr;
        begin(UMF_RESULT_SUCCESS, 0);
        umf_result_t rr = umfPoolGetMemoryProvider(h, &g);
        calls("umfPoolGetMemoryProvider");
        if (rr || g != p.h)
            violate("wrong-provider", "umfPoolGetMemoryProvider gave %s, %p; the pool "
                                      "was created over %p",
                    res_name(rr), (void *)g, (void *)p.h);
    }
    void drop_pool(Pool &q) {
        for (auto &l : q.live) // what is left goes back first
            while (!l.empty()) {
                auto it = l.begin();
                begin(UMF_RESULT_SUCCESS, 0);
                want(PFREE, q.prov, it->first, it->second);
                umf_result_t r =
                    umfMemoryProviderFree(q.given, (void *)it->first, it->second);
                calls("freeing through a pool's provider");
                result(r, UMF_RESULT_SUCCESS, "freeing through a pool's provider");
                l.erase(it);
            }
        begin(UMF_RESULT_SUCCESS, 0);
        want(QF, &q);
        if (q.early)
            want(PFREE, q.prov, U(q.early), 4096);
        if (q.own)
            want(PF, q.prov);
        Prov *p = q.prov;
        umfPoolDestroy(q.h);
        calls("destroying a pool");
        p->pools--;
        if (q.own)
            *p = Prov();
        q = Pool();
    }
    uintptr_t next(size_t size) { // an address range nobody else has
        g_next += 1u << 20;
        uintptr_t a = g_next;
        g_next += (size + 0xfffff) & ~(size_t)0xfffff;
        return a;
    }
    void setup(const Program &p) override {
        prog = p;
        g_next = 0x200000000000;
        for (auto &m : g_mind)
            m = Mind();
        provs.resize(2 * (p.ntasks + 1) + 2);
        pools.resize(2 * (p.ntasks + 1) + 2);
        g_provs = &provs;
        base = baseline();
        log_setup(p);
        lib_init();
        unsigned m = (unsigned)p.get("masks");
        make_prov(provs[0], m & 31, UMF_RESULT_SUCCESS, 0);
        make_prov(provs[1], m >> 5 & 31, UMF_RESULT_SUCCESS, m >> 10 & 1);
        make_pool(pools[0], provs[0], 0, UMF_RESULT_SUCCESS, m >> 11 & 2, false);
        make_pool(pools[1], provs[m >> 13 & 1],
                  m >> 14 & 1 ? UMF_POOL_CREATE_FLAG_DISABLE_TRACKING : 0,
                  UMF_RESULT_SUCCESS, m >> 15 & 2, m >> 16 & 1);
    }
    // one call on provider handle h (of provider p), directly
    void call(Prov &p, const Op &op) {
        umf_result_t res = plan(op.a[1]);
        uint64_t x = (uint64_t)op.a[3], y = (uint64_t)op.a[4], val = (uint64_t)op.a[5];
        void *ptr = (void *)(uintptr_t)(x ? x : 16), *ptr2 = (void *)(uintptr_t)(y ? y : 32);
        umf_memory_provider_handle_t h = p.h;
        umf_result_t r, none = UMF_RESULT_ERROR_NOT_SUPPORTED;
        begin(res, val);
        const char *what = "?";
        unsigned need = 0;
        size_t out = 0x1234;
        void *po = (void *)0x1234;
        switch (op.a[2] % 16) {
        case 0:
            what = "umfMemoryProviderAlloc";
            want(PALLOC, &p, x, y);
            r = umfMemoryProviderAlloc(h, x, y, &po);
            if (!r && po != (void *)(uintptr_t)val)
                violate("wrong-out", "%s gave %p; the provider gave %llx", what, po,
                        (unsigned long long)val);
            break;
        case 1:
            what = "umfMemoryProviderFree";
            want(PFREE, &p, x, y);
            r = umfMemoryProviderFree(h, (void *)(uintptr_t)x, y);
            break;
        case 2: {
            what = "umfMemoryProviderGetLastNativeError";
            const char *msg = nullptr;
            int32_t e = 0;
            want(PNERR, &p, U(&msg), U(&e));
            umfMemoryProviderGetLastNativeError(h, &msg, &e);
            if (msg != TEXT || e != (int32_t)val)
                violate("wrong-out", "%s gave %p, %d", what, msg, e);
            r = res = UMF_RESULT_SUCCESS;
            break;
        }
        case 3:
            what = "umfMemoryProviderGetRecommendedPageSize";
            want(PREC, &p, x);
            r = umfMemoryProviderGetRecommendedPageSize(h, x, &out);
            if (!r && out != val)
                violate("wrong-out", "%s", what);
            break;
        case 4:
            what = "umfMemoryProviderGetMinPageSize";
            want(PMIN, &p, x);
            r = umfMemoryProviderGetMinPageSize(h, (void *)(uintptr_t)x, &out);
            if (!r && out != val)
                violate("wrong-out", "%s", what);
            break;
        case 5: {
            what = "umfMemoryProviderGetName";
            want(PNAME, &p);
            const char *n = umfMemoryProviderGetName(h);
            if (U(n) != val)
                violate("wrong-out", "%s", what);
            r = res = UMF_RESULT_SUCCESS;
            break;
        }
        case 6:
            what = "umfMemoryProviderPurgeLazy";
            need = X_LAZY;
            want(PLAZY, &p, U(ptr), y);
            r = umfMemoryProviderPurgeLazy(h, ptr, y);
            break;
        case 7:
            what = "umfMemoryProviderPurgeForce";
            need = X_FORCE;
            want(PFORCE, &p, U(ptr), y);
            r = umfMemoryProviderPurgeForce(h, ptr, y);
            break;
        case 8:
        case 9: {
            what = "umfMemoryProviderAllocationSplit";
            need = X_SPLIT;
            uint64_t total = x < 2 ? 2 : x, first = y % total;
            first = first ? first : 1;
            want(PSPLIT, &p, U(ptr2), total, first);
            r = umfMemoryProviderAllocationSplit(h, ptr2, total, first);
            break;
        }
        case 10: {
            what = "umfMemoryProviderAllocationMerge";
            need = X_SPLIT;
            uint64_t lo = x ? x : 1, hi = y;
            if (lo == ~0ull)
                lo--;
            if (hi <= lo)
                hi = lo + 1;
            uint64_t total = hi - lo;
            total = total == ~0ull ? total : total + 1 + val % (~0ull - total);
            if (hi - lo >= total)
                hi = lo + 1, total = 2;
            want(PMERGE, &p, lo, hi, total);
            r = umfMemoryProviderAllocationMerge(h, (void *)(uintptr_t)lo,
                                                 (void *)(uintptr_t)hi, total);
            break;
        }
        case 11:
            what = "umfMemoryProviderGetIPCHandleSize";
            need = X_IPC;
            want(PIPCSZ, &p);
            r = umfMemoryProviderGetIPCHandleSize(h, &out);
            if (!r && out != val)
                violate("wrong-out", "%s", what);
            break;
        case 12:
            what = "umfMemoryProviderGetIPCHandle";
            need = X_IPC;
            want(PIPCGET, &p, U(ptr), y, U(ptr2));
            r = umfMemoryProviderGetIPCHandle(h, ptr, y, ptr2);
            break;
        case 13:
            what = "umfMemoryProviderPutIPCHandle";
            need = X_IPC;
            want(PIPCPUT, &p, U(ptr));
            r = umfMemoryProviderPutIPCHandle(h, ptr);
            break;
        case 14:
            what = "umfMemoryProviderOpenIPCHandle";
            need = X_IPC;
            want(PIPCOPEN, &p, U(ptr));
            r = umfMemoryProviderOpenIPCHandle(h, ptr, &po);
            if (!r && po != (void *)(uintptr_t)val)
                violate("wrong-out", "%s", what);
            break;
        default:
            what = "umfMemoryProviderCloseIPCHandle";
            need = X_IPC;
            want(PIPCCLOSE, &p, U(ptr), y);
            r = umfMemoryProviderCloseIPCHandle(h, ptr, y);
        }
        if ((p.mask & need) != need) {
            mind().want.clear();
            res = none;
            probe("optional function left out");
        }
        calls(what);
        result(r, res, what);
        last(r ? h : nullptr, what);
    }
    // calls through the provider that a pool with tracking is given
    void tracked(Pool &q, const Op &op) {
        auto &live = q.live[task_id() & 7];
        Prov &p = *q.prov;
        umf_memory_provider_handle_t h = q.given;
        umf_result_t res = plan(op.a[1]), r;
        uint64_t x = (uint64_t)op.a[3], y = (uint64_t)op.a[4];
        int kind = (int)(op.a[2] % 16);
        auto it = live.begin();
        if (!live.empty())
            std::advance(it, (size_t)(op.a[5] >> 8 & 0xffff) % live.size());
        if (live.empty() && ((kind >= 3 && kind <= 9) || kind == 15))
            kind = 0;
        switch (kind) {
        case 0:
        case 1:
        case 2: {
            size_t size = 4096 * (size_t)(1 + (uint64_t)op.a[5] % 64);
            uintptr_t a = next(size);
            bool null = kind == 2 && (op.a[5] >> 20 & 3) == 0; // "success" without memory
            begin(res, null ? 0 : a);
            want(PALLOC, &p, size, y);
            void *o = (void *)0x77;
            r = umfMemoryProviderAlloc(h, size, y, &o);
            if (faulty() && r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY && !res) {
                want(PFREE, &p, a, size);
                calls("a tracked allocation that could not be recorded");
                last(h, "a tracked allocation");
                probe("allocation could not be recorded");
                break;
            }
            calls("a tracked allocation");
            result(r, res, "a tracked allocation");
            last(r ? h : nullptr, "a tracked allocation");
            if (r)
                break;
            if (o != (void *)(null ? 0 : a))
                violate("wrong-out", "a tracked allocation gave %p; the provider gave %lx",
                        o, null ? 0 : a);
            if (!null)
                live[a] = size;
            break;
        }
        case 3:
        case 4: { // free
            uintptr_t a = it->first;
            size_t size = it->second;
            begin(res, 0);
            want(PFREE, &p, a, size);
            r = umfMemoryProviderFree(h, (void *)a, size);
            calls("a tracked free");
            result(r, res, "a tracked free");
            last(r ? h : nullptr, "a tracked free");
            if (!r || faulty()) // (it may be unrecorded now)
                live.erase(it);
            break;
        }
        case 5:
        case 6: { // split
            uintptr_t a = it->first;
            size_t size = it->second;
            if (size < 4096)
                break;
            size_t first = x % size;
            first = first ? first : 1;
            bool wrong = (op.a[5] >> 24 & 7) == 0; // a size it does not have
            bool has = p.mask & X_SPLIT;
            begin(res, 0);
            if (wrong) {
                r = umfMemoryProviderAllocationSplit(h, (void *)a, size + 1, first);
                calls("splitting with a wrong size");
                if (!r)
                    violate("wrong-result", "splitting with a wrong size succeeded");
                if (!faulty())
                    result(r, UMF_RESULT_ERROR_INVALID_ARGUMENT, "splitting with a wrong size");
                last(h, "splitting with a wrong size");
                break;
            }
            if (has)
                want(PSPLIT, &p, a, size, first);
            else
                res = UMF_RESULT_ERROR_NOT_SUPPORTED;
            r = umfMemoryProviderAllocationSplit(h, (void *)a, size, first);
            if (faulty() && r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY &&
                mind().got.empty()) {
                last(h, "a tracked split");
                break;
            }
            calls("a tracked split");
            result(r, res, "a tracked split");
            last(r ? h : nullptr, "a tracked split");
            if (!r) {
                it->second = first;
                live[a + first] = size - first;
            }
            break;
        }
        case 7:
        case 8: { // merge with the neighbour
            auto jt = std::next(it);
            if (jt == live.end() || it->first + it->second != jt->first)
                break;
            size_t total = it->second + jt->second;
            begin(res, 0);
            if (p.mask & X_SPLIT)
                want(PMERGE, &p, it->first, jt->first, total);
            else
                res = UMF_RESULT_ERROR_NOT_SUPPORTED;
            r = umfMemoryProviderAllocationMerge(h, (void *)it->first, (void *)jt->first,
                                                 total);
            if (faulty() && r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY &&
                mind().got.empty()) {
                last(h, "a tracked merge");
                break;
            }
            calls("a tracked merge");
            result(r, res, "a tracked merge");
            last(r ? h : nullptr, "a tracked merge");
            if (!r) {
                it->second = total;
                live.erase(jt);
            }
            break;
        }
        case 9: { // who has it
            uintptr_t a = it->first + x % it->second;
            begin(UMF_RESULT_SUCCESS, 0);
            umf_memory_pool_handle_t f = umfPoolByPtr((void *)a);
            calls("umfPoolByPtr");
            if (f != q.h)
                violate("wrong-pool", "umfPoolByPtr gave %p; the block belongs to %p",
                        (void *)f, (void *)q.h);
            break;
        }
        case 10: {
            size_t o = 1;
            bool rec = op.a[5] & 1;
            begin(res, (uint64_t)op.a[5]);
            want(rec ? PREC : PMIN, &p, x);
            r = rec ? umfMemoryProviderGetRecommendedPageSize(h, x, &o)
                    : umfMemoryProviderGetMinPageSize(h, (void *)(uintptr_t)x, &o);
            calls("a tracked page size query");
            result(r, res, "a tracked page size query");
            last(r ? h : nullptr, "a tracked page size query");
            if (!r && o != (uint64_t)op.a[5])
                violate("wrong-out", "page size");
            break;
        }
        case 11: {
            bool lazy = op.a[5] & 1, has = p.mask & (lazy ? X_LAZY : X_FORCE);
            uintptr_t a = x ? x : 1;
            begin(res, 0);
            if (has)
                want(lazy ? PLAZY : PFORCE, &p, a, y);
            else
                res = UMF_RESULT_ERROR_NOT_SUPPORTED;
            r = lazy ? umfMemoryProviderPurgeLazy(h, (void *)a, y)
                     : umfMemoryProviderPurgeForce(h, (void *)a, y);
            calls("a tracked purge");
            result(r, res, "a tracked purge");
            last(r ? h : nullptr, "a tracked purge");
            break;
        }
        case 12: {
            size_t o = 1;
            begin(res, (uint64_t)op.a[5] & 0xffff);
            if (p.mask & X_IPC)
                want(PIPCSZ, &p);
            else
                res = UMF_RESULT_ERROR_NOT_SUPPORTED;
            if (op.a[5] & 1) {
                r = umfPoolGetIPCHandleSize(q.h, &o);
                if (!r && o <= ((uint64_t)op.a[5] & 0xffff))
                    violate("wrong-out", "a pool's IPC handle has %zu bytes; the "
                                         "provider's part alone has %lld",
                            o, (long long)op.a[5] & 0xffff);
            } else {
                r = umfMemoryProviderGetIPCHandleSize(h, &o);
                if (!r && o != ((uint64_t)op.a[5] & 0xffff))
                    violate("wrong-out", "IPC handle size");
            }
            calls("an IPC handle size query");
            result(r, res, "an IPC handle size query");
            last(r ? h : nullptr, "an IPC handle size query");
            break;
        }
        case 13: {
            begin(res, (uint64_t)op.a[5]);
            if (op.a[5] & 1) {
                const char *msg = nullptr;
                int32_t e = 0;
                want(PNERR, &p, U(&msg), U(&e));
                umfMemoryProviderGetLastNativeError(h, &msg, &e);
                if (msg != TEXT || e != (int32_t)op.a[5])
                    violate("wrong-out", "native error");
                // (the addresses it passes on are its own business)
                if (!mind().got.empty())
                    memcpy(mind().got[0].a, mind().want[0].a, sizeof mind().got[0].a);
                calls("a tracked native error query");
            } else {
                want(PNAME, &p);
                if (U(umfMemoryProviderGetName(h)) != (uint64_t)op.a[5])
                    violate("wrong-out", "name");
                calls("a tracked name query");
            }
            last(nullptr, "a tracked query");
            break;
        }
        case 14: { // split or free something the pool does not have
            uintptr_t a = next(4096);
            begin(res, 0);
            if (op.a[5] & 1) {
                r = umfMemoryProviderAllocationSplit(h, (void *)a, 8192, 4096);
                calls("splitting an unknown block");
                if (!r)
                    violate("wrong-result", "splitting an unknown block succeeded");
            } else { // the provider decides
                want(PFREE, &p, a, y);
                r = umfMemoryProviderFree(h, (void *)a, y);
                calls("freeing an unknown block");
                result(r, res, "freeing an unknown block");
            }
            last(r ? h : nullptr, "a call on an unknown block");
            break;
        }
        default: { // handle of a block whose provider has no IPC, or refuses
            if ((p.mask & X_IPC) && !res)
                break;
            umf_ipc_handle_t ih = nullptr;
            size_t o = 0;
            begin(res, 64);
            if (p.mask & X_IPC)
                want(PIPCSZ, &p);
            else
                res = UMF_RESULT_ERROR_NOT_SUPPORTED;
            r = umfGetIPCHandle((void *)it->first, &ih, &o);
            calls("umfGetIPCHandle");
            result(r, res, "umfGetIPCHandle");
            last(h, "umfGetIPCHandle");
        }
        }
    }
    void poolcall(Pool &q, const Op &op) {
        umf_result_t res = plan(op.a[1]), r = res;
        uint64_t x = (uint64_t)op.a[3], y = (uint64_t)op.a[4], val = (uint64_t)op.a[5];
        if (op.a[1] & 1)
            val = 0;
        begin(res, val);
        uint64_t got = val;
        const char *what = "?";
        switch (op.a[2] % 8) {
        case 0:
            what = "umfPoolMalloc";
            want(QMALLOC, &q, x);
            got = U(umfPoolMalloc(q.h, x));
            break;
        case 1:
            what = "umfPoolCalloc";
            want(QCALLOC, &q, x, y);
            got = U(umfPoolCalloc(q.h, x, y));
            break;
        case 2:
            what = "umfPoolRealloc";
            want(QREALLOC, &q, x, y);
            got = U(umfPoolRealloc(q.h, (void *)(uintptr_t)x, y));
            break;
        case 3:
            what = "umfPoolAlignedMalloc";
            want(QALIGNED, &q, x, y);
            got = U(umfPoolAlignedMalloc(q.h, x, y));
            break;
        case 4:
            what = "umfPoolMallocUsableSize";
            want(QUSABLE, &q, x);
            got = umfPoolMallocUsableSize(q.h, (void *)(uintptr_t)x);
            break;
        case 5:
            what = "umfPoolFree";
            want(QFREE, &q, x);
            r = umfPoolFree(q.h, (void *)(uintptr_t)x);
            break;
        case 6:
            what = "umfPoolGetLastAllocationError";
            want(QERR, &q);
            r = umfPoolGetLastAllocationError(q.h);
            break;
        default: {
            what = "umfPoolGetMemoryProvider";
            umf_memory_provider_handle_t g = nullptr;
            r = umfPoolGetMemoryProvider(q.h, &g);
            res = UMF_RESULT_SUCCESS;
            got = U(g);
            val = U(q.prov->h);
        }
        }
        calls(what);
        result(r, res, what);
        if (got != val)
            violate("wrong-out", "%s gave %llx; must give %llx", what,
                    (unsigned long long)got, (unsigned long long)val);
        last(nullptr, what);
    }
    void refused(const Op &op) {
        Prov *p = prov_any(op.a[0]);
        Pool *q = pool_any(op.a[1]);
        if (!p || !q)
            return;
        const umf_result_t inv = UMF_RESULT_ERROR_INVALID_ARGUMENT;
        umf_memory_provider_handle_t h = p->h;
        void *A = (void *)0x10000, *B = (void *)0x20000, *o = nullptr;
        size_t s = 0;
        umf_result_t r = inv;
        begin(UMF_RESULT_SUCCESS, 0);
        int k = (int)((uint64_t)op.a[5] % 48);
        switch (k) {
        case 0: r = umfMemoryProviderAlloc(nullptr, 64, 0, &o); break;
        case 1: r = umfMemoryProviderAlloc(h, 64, 0, nullptr); break;
        case 2: r = umfMemoryProviderFree(nullptr, A, 64); break;
        case 3: r = umfMemoryProviderGetRecommendedPageSize(nullptr, 1, &s); break;
        case 4: r = umfMemoryProviderGetRecommendedPageSize(h, 1, nullptr); break;
        case 5: r = umfMemoryProviderGetMinPageSize(nullptr, A, &s); break;
        case 6: r = umfMemoryProviderGetMinPageSize(h, A, nullptr); break;
        case 7: r = umfMemoryProviderPurgeLazy(nullptr, A, 1); break;
        case 8: r = umfMemoryProviderPurgeLazy(h, nullptr, 1); break;
        case 9: r = umfMemoryProviderPurgeForce(nullptr, A, 1); break;
        case 10: r = umfMemoryProviderPurgeForce(h, nullptr, 1); break;
        case 11: r = umfMemoryProviderAllocationSplit(nullptr, A, 2, 1); break;
        case 12: r = umfMemoryProviderAllocationSplit(h, nullptr, 2, 1); break;
        case 13: r = umfMemoryProviderAllocationSplit(h, A, 0, 0); break;
        case 14: r = umfMemoryProviderAllocationSplit(h, A, 8, 0); break;
        case 15: r = umfMemoryProviderAllocationSplit(h, A, 8, 8); break;
        case 16: r = umfMemoryProviderAllocationSplit(h, A, 8, SIZE_MAX); break;
        case 17: r = umfMemoryProviderAllocationMerge(nullptr, A, B, 0x20000); break;
        case 18: r = umfMemoryProviderAllocationMerge(h, nullptr, B, 0x30000); break;
        case 19: r = umfMemoryProviderAllocationMerge(h, A, nullptr, 0x20000); break;
        case 20: r = umfMemoryProviderAllocationMerge(h, A, B, 0); break;
        case 21: r = umfMemoryProviderAllocationMerge(h, A, A, 0x20000); break;
        case 22: r = umfMemoryProviderAllocationMerge(h, B, A, 0x20000); break;
        case 23: r = umfMemoryProviderAllocationMerge(h, A, B, 0x10000); break;
        case 24: r = umfMemoryProviderAllocationMerge(h, A, B, 0xffff); break;
        case 25: r = umfMemoryProviderGetIPCHandleSize(nullptr, &s); break;
        case 26: r = umfMemoryProviderGetIPCHandleSize(h, nullptr); break;
        case 27: r = umfMemoryProviderGetIPCHandle(h, nullptr, 1, A); break;
        case 28: r = umfMemoryProviderGetIPCHandle(h, A, 1, nullptr); break;
        case 29: r = umfMemoryProviderPutIPCHandle(h, nullptr); break;
        case 30: r = umfMemoryProviderOpenIPCHandle(h, nullptr, &o); break;
        case 31: r = umfMemoryProviderOpenIPCHandle(h, A, nullptr); break;
        case 32: r = umfMemoryProviderCloseIPCHandle(h, nullptr, 1); break;
        case 33: r = umfPoolFree(nullptr, A); break;
        case 34: r = umfPoolGetLastAllocationError(nullptr); break;
        case 35: r = umfPoolGetMemoryProvider(q->h, nullptr); break;
        case 36: r = umfPoolGetIPCHandleSize(nullptr, &s); break;
        case 37: r = umfPoolGetIPCHandleSize(q->h, nullptr); break;
        case 38: r = umfCtlGet("umf.provider.by_handle.x", h, nullptr); break;
        case 39: r = umfCtlSet(nullptr, h, A); break;
        case 40: r = umfCtlExec("umf.pool.by_handle.x", nullptr, A); break;
        case 41: r = umfMemoryProviderCreate(nullptr, p, &h); break;
        case 42: {
            umf_memory_provider_ops_t po;
            build(po, 31);
            r = umfMemoryProviderCreate(&po, p, nullptr);
            break;
        }
        case 43: {
            umf_memory_pool_ops_t qo;
            memset(&qo, 0, sizeof qo);
            qo.version = UMF_POOL_OPS_VERSION_CURRENT;
            qo.initialize = qinit;
            umf_memory_pool_handle_t qh = nullptr;
            r = umfPoolCreate(&qo, nullptr, q, 0, &qh);
            break;
        }
        case 44: {
            umf_memory_pool_handle_t qh = nullptr;
            r = umfPoolCreate(nullptr, h, q, 0, &qh);
            break;
        }
        case 45:
            if (umfPoolMalloc(nullptr, 8) || umfPoolCalloc(nullptr, 8, 8) ||
                umfPoolRealloc(nullptr, A, 8) || umfPoolAlignedMalloc(nullptr, 8, 8) ||
                umfPoolMallocUsableSize(nullptr, A))
                violate("wrong-out", "a call on no pool gave memory");
            break;
        case 46:
            if (umfMemoryProviderGetName(nullptr))
                violate("wrong-out", "no provider has a name");
            break;
        default: // these have nothing to do
            umfMemoryProviderDestroy(nullptr);
        }
        char what[64];
        snprintf(what, sizeof what, "invalid call %d", k);
        calls(what);
        result(r, inv, what);
        last_refused(p->h, what);
    }
    void exec(const Op &op) override {
        int t = task_id();
        Prov &mine = provs[(size_t)(2 * t + (op.a[0] & 1))];
        Pool &myq = pools[(size_t)(2 * t + (op.a[0] & 1))];
        switch (op.code % NOPS) {
        case MKPROV:
            if (mine.h)
                break;
            make_prov(mine, (unsigned)op.a[5] & 31,
                      (op.a[5] >> 8 & 3) == 0 ? plan(op.a[1] | 1) : UMF_RESULT_SUCCESS,
                      (unsigned)(op.a[5] >> 16 & 7));
            break;
        case RMPROV:
            if (mine.h && !mine.pools)
                drop_prov(mine);
            break;
        case MKPOOL: {
            if (myq.h)
                break;
            Prov *p = prov_any(op.a[2]);
            if (!p || p->owned)
                break;
            unsigned fl = 0;
            if (op.a[5] & 1)
                fl |= UMF_POOL_CREATE_FLAG_DISABLE_TRACKING;
            if ((op.a[5] & 2) && p != &provs[0] && p != &provs[1] && !p->pools)
                fl |= UMF_POOL_CREATE_FLAG_OWN_PROVIDER;
            make_pool(myq, *p, fl,
                      (op.a[5] >> 8 & 3) == 0 ? plan(op.a[1] | 1) : UMF_RESULT_SUCCESS,
                      (unsigned)(op.a[5] >> 16 & 3), op.a[5] >> 20 & 1);
            break;
        }
        case RMPOOL:
            if (myq.h)
                drop_pool(myq);
            break;
        case CALL:
            if (Prov *p = prov_any(op.a[0]))
                call(*p, op);
            break;
        case TRACKED: {
            Pool *q = pool_any(op.a[0]);
            if (q && !q->tracked)
                q = &pools[0];
            if (q && q->h)
                tracked(*q, op);
            break;
        }
        case POOLCALL:
            if (Pool *q = pool_any(op.a[0]))
                poolcall(*q, op);
            break;
        case FREEPTR: {
            Pool *q = pool_any(op.a[0]);
            if (!q)
                break;
            auto &live = q->live[t & 7];
            umf_result_t res = plan(op.a[1]);
            uintptr_t a = 0;
            begin(res, 0);
            if (!live.empty() && (op.a[2] & 7)) {
                auto it = live.begin();
                std::advance(it, (size_t)(op.a[5] >> 8 & 0xffff) % live.size());
                a = it->first + (uint64_t)op.a[3] % it->second;
                want(QFREE, q, a);
            } else {
                if (op.a[2] & 8)
                    a = next(4096);
                res = UMF_RESULT_SUCCESS;
            }
            umf_result_t r = umfFree((void *)a);
            calls("umfFree");
            result(r, res, "umfFree");
            last(nullptr, "umfFree");
            break;
        }
        case CTL: {
            bool pool = op.a[2] & 1;
            Prov *p = prov_any(op.a[0]);
            Pool *q = pool_any(op.a[0]);
            if (!p || !q)
                break;
            static const char *rest[] = {"x", "a.b.c", "params.ipc_enabled",
                                         "0.item", "umf.pool.by_handle.x", "stats"};
            std::string tail = rest[(size_t)(op.a[5] & 0xff) % 6];
            std::string n = (pool ? "umf.pool.by_handle." : "umf.provider.by_handle.") + tail;
            int verb = (int)(op.a[2] >> 1) % 3;
            uint64_t arg = 7;
            umf_result_t res = plan(op.a[1]);
            begin(res, 0);
            mind().name = "(not called)";
            bool has = pool ? q->ctl : (p->mask & X_CTL) != 0;
            umf_ctl_query_type_t ty = verb == 0   ? CTL_QUERY_READ
                                      : verb == 1 ? CTL_QUERY_WRITE
                                                  : CTL_QUERY_RUNNABLE;
            if (has)
                want(pool ? QCTL : PCTL, pool ? (void *)q->h : (void *)p, U(&arg), ty);
            else
                res = UMF_RESULT_ERROR_NOT_SUPPORTED;
            void *ctx = pool ? (void *)q->h : (void *)p->h;
            umf_result_t r = verb == 0   ? umfCtlGet(n.c_str(), ctx, &arg)
                             : verb == 1 ? umfCtlSet(n.c_str(), ctx, &arg)
                                         : umfCtlExec(n.c_str(), ctx, &arg);
            if (faulty() && r && mind().got.empty())
                break; // the name could not be copied
            calls("a control query");
            if (has && mind().name != tail)
                violate("wrong-name", "the query '%s' reached its object as '%s'",
                        n.c_str(), mind().name.c_str());
            if ((r != UMF_RESULT_SUCCESS) != (res != UMF_RESULT_SUCCESS))
                violate("wrong-result", "the query '%s' gave %s; the object answered %s",
                        n.c_str(), res_name(r), res_name(res));
            last(nullptr, "a control query");
            break;
        }
        default:
            refused(op);
        }
    }
    void finish() override {
        faults_enable(false);
        // pools go first; a provider goes when none is left over it
        for (size_t i = pools.size(); i-- > 0;)
            if (pools[i].h)
                drop_pool(pools[i]);
        for (auto &p : provs)
            if (p.h)
                drop_prov(p);
        umfTearDown();
        check_no_leak(base, "C28", true);
    }
};
SIM_SCENARIO("C28.ext", Ext);
} // namespace
