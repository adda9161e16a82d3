// C10, C11: the IPC handle cache of the producer and the cache of opened handles
// of the consumer, with many threads, several pools, a cache limit, addresses
// that are used again, and failing provider and metadata calls.
#include "common.h"
#include <tuple>
#include <deque>
extern "C" {
#include "ipc_internal.h"
#include <umf/ipc.h>
}
using namespace simx;

namespace {
enum { ALLOC, FREE, GET, PUT, OPEN, OPENR, CLOSE, REMOTE, RECREATE, SPLIT,
       MERGE, NOPS };
enum { NPOOL = 3, NREM = 6 };
enum St { S_FREE, S_BUSY, S_LIVE };

struct Slot { // block of a producer
    St st = S_FREE;
    int pool = 0;
    uintptr_t p = 0;
    size_t n = 0;
    uint64_t uid = 0;  // changes whenever a new handle id is allowed
    uint64_t root = 0; // changes whenever a new handle id is needed
    int pins = 0;
};
struct Hand { // IPC handle held by the user
    St st = S_FREE;
    umf_ipc_handle_t h = nullptr;
    Slot *s = nullptr;
    uint64_t uid = 0;
    size_t off = 0;
    int pins = 0;
};
struct Open { // pointer returned by umfOpenIPCHandle
    St st = S_FREE;
    bool closing = false, stale = false;
    int pool = 0, to = 0, pid = 0;
    uint64_t id = 0, rbase = 0;
    uintptr_t p = 0, base = 0;
    size_t n = 0;
    uint64_t serial = 0, gen = 0;
};
struct Remote { // handle that came from another process
    int pid = 0;
    uintptr_t base = 0;
    uint64_t id = 0, serial = 0;
    size_t n = 0;
};

struct Ipc : Scenario {
    Provider prov[NPOOL];
    ThinPool pool[NPOOL];
    umf_ipc_handler_handle_t handler[NPOOL] = {};
    int users[NPOOL] = {}; // operations in flight on a pool
    bool down[NPOOL] = {};
    uint64_t gen[NPOOL] = {};
    std::deque<Slot> slots;
    std::deque<Hand> hands;
    std::deque<Open> opens;
    Remote rem[NREM];
    std::map<int, uint64_t> pid_ids;
    uint64_t uids = 0, serials = 1ull << 40, inflight = 0, started = 0;
    size_t limit = 0;
    std::map<uint64_t, uint64_t> id_of_uid;
    std::map<uint64_t, uint64_t> root_of_id;
    Baseline base;

    const char *op_name(uint32_t c) override {
        static const char *n[] = {"alloc",  "free",  "get",    "put",
                                  "open",   "openr", "close",  "remote",
                                  "recreate", "split", "merge"};
        return n[c % NOPS];
    }
    const char *real_parts() override {
        return "ipc, ipc_cache, provider_tracking, critnib, base_alloc, "
               "memory_pool, memory_provider";
    }
    const char *stub_parts() override {
        return "upstream providers (strict ledger of handles and mappings), "
               "pass-through pools, remote producers, OS";
    }
    virtual bool producer() { return false; }
    void generate(Rng &r, Program &p, bool thorough) override {
        log_cfg(r, p, 12);
        int nt = (int)r.range(2, 4);
        p.ntasks = (uint32_t)nt;
        int per = (int)r.range(6, thorough ? 50 : 24);
        p.cfg["slots"] = r.range(1, 5);
        p.cfg["hands"] = r.range(2, 8);
        p.cfg["opens"] = r.range(2, 10);
        p.cfg["rem"] = r.range(1, NREM);
        p.cfg["limit"] = r.chance(1, 3) ? 0 : r.range(1, 5);
        p.cfg["pids"] = r.range(1, 3);
        int mode = (int)r.below(3);
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < per; i++) {
                int c;
                if (producer())
                    c = r.pick(std::vector<int>{ALLOC, ALLOC, FREE, GET, GET,
                                                GET, GET, PUT, SPLIT, MERGE,
                                                OPEN, CLOSE});
                else if (mode == 0)
                    c = r.pick(std::vector<int>{ALLOC, FREE, GET, GET, PUT,
                                                OPEN, OPEN, OPEN, CLOSE, CLOSE,
                                                RECREATE});
                else
                    c = r.pick(std::vector<int>{OPENR, OPENR, OPENR, OPENR,
                                                CLOSE, CLOSE, CLOSE, REMOTE,
                                                ALLOC, GET, OPEN, RECREATE});
                int pl = r.chance(2, 3) ? 0 : (int)r.below(NPOOL);
                p.ops.push_back({(uint32_t)p.ops.size(), (uint32_t)t, (uint32_t)c,
                                 {(int64_t)r.below(64), (int64_t)r.below(64), pl,
                                  (int64_t)r.range(1, 64), (int64_t)r.below(1 << 16),
                                  0}});
            }
        pick_faults(r, p, {F_META, F_BAMMAP, F_MUTEXINIT, F_IPC_GET, F_IPC_PUT,
                           F_IPC_OPEN, F_IPC_CLOSE, F_PROV_ALLOC, F_PROV_FREE,
                           F_PROV_QUERY, F_PROV_SPLIT, F_PROV_MERGE}, 60);
    }
    void make_pool(int i) {
        pool[i].blocks.clear();
        umf_result_t r = make_thin_pool(&pool[i], prov[i].h, 0);
        if (r) {
            if (!faults_fired())
                violate("create-failed", "pool creation failed (%s) without "
                                         "any fault", res_name(r));
            pool[i].h = nullptr;
            return;
        }
        r = umfPoolGetIPCHandler(pool[i].h, &handler[i]);
        if (r || !handler[i])
            violate("handler", "umfPoolGetIPCHandler: %s", res_name(r));
    }
    void setup(const Program &p) override {
        base = baseline();
        limit = (size_t)p.get("limit", 0);
        os::set_env("UMF_MAX_OPENED_IPC_HANDLES",
                    limit ? std::to_string(limit).c_str() : nullptr);
        meta_oracle(true);
        log_setup(p);
        lib_init();
        slots.resize((size_t)std::max<int64_t>(1, p.get("slots", 3)));
        hands.resize((size_t)std::max<int64_t>(1, p.get("hands", 3)));
        opens.resize((size_t)std::max<int64_t>(1, p.get("opens", 3)));
        static const char *names[] = {"P0", "P1", "P2"};
        for (int i = 0; i < NPOOL; i++) {
            prov[i].name = names[i];
            prov[i].garbage = false;
            make_provider(&prov[i]);
            prov[i].before_free = [this, i](uintptr_t a, size_t) {
                closing(i, a);
            };
            make_pool(i);
        }
        for (int i = 0; i < NREM; i++)
            remote(i, (int)p.get("pids", 1));
        npids = (int)p.get("pids", 1);
        nrem = (int)std::min<int64_t>(NREM, std::max<int64_t>(1, p.get("rem", 3)));
    }
    int npids = 1, nrem = 1;
    void remote(int i, int pids) {
        Remote &m = rem[i];
        m.pid = 700000 + i % std::max(1, pids);
        m.base = 0x100000000ull + (uint64_t)(i / std::max(1, pids)) * 0x1000000;
        m.id = ++pid_ids[m.pid];
        m.serial = ++serials;
        m.n = (size_t)(1 + m.serial % 3) * 4096;
    }
    // the upstream provider i is asked to close the mapping (or free the
    // block) at a
    void closing(int i, uintptr_t a) {
        for (auto &o : opens)
            if (o.st == S_LIVE && !o.closing && o.pool == i && o.base == a &&
                o.gen == gen[i] && !down[i])
                violate("closed-in-use",
                        "provider %s is asked to close the mapping at %#lx, "
                        "which is still open", prov[i].name, (unsigned long)a);
        // a block given back must not have a handle in use... the ledger checks
    }
    struct Use {
        Ipc &c;
        int i;
        uint64_t at, f0;
        bool first;
        Use(Ipc &k, int pl) : c(k), i(pl) {
            if (i >= 0)
                c.users[i]++;
            first = c.inflight++ == 0;
            at = ++c.started;
            f0 = faults_fired();
        }
        ~Use() {
            if (i >= 0)
                c.users[i]--;
            c.inflight--;
        }
        bool clean() { return faults_fired() == f0; }
        bool alone() { return first && c.started == at; }
    };
    bool ok(int i) { return !down[i] && pool[i].h; }
    void check_open(Open &o, const char *when) {
        auto it = prov[o.pool].mappings.find(o.base);
        if (it == prov[o.pool].mappings.end())
            violate("not-mapped", "%s: %#lx is open but provider %s has no "
                                  "mapping there", when, (unsigned long)o.p,
                    prov[o.pool].name);
        if (it->second.serial != o.serial)
            violate("wrong-memory", "%s: %#lx shows the memory of handle %lx, "
                                    "the handle opened was %lx", when,
                    (unsigned long)o.p, (unsigned long)it->second.serial,
                    (unsigned long)o.serial);
        if (it->second.size != o.n)
            violate("wrong-size", "%s: %zu bytes are mapped for a block of %zu",
                    when, it->second.size, o.n);
        if (!os::range_mapped(o.base, 1, -1, false) &&
            !os::range_mapped(o.base, 1, 2, false))
            return;
    }
    // most mappings that could be referenced at the same time so far
    size_t peak = 0;
    void count_refs() {
        std::set<std::tuple<int, uintptr_t, uint64_t>> refs;
        size_t busy = 0;
        for (auto &o : opens)
            if (o.st == S_LIVE && o.gen == gen[o.pool])
                refs.insert({o.pool, o.base, o.serial});
            else if (o.st == S_BUSY)
                busy++;
        peak = std::max(peak, refs.size() + busy);
    }
    void do_open(umf_ipc_handle_t h, int pl, Open &o, const char *what) {
        IpcData d;
        memcpy(&d, h->providerIpcData, sizeof d);
        o.st = S_BUSY;
        o.closing = false;
        o.to = pl;
        o.pid = (int)h->pid;
        o.id = h->handle_id;
        o.rbase = (uint64_t)(uintptr_t)h->base;
        o.stale = false;
        // an address that is used again leaves the old mapping to its users
        for (auto &x : opens)
            if (x.st != S_FREE && x.to == o.to && x.pid == o.pid &&
                x.rbase == o.rbase && x.id != o.id)
                x.stale = o.stale = true;
        count_refs();
        void *ptr = (void *)(uintptr_t)0xbad;
        Use u(*this, pl);
        umf_result_t r = umfOpenIPCHandle(handler[pl], h, &ptr);
        if (r) {
            o.st = S_FREE;
            if (!valid_result(r))
                violate("bad-result", "open returned %d", (int)r);
            if (!faults_fired())
                violate("open-failed", "opening a valid %s handle failed (%s) "
                                       "without any fault", what, res_name(r));
            probe("open failed");
            return;
        }
        o.pool = pl;
        o.gen = gen[pl];
        o.p = (uintptr_t)ptr;
        o.base = o.p - h->offset;
        o.n = h->baseSize;
        o.serial = d.serial;
        check_open(o, what);
        o.st = S_LIVE;
    }
    void exec(const Op &op) override {
        int code = (int)(op.code % NOPS);
        size_t k1 = (size_t)op.a[0], k2 = (size_t)op.a[1];
        int pl = (int)((uint64_t)op.a[2] % NPOOL);
        Slot &s = slots[k1 % slots.size()];
        Hand &h = hands[k2 % hands.size()];
        Open &o = opens[(k1 + k2) % opens.size()];
        switch (code) {
        case ALLOC: {
            if (s.st != S_FREE || pl == 2 || !ok(pl))
                return;
            s.st = S_BUSY;
            Use u(*this, pl);
            void *q = umfPoolMalloc(pool[pl].h, (size_t)op.a[3] * 4096);
            if (!q) {
                s.st = S_FREE;
                return;
            }
            s.pool = pl;
            s.p = (uintptr_t)q;
            s.n = (size_t)op.a[3] * 4096;
            s.uid = s.root = ++uids;
            s.st = S_LIVE;
            break;
        }
        case FREE: {
            if (s.st != S_LIVE || s.pins)
                return;
            s.st = S_BUSY;
            Use u(*this, s.pool);
            umf_result_t r = umfPoolFree(pool[s.pool].h, (void *)s.p);
            if (r) {
                if (u.clean())
                    violate("free-failed", "free failed (%s)", res_name(r));
                s.uid = s.root = ++uids;
                umf_memory_pool_handle_t q = umfPoolByPtr((void *)s.p);
                // it may not even be tracked again without memory
                s.st = q == pool[s.pool].h ? S_LIVE : S_FREE;
                if (s.st == S_FREE) {
                    pool[s.pool].blocks.erase(s.p);
                    prov[s.pool].live.erase(s.p);
                }
            } else
                s.st = S_FREE;
            break;
        }
        case GET: {
            if (s.st != S_LIVE || h.st != S_FREE)
                return;
            h.st = S_BUSY;
            s.pins++;
            Use u(*this, s.pool);
            size_t off = (size_t)op.a[4] % s.n;
            umf_ipc_handle_t d = (umf_ipc_handle_t)(uintptr_t)0xbad;
            size_t sz = 0;
            umf_result_t r = umfGetIPCHandle((void *)(s.p + off), &d, &sz);
            s.pins--;
            if (r) {
                h.st = S_FREE;
                if (!valid_result(r))
                    violate("bad-result", "get returned %d", (int)r);
                if (!faults_fired())
                    violate("get-failed", "umfGetIPCHandle of a live block "
                                          "failed (%s) without any fault",
                            res_name(r));
                probe("get failed");
                return;
            }
            check_handle(s, off, d, sz);
            h.h = d;
            h.s = &s;
            h.uid = s.uid;
            h.off = off;
            h.st = S_LIVE;
            break;
        }
        case PUT: {
            if (h.st != S_LIVE || h.pins)
                return;
            h.st = S_BUSY;
            Use u(*this, -1);
            umf_result_t r = umfPutIPCHandle(h.h);
            if (r)
                violate("put-failed", "umfPutIPCHandle: %s", res_name(r));
            h.h = nullptr;
            h.st = S_FREE;
            break;
        }
        case OPEN: {
            if (h.st != S_LIVE || o.st != S_FREE || !ok(pl))
                return;
            Slot *b = h.s;
            if (b->st != S_LIVE || b->uid != h.uid)
                return; // its memory is gone
            h.pins++;
            b->pins++;
            do_open(h.h, pl, o, "local");
            b->pins--;
            h.pins--;
            break;
        }
        case OPENR: {
            if (o.st != S_FREE || !ok(pl))
                return;
            char buf[sizeof(umf_ipc_data_t) + sizeof(IpcData) + 8] = {};
            umf_ipc_data_t *d = (umf_ipc_data_t *)buf;
            Remote &m = rem[k1 % (size_t)nrem];
            d->handle_id = m.id;
            d->base = (void *)m.base;
            d->pid = m.pid;
            d->baseSize = m.n;
            d->offset = (uint64_t)op.a[4] % m.n;
            IpcData pd = {};
            pd.magic = 0x1bc0ffee;
            pd.serial = m.serial;
            pd.base = m.base;
            pd.size = m.n;
            memcpy(d->providerIpcData, &pd, sizeof pd);
            do_open(d, pl, o, "remote");
            break;
        }
        case CLOSE: {
            if (o.st != S_LIVE || o.closing)
                return;
            if (o.gen != gen[o.pool] || !ok(o.pool)) {
                // closed with its pool
                if (!down[o.pool])
                    o.st = S_FREE;
                return;
            }
            check_open(o, "before close");
            Use u(*this, o.pool);
            o.closing = true;
            umf_result_t r = umfCloseIPCHandle((void *)o.p);
            if (r)
                violate("close-failed", "umfCloseIPCHandle(%#lx) failed (%s)",
                        (unsigned long)o.p, res_name(r));
            o.st = S_FREE;
            o.closing = false;
            break;
        }
        case REMOTE:
            // the other process freed the block and got another one there
            remote((int)(k1 % (size_t)nrem), npids);
            break;
        case RECREATE: {
            if (!ok(2) || users[2])
                return;
            Use u(*this, -1);
            down[2] = true;
            umfPoolDestroy(pool[2].h);
            if (!prov[2].mappings.empty())
                violate("mapping-outlives-pool", "%zu mappings are open after "
                                                 "the pool was destroyed",
                        prov[2].mappings.size());
            gen[2]++;
            make_pool(2);
            down[2] = false;
            probe("consumer destroyed and created");
            break;
        }
        case SPLIT: {
            Slot &t = slots[k2 % slots.size()];
            if (s.st != S_LIVE || s.pins || &s == &t || t.st != S_FREE ||
                s.n < 8192)
                return;
            size_t first = ((size_t)op.a[4] % (s.n / 4096 - 1) + 1) * 4096;
            s.st = t.st = S_BUSY;
            Use u(*this, s.pool);
            umf_result_t r = umfMemoryProviderAllocationSplit(
                pool[s.pool].provider, (void *)s.p, s.n, first);
            if (r) {
                if (u.clean())
                    violate("split-failed", "split failed (%s)", res_name(r));
                s.uid = ++uids;
                t.st = S_FREE;
            } else {
                t.pool = s.pool;
                t.p = s.p + first;
                t.n = s.n - first;
                s.n = first;
                s.uid = s.root = ++uids;
                t.uid = t.root = ++uids;
                pool[s.pool].blocks[s.p] = s.n;
                pool[s.pool].blocks[t.p] = t.n;
                t.st = S_LIVE;
                probe("split");
            }
            s.st = S_LIVE;
            break;
        }
        case MERGE: {
            if (s.st != S_LIVE || s.pins)
                return;
            for (auto &t : slots) {
                if (t.st != S_LIVE || t.pins || t.pool != s.pool ||
                    t.p != s.p + s.n)
                    continue;
                auto &L = prov[s.pool].live;
                if (!L.count(s.p) || !L.count(t.p) ||
                    L[s.p].map_base != L[t.p].map_base)
                    return;
                s.st = t.st = S_BUSY;
                Use u(*this, s.pool);
                umf_result_t r = umfMemoryProviderAllocationMerge(
                    pool[s.pool].provider, (void *)s.p, (void *)t.p, s.n + t.n);
                s.uid = ++uids;
                t.uid = ++uids;
                if (r) {
                    if (u.clean())
                        violate("merge-failed", "merge failed (%s)", res_name(r));
                    t.st = S_LIVE;
                } else {
                    s.root = s.uid;
                    s.n += t.n;
                    pool[s.pool].blocks.erase(t.p);
                    pool[s.pool].blocks[s.p] = s.n;
                    t.st = S_FREE;
                    probe("merge");
                }
                s.st = S_LIVE;
                return;
            }
            break;
        }
        }
        if (inflight == 0)
            quiescent("nothing is running");
    }
    void check_handle(Slot &s, size_t off, umf_ipc_handle_t d, size_t sz) {
        if (sz != sizeof(umf_ipc_data_t) + sizeof(IpcData))
            violate("handle-size", "size %zu", sz);
        IpcData pd;
        memcpy(&pd, d->providerIpcData, sizeof pd);
        if ((uintptr_t)d->base != s.p || d->baseSize != s.n || d->offset != off)
            violate("handle-wrong",
                    "handle for %#lx+%#zx of block [%#lx,+%zu) says base %p, "
                    "size %zu, offset %zu", (unsigned long)s.p, off,
                    (unsigned long)s.p, s.n, d->base, d->baseSize,
                    (size_t)d->offset);
        Provider &P = prov[s.pool];
        auto it = P.handles.find(pd.serial);
        if (pd.magic != 0x1bc0ffee || it == P.handles.end())
            violate("handle-dead", "the provider handle in the handle of "
                                   "[%#lx,+%zu) is not outstanding",
                    (unsigned long)s.p, s.n);
        if (it->second.base != s.p || it->second.size != s.n)
            violate("handle-wrong", "the provider handle names [%#lx,+%zu), the "
                                    "block is [%#lx,+%zu)",
                    (unsigned long)it->second.base, it->second.size,
                    (unsigned long)s.p, s.n);
        uint64_t id = d->handle_id;
        auto a = id_of_uid.find(s.uid);
        if (a != id_of_uid.end() && a->second != id)
            violate("handle-id", "two handle ids (%lu, %lu) for one allocation",
                    (unsigned long)a->second, (unsigned long)id);
        auto b = root_of_id.find(id);
        if (b != root_of_id.end() && b->second != s.root)
            violate("handle-id", "handle id %lu names two allocations",
                    (unsigned long)id);
        id_of_uid[s.uid] = id;
        root_of_id[id] = s.root;
    }
    void quiescent(const char *when) {
        for (int i = 0; i < NPOOL; i++)
            for (auto &kv : prov[i].live)
                if (kv.second.handles > 1)
                    violate("two-handles", "%s: %d provider handles are "
                                           "outstanding for the block at %#lx",
                            when, kv.second.handles, (unsigned long)kv.first);
        std::set<std::pair<int, uintptr_t>> used, stale;
        for (auto &o : opens)
            if (o.st == S_LIVE && o.gen == gen[o.pool] && ok(o.pool)) {
                used.insert({o.pool, o.base});
                if (o.stale)
                    stale.insert({o.pool, o.base});
                check_open(o, when);
            }
        size_t all = 0;
        for (int i = 0; i < NPOOL; i++)
            all += prov[i].mappings.size();
        if (limit && all - used.size() > limit)
            violate("limit", "%s: %zu unreferenced mappings are open, the "
                             "limit is %zu", when, all - used.size(), limit);
        // the cache exceeds its limit only while all it holds is referenced
        if (limit && all - stale.size() > std::max(limit, peak))
            violate("limit", "%s: %zu mappings are open, the limit is %zu and at "
                             "most %zu were referenced at once", when, all, limit, peak);
    }
    void finish() override {
        quiescent("at the end");
        if (!pool[2].h)
            make_pool(2);
        // everything works without faults
        size_t n = 0;
        for (int i = 0; i < NREM; i++) {
            opens.emplace_back();
            size_t x = opens.size() - 1;
            Op op = {};
            op.code = OPENR;
            op.a[2] = i % NPOOL;
            nrem = NREM;
            op.a[0] = i;
            // pick the open slot (k1 + k2) % size
            op.a[1] = (int64_t)((x + opens.size() - (size_t)i % opens.size()) %
                                opens.size());
            uint64_t f = faults_fired();
            (void)f;
            size_t before = 0;
            for (auto &o : opens)
                before += o.st == S_LIVE;
            exec(op);
            size_t after = 0;
            for (auto &o : opens)
                after += o.st == S_LIVE;
            if (after != before + 1)
                violate("open-failed", "a handle cannot be opened after the "
                                       "faults stopped");
            n++;
        }
        for (auto &s : slots)
            if (s.st == S_LIVE) {
                umf_ipc_handle_t d = nullptr;
                size_t sz = 0;
                umf_result_t r = umfGetIPCHandle((void *)(s.p + s.n / 2), &d, &sz);
                if (r)
                    violate("get-failed", "a handle cannot be obtained after "
                                          "the faults stopped (%s)", res_name(r));
                check_handle(s, s.n / 2, d, sz);
                umfPutIPCHandle(d);
            }
        bool close_all = prov[0].n_alloc & 1;
        for (size_t i = 0; close_all && i < opens.size(); i++) {
            Op op = {};
            op.code = CLOSE;
            op.a[0] = (int64_t)i;
            exec(op);
        }
        for (auto &h : hands)
            if (h.st == S_LIVE)
                umfPutIPCHandle(h.h);
        for (auto &s : slots)
            if (s.st == S_LIVE) {
                umf_result_t r = umfPoolFree(pool[s.pool].h, (void *)s.p);
                if (r)
                    violate("free-failed", "at the end: %s", res_name(r));
            }
        for (int i = 0; i < NPOOL; i++)
            down[i] = true;
        for (int i = 0; i < NPOOL; i++) {
            umfPoolDestroy(pool[i].h);
            if (!prov[i].mappings.empty())
                violate("mapping-outlives-pool", "%zu mappings are open after "
                                                 "the pool was destroyed",
                        prov[i].mappings.size());
            if (prov[i].n_open != prov[i].n_close)
                violate("close-count", "%lu opened, %lu closed",
                        (unsigned long)prov[i].n_open,
                        (unsigned long)prov[i].n_close);
            if (prov[i].n_get != prov[i].n_put && !faults_fired_kind(F_PROV_FREE))
                violate("put-count", "%lu provider handles obtained, %lu "
                                     "released", (unsigned long)prov[i].n_get,
                        (unsigned long)prov[i].n_put);
        }
        for (int i = 0; i < NPOOL; i++)
            umfMemoryProviderDestroy(prov[i].h);
        umfTearDown();
        if (!faults_fired_kind(F_PROV_FREE))
            check_no_leak(base, "everything");
    }
};
struct Producer : Ipc {
    bool producer() override { return true; }
};
SIM_SCENARIO("C10.open", Ipc)
SIM_SCENARIO("C11.get", Producer)
} // namespace
