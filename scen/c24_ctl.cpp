// C24: control queries by handle, first and later ones, and query trees.
#include "stubs.h"
#include <deque>
#include <umf/pools/pool_proxy.h>
#include <umf/pools/pool_scalable.h>
#include <umf/providers/provider_os_memory.h>
#include <ctl/ctl.h>
extern "C" {
umf_result_t umfCtlGet(const char *name, void *ctx, void *arg);
umf_result_t umfCtlSet(const char *name, void *ctx, void *arg);
umf_result_t umfCtlExec(const char *name, void *ctx, void *arg);
}
using namespace simx;
namespace {
enum { GET_IPC, GET_ALLOCATED, GET_PEAK, RESET, GET_TRACKING, BAD, WRONG_VERB,
       ALLOC, FREE, TREE, CONFIG, NOPS };
const char *const BADNAMES[] = {
    "umf", "umf.provider", "umf.provider.by_handle", "umf.provider.by_handle.params",
    "umf.provider.by_handle.stats", "umf.provider.by_handle.params.ipc_enable",
    "umf.provider.by_handle.params.ipc_enabledd", "umf.provider.by_handle.ipc_enabled",
    "umf.provider.by_handle.params.ipc_enabled.x",
    "umf.provider.by_handle.stats.allocated_memory.peak_memory",
    "umf.provider.by_handle.1.params.ipc_enabled", "umf.provider.1", "1", "12.34.56",
    "umf.provider.params.ipc_enabled", "params.ipc_enabled", "", ".", "...",
    "umf.provider.by_handle.stats.0", "umf.provider.by_handle.params.tracking_enabled",
    "umf.provider.by_handle.umf.provider.by_handle.params.ipc_enabled",
    "umf.provider.by_handle.umf.pool.by_handle.params.tracking_enabled",
    "provider.by_handle.params.ipc_enabled", "umf.by_handle.params.ipc_enabled",
    "umf.provider.by_handle.stats.peak", "umf.provider.by_handle.Stats.peak_memory"};
const int NBAD = sizeof BADNAMES / sizeof *BADNAMES;

// ------------------------------------------------ a query tree of our own
struct Obj {
    int id = 0, num = 0;
    int item[4] = {};
    int runs = 0;
};
int num_read(void *ctx, umf_ctl_query_source_t, void *arg, umf_ctl_index_utlist_t *,
             const char *, umf_ctl_query_type_t) {
    point();
    *(int *)arg = ((Obj *)ctx)->num;
    return 0;
}
int num_write(void *ctx, umf_ctl_query_source_t, void *arg, umf_ctl_index_utlist_t *,
              const char *, umf_ctl_query_type_t) {
    point();
    ((Obj *)ctx)->num = *(int *)arg;
    return 0;
}
int run(void *ctx, umf_ctl_query_source_t, void *, umf_ctl_index_utlist_t *,
        const char *, umf_ctl_query_type_t) {
    point();
    ((Obj *)ctx)->runs++;
    return 0;
}
long index_of(umf_ctl_index_utlist_t *l) {
    for (; l; l = l->next)
        if (l->name && !strcmp(l->name, "slot"))
            return l->value;
    violate("index-lost", "the index of an indexed name did not reach its handler");
}
int item_read(void *ctx, umf_ctl_query_source_t, void *arg, umf_ctl_index_utlist_t *l,
              const char *, umf_ctl_query_type_t) {
    point();
    *(int *)arg = ((Obj *)ctx)->item[index_of(l) & 3];
    return 0;
}
int item_write(void *ctx, umf_ctl_query_source_t, void *arg, umf_ctl_index_utlist_t *l,
               const char *, umf_ctl_query_type_t) {
    point();
    ((Obj *)ctx)->item[index_of(l) & 3] = *(int *)arg;
    return 0;
}
struct Arg1 {
    size_t n;
    ctl_argument_parser p[2];
};
const Arg1 int_arg = {sizeof(int), {{0, sizeof(int), ctl_arg_integer}, {0, 0, nullptr}}};
umf_ctl_node_t leafs_slot[2], leafs_mod[4];
void build_tree() {
    memset(leafs_slot, 0, sizeof leafs_slot);
    memset(leafs_mod, 0, sizeof leafs_mod);
    auto leaf = [](umf_ctl_node_t &n, const char *name, node_callback rd,
                   node_callback wr, node_callback rn) {
        n.name = name;
        n.type = CTL_NODE_LEAF;
        n.cb[CTL_QUERY_READ] = rd;
        n.cb[CTL_QUERY_WRITE] = wr;
        n.cb[CTL_QUERY_RUNNABLE] = rn;
        n.arg = (const ctl_argument *)&int_arg;
    };
    leaf(leafs_slot[0], "item", item_read, item_write, nullptr);
    leaf(leafs_mod[0], "num", num_read, num_write, nullptr);
    leaf(leafs_mod[1], "go", nullptr, nullptr, run);
    leafs_mod[2].name = "slot";
    leafs_mod[2].type = CTL_NODE_INDEXED;
    leafs_mod[2].children = leafs_slot;
}

struct Prov {
    umf_memory_provider_handle_t h = nullptr;
    bool ipc = false;
    size_t cur = 0, peak = 0; // of the owning task
    std::vector<std::pair<void *, size_t>> blocks;
};
struct Pool {
    umf_memory_pool_handle_t h = nullptr;
    bool track = false;
};
struct Ctl : Scenario {
    std::deque<Prov> provs; // [0] belongs to nobody, [t] to task t
    std::deque<Pool> pools;
    std::deque<Obj> objs;
    Provider plain;
    umf_memory_pool_handle_t proxy = nullptr;
    struct ctl *tree = nullptr;
    Baseline base;
    Program prog;
    const char *op_name(uint32_t c) override {
        static const char *n[] = {"get_ipc_enabled", "get_allocated", "get_peak",
                                  "reset", "get_tracking", "bad_name", "wrong_verb",
                                  "alloc", "free", "tree_query", "config"};
        return n[c % NOPS];
    }
    const char *real_parts() override {
        return "ctl, OS provider, scalable pool, memory_provider, memory_pool, "
               "base allocator";
    }
    const char *stub_parts() override { return "OS calls, TBB malloc behind a gate"; }
    void generate(Rng &r, Program &p, bool thorough) override {
        log_cfg(r, p, 12);
        int nt = (int)r.range(1, 4), k = (int)r.range(3, thorough ? 24 : 14);
        p.cfg["pools"] = r.chance(1, 3) ? r.range(1, 2) : 0;
        p.cfg["ipc"] = (int64_t)r.below(32);
        p.cfg["tr"] = (int64_t)r.below(4);
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < k; i++) {
                static const int w[] = {GET_IPC, GET_IPC, GET_ALLOCATED, GET_ALLOCATED,
                                        GET_PEAK, RESET, GET_TRACKING, GET_TRACKING,
                                        BAD, BAD, WRONG_VERB, ALLOC, ALLOC, FREE, TREE,
                                        TREE, CONFIG};
                int c = w[r.below(sizeof w / sizeof *w)];
                p.add((uint32_t)t, (uint32_t)c, (int64_t)r.below(8),
                      (int64_t)r.below(NBAD), (int64_t)r.below(100000), (int64_t)r.below(6));
            }
        pick_faults(r, p, {F_META, F_META, F_META, F_BAMMAP, F_MMAP}, 60);
    }
    void create() {
        std::set<uint32_t> tasks;
        for (auto &o : prog.ops)
            tasks.insert(o.task);
        provs.clear();
        pools.clear();
        for (uint32_t i = 0; i <= prog.ntasks; i++) {
            provs.emplace_back();
            Prov &q = provs.back();
            umf_os_memory_provider_params_handle_t pr = nullptr;
            if (umfOsMemoryProviderParamsCreate(&pr))
                violate("create-failed", "params");
            q.ipc = prog.get("ipc") >> (i % 5) & 1;
            if (q.ipc)
                umfOsMemoryProviderParamsSetVisibility(pr, UMF_MEM_MAP_SHARED);
            if (umfMemoryProviderCreate(umfOsMemoryProviderOps(), pr, &q.h))
                violate("create-failed", "OS provider");
            umfOsMemoryProviderParamsDestroy(pr);
        }
        for (int i = 0; i < prog.get("pools"); i++) {
            pools.emplace_back();
            Pool &q = pools.back();
            q.track = prog.get("tr") >> i & 1;
            if (umfPoolCreate(umfScalablePoolOps(), provs[0].h, nullptr,
                              q.track ? 0 : UMF_POOL_CREATE_FLAG_DISABLE_TRACKING, &q.h))
                violate("create-failed", "scalable pool");
        }
        make_provider(&plain);
        if (umfPoolCreate(umfProxyPoolOps(), plain.h, nullptr, 0, &proxy))
            violate("create-failed", "proxy pool");
        tree = ctl_new();
        if (!tree)
            violate("create-failed", "ctl_new");
        build_tree();
        ctl_register_module_node(tree, "mod", leafs_mod);
        objs.resize(prog.ntasks + 1);
    }
    void destroy() {
        for (auto &q : pools)
            umfPoolDestroy(q.h);
        umfPoolDestroy(proxy);
        umfMemoryProviderDestroy(plain.h);
        for (auto &q : provs) {
            for (auto &b : q.blocks)
                umfMemoryProviderFree(q.h, b.first, b.second);
            umfMemoryProviderDestroy(q.h);
        }
        ctl_delete(tree);
    }
    void setup(const Program &p) override {
        loader_install();
        prog = p;
        base = baseline();
        log_setup(p);
        lib_init();
        create();
    }
    // a query that must succeed unless a metadata allocation was refused
    template <class T>
    void ask(umf_result_t (*f)(const char *, void *, void *), const char *name,
             void *ctx, T want, bool check, const char *what) {
        std::string n = name; // the caller's string must not be touched
        T v = (T)0x5a5a5a5a;
        uint64_t f0 = faults_fired();
        umf_result_t r = f(n.c_str(), ctx, &v);
        if (n != name)
            violate("name-modified", "the query changed the caller's string");
        if (r) {
            if (faults_fired() == f0)
                violate("spurious-failure", "%s('%s') failed (%s) without any "
                                            "refusal", what, name, res_name(r));
            probe("query failed");
            return;
        }
        if (check && v != want)
            violate("wrong-value", "%s('%s') read %lld, is %lld", what, name,
                    (long long)v, (long long)want);
    }
    void exec(const Op &op) override {
        int me = task_id();
        Prov &mine = provs[(size_t)me % provs.size()];
        Prov &any = provs[(size_t)op.a[0] % provs.size()];
        Obj &o = objs[(size_t)me % objs.size()];
        switch (op.code % NOPS) {
        case GET_IPC:
            ask<int>(umfCtlGet, "umf.provider.by_handle.params.ipc_enabled", any.h,
                     any.ipc, true, "get");
            break;
        case GET_ALLOCATED:
            ask<size_t>(umfCtlGet, "umf.provider.by_handle.stats.allocated_memory",
                        op.a[3] & 1 ? any.h : mine.h, mine.cur,
                        !(op.a[3] & 1) || &any == &mine, "get");
            break;
        case GET_PEAK:
            ask<size_t>(umfCtlGet, "umf.provider.by_handle.stats.peak_memory", mine.h,
                        mine.peak, true, "get");
            break;
        case RESET: {
            char c = 0;
            uint64_t f0 = faults_fired();
            umf_result_t r =
                umfCtlExec("umf.provider.by_handle.stats.reset", mine.h, &c);
            if (!r)
                mine.peak = mine.cur;
            else if (faults_fired() == f0)
                violate("spurious-failure", "reset failed (%s)", res_name(r));
            break;
        }
        case GET_TRACKING:
            if (pools.empty())
                break;
            {
                Pool &q = pools[(size_t)op.a[0] % pools.size()];
                ask<int>(umfCtlGet, "umf.pool.by_handle.params.tracking_enabled", q.h,
                         q.track, true, "get");
            }
            break;
        case BAD: {
            const char *n = BADNAMES[(size_t)op.a[1] % NBAD];
            std::string s = n;
            if (op.a[3] == 5)
                s = "umf.provider.by_handle." + std::string(3000, 'x');
            size_t v = 1;
            void *ctx = any.h;
            if (op.a[3] == 4) { // objects without control entries
                s = op.a[2] & 1 ? "umf.provider.by_handle.params.ipc_enabled"
                                : "umf.pool.by_handle.params.tracking_enabled";
                ctx = op.a[2] & 1 ? (void *)plain.h : (void *)proxy;
            }
            umf_result_t r = op.a[3] % 3 == 0 ? umfCtlGet(s.c_str(), ctx, &v)
                             : op.a[3] % 3 == 1 ? umfCtlSet(s.c_str(), ctx, &v)
                                                : umfCtlExec(s.c_str(), ctx, &v);
            if (r == UMF_RESULT_SUCCESS)
                violate("bad-name-accepted", "the query '%.80s' succeeded", s.c_str());
            break;
        }
        case WRONG_VERB: {
            size_t v = 0;
            umf_result_t r =
                op.a[1] % 4 == 0 ? umfCtlSet("umf.provider.by_handle.params.ipc_enabled", any.h, &v)
                : op.a[1] % 4 == 1 ? umfCtlExec("umf.provider.by_handle.stats.peak_memory", any.h, &v)
                : op.a[1] % 4 == 2 ? umfCtlGet("umf.provider.by_handle.stats.reset", any.h, &v)
                                   : umfCtlSet("umf.provider.by_handle.stats.allocated_memory", any.h, &v);
            if (r == UMF_RESULT_SUCCESS)
                violate("wrong-verb-accepted", "a query of the wrong kind succeeded");
            break;
        }
        case ALLOC: {
            void *p = nullptr;
            size_t n = 4096 * (1 + (size_t)op.a[2] % 7);
            uint64_t f0 = faults_fired();
            umf_result_t r = umfMemoryProviderAlloc(mine.h, n, 0, &p);
            if (!r) {
                mine.blocks.push_back({p, n});
                mine.cur += n;
                mine.peak = std::max(mine.peak, mine.cur);
            } else if (faults_fired() == f0)
                violate("spurious-failure", "alloc failed");
            break;
        }
        case FREE:
            if (!mine.blocks.empty()) {
                auto b = mine.blocks.back();
                mine.blocks.pop_back();
                if (!umfMemoryProviderFree(mine.h, b.first, b.second))
                    mine.cur -= b.second;
            }
            break;
        case TREE: {
            int i = (int)(op.a[3] & 3), v = (int)op.a[2];
            std::string n = op.a[3] == 4 ? "mod.num"
                            : op.a[3] == 5 ? "mod.go"
                                           : "mod.slot." + std::to_string(i) + ".item";
            n = op.a[3] < 4 ? "mod." + std::to_string(i) + ".item" : n;
            uint64_t f0 = faults_fired();
            int *cell = op.a[3] == 4 ? &o.num : &o.item[i];
            int before = op.a[3] == 5 ? o.runs : *cell;
            int r;
            if (op.a[3] == 5) {
                r = ctl_query(tree, &o, CTL_QUERY_PROGRAMMATIC, n.c_str(),
                              CTL_QUERY_RUNNABLE, &v);
                if (o.runs != before + (r == 0))
                    violate("wrong-run", "a query (%d) ran its entry %d times", r,
                            o.runs - before);
            } else if (op.a[1] & 1) {
                r = ctl_query(tree, &o, CTL_QUERY_PROGRAMMATIC, n.c_str(),
                              CTL_QUERY_WRITE, &v);
                if (*cell != (r ? before : v))
                    violate("wrong-write", "writing %d to '%s' (%d) left %d", v,
                            n.c_str(), r, *cell);
            } else {
                int got = -7;
                r = ctl_query(tree, &o, CTL_QUERY_PROGRAMMATIC, n.c_str(),
                              CTL_QUERY_READ, &got);
                if (!r && got != before)
                    violate("wrong-value", "'%s' reads %d, is %d", n.c_str(), got, before);
            }
            if (r && faults_fired() == f0)
                violate("spurious-failure", "tree query '%s' failed", n.c_str());
            break;
        }
        case CONFIG: {
            int v = (int)op.a[2], i = (int)(op.a[3] & 3);
            std::string s = "mod.num=" + std::to_string(v) + ";mod." +
                            std::to_string(i) + ".item=" + std::to_string(v + 1);
            bool bad = op.a[1] % 5 == 0;
            if (bad)
                s += op.a[1] % 2 ? ";mod.nothing=4" : ";mod.num=";
            uint64_t f0 = faults_fired();
            int n0 = o.num, i0 = o.item[i];
            int r = ctl_load_config_from_string(tree, &o, s.c_str());
            if (bad ? r == 0 : r != 0 && faults_fired() == f0)
                violate("config-result", "configuration '%s' returned %d", s.c_str(), r);
            if (r == 0 && (o.num != v || o.item[i] != v + 1))
                violate("config-lost", "configuration '%s' was applied as %d, %d",
                        s.c_str(), o.num, o.item[i]);
            if ((o.num != v && o.num != n0) || (o.item[i] != v + 1 && o.item[i] != i0))
                violate("config-wrong", "configuration '%s' left %d, %d", s.c_str(),
                        o.num, o.item[i]);
            break;
        }
        }
    }
    void queries_work() {
        for (auto &q : provs) {
            ask<int>(umfCtlGet, "umf.provider.by_handle.params.ipc_enabled", q.h, q.ipc,
                     true, "get");
            ask<size_t>(umfCtlGet, "umf.provider.by_handle.stats.allocated_memory", q.h,
                        q.cur, &q != &provs[0] || pools.empty(), "get");
        }
        for (auto &q : pools)
            ask<int>(umfCtlGet, "umf.pool.by_handle.params.tracking_enabled", q.h,
                     q.track, true, "get");
    }
    void finish() override {
        uint64_t m = os::meta_mark();
        queries_work();
        if (os::meta_live_since(m))
            violate("leak:metadata", "queries left allocations: %s",
                    os::meta_describe(4, m).c_str());
        destroy();
        umfTearDown();
        check_no_leak(base, "control queries");
        // the trees survive a teardown
        lib_init();
        create();
        queries_work();
        destroy();
        umfTearDown();
        check_no_leak(base, "the second round");
    }
};
SIM_SCENARIO("C24.queries", Ctl)
} // namespace
