// C20: predefined memory spaces are shared and complete; operations on memory
// spaces are atomic and leak nothing.
#include "common.h"
#include <algorithm>
#include <deque>
#include <hwloc.h>
#include <umf/mempolicy.h>
#include <umf/memspace.h>
#include <umf/memtarget.h>
using namespace simx;
namespace {
enum { GET, NEW, CLONE, ARRAY, ADD, REMOVE, BY_ID, BY_CAP, USER, DESTROY, PROVIDER, CYCLE, NOPS };
enum { HOST, CAP, BW, LAT, NSPACE };

struct Node {
    unsigned id = 0;
    uint64_t capacity = 0;
    hwloc_bitmap_t cpus = nullptr;
};
struct Space {
    umf_memspace_handle_t h = nullptr;
    std::vector<unsigned> ids;
};
struct CallArgs {
    std::vector<unsigned> seen;
    const void *space;
    uint64_t seed;
    int fail_at;
    std::vector<unsigned> keep;
};

struct Memspace : Scenario {
    Baseline base;
    std::vector<Node> nodes;
    std::deque<Space> spaces; // slots: per task
    int per = 3, ntasks = 1;
    int hmat = 1;
    uint64_t seed = 0;
    int inflight = 0;
    uint64_t started = 0;
    bool exclusive = false;
    uint64_t epoch = 0; // faults before this cycle
    umf_const_memspace_handle_t got[NSPACE] = {};
    bool asked[NSPACE] = {};
    bool attr_failed = false;
    FILE *xml = nullptr;

    const char *op_name(uint32_t c) override {
        static const char *n[] = {"get", "new", "clone", "from_array", "add", "remove",
                                  "filter_by_id", "filter_by_capacity", "user_filter",
                                  "destroy", "provider", "cycle"};
        return n[c % NOPS];
    }
    const char *real_parts() override {
        return "memory spaces, memory targets, topology cache, policies, OS provider, "
               "hwloc (topology read from a generated XML file)";
    }
    const char *stub_parts() override {
        return "hwloc_memattr_get_value (generated values), binding (recorded), OS calls";
    }
    void generate(Rng &r, Program &p, bool thorough) override {
        log_cfg(r, p, 12);
        p.cfg["shape"] = (int64_t)r.below(5);
        p.cfg["packages"] = r.range(1, r.chance(1, 4) ? 8 : 4);
        p.cfg["sparse"] = r.below(2);
        p.cfg["caps"] = (int64_t)r.below(4); // equal, few values, different, huge
        p.cfg["hmat"] = r.chance(1, 4) ? 0 : r.chance(1, 4) ? 2 : 1;
        p.cfg["tie"] = r.below(2);
        p.cfg["seed"] = (int64_t)(r.next() >> 2);
        int nt = r.chance(1, 3) ? 1 : (int)r.range(2, 4);
        p.cfg["nt"] = nt;
        int k = (int)r.range(3, thorough ? 30 : 16);
        bool arm = r.chance(1, 2);
        bool gets = r.chance(1, 3); // mostly first uses
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < k; i++) {
                unsigned x = (unsigned)r.below(100);
                int c = gets ? (x < 70 ? GET : x < 80 ? CLONE : x < 90 ? PROVIDER : CYCLE)
                        : x < 15 ? GET
                        : x < 19 ? NEW
                        : x < 31 ? CLONE
                        : x < 41 ? ARRAY
                        : x < 55 ? ADD
                        : x < 67 ? REMOVE
                        : x < 75 ? BY_ID
                        : x < 81 ? BY_CAP
                        : x < 88 ? USER
                        : x < 93 ? DESTROY
                        : x < 98 ? PROVIDER
                                 : CYCLE;
                int64_t nth = arm && r.chance(1, 2) ? r.range(1, r.chance(1, 2) ? 3 : 14) : 0;
                p.add((uint32_t)t, (uint32_t)c, (int64_t)r.below(64), (int64_t)r.below(64),
                      (int64_t)(r.next() >> 2), nth);
            }
        pick_faults(r, p, {F_META, F_META, F_BAMMAP, F_TOPOLOGY}, arm ? 10 : 50);
    }

    // ------------------------------------------------------------ the machine
    static std::string map_sets(const std::string &s, const std::vector<unsigned> &to) {
        std::string out;
        size_t i = 0;
        while (i < s.size()) {
            size_t q = s.find("nodeset=\"0x", i);
            size_t o = s.find("type=\"NUMANode\" os_index=\"", i);
            if (q == std::string::npos && o == std::string::npos)
                break;
            if (q < o) {
                q += 9;
                out += s.substr(i, q - i);
                size_t e = s.find('"', q);
                unsigned long v = strtoul(s.c_str() + q, nullptr, 16), w = 0;
                for (unsigned b = 0; b < to.size(); b++)
                    if (v >> b & 1)
                        w |= 1ul << to[b];
                char t[32];
                snprintf(t, sizeof t, "0x%08lx", w);
                out += t;
                i = e;
            } else {
                o += 25 + 1 - 1;
                o = s.find("os_index=\"", o - 12) + 10;
                out += s.substr(i, o - i);
                size_t e = s.find('"', o);
                unsigned v = (unsigned)strtoul(s.c_str() + o, nullptr, 10);
                out += std::to_string(v < to.size() ? to[v] : v);
                i = e;
            }
        }
        return out + s.substr(i);
    }
    void machine(const Program &p) {
        Rng r(seed ^ 0x1234);
        std::string n = std::to_string(std::min<int64_t>(8, std::max<int64_t>(1, p.get("packages", 2))));
        static const char *shapes[] = {
            " numa:1 core:2 pu:1",
            " [numa(memory=1GB)] [numa(memory=2GB)] core:1 pu:1",
            " [numa(memory=1GB)] core:2 [numa(memory=2GB)] pu:1",
            "", "",
        };
        int sh = (int)p.get("shape") % 5;
        std::string syn = sh < 3   ? "package:" + n + shapes[sh]
                          : sh == 3 ? "[numa(memory=5GB)] package:" + n +
                                          " [numa(memory=1GB)] core:1 pu:1"
                                    : "package:1 numa:1 core:1 pu:1";
        hwloc_topology_t t;
        if (hwloc_topology_init(&t) || hwloc_topology_set_synthetic(t, syn.c_str()) ||
            hwloc_topology_load(t))
            harness_error("synthetic topology %s", syn.c_str());
        hwloc_obj_t o = nullptr;
        size_t i = 0;
        while ((o = hwloc_get_next_obj_by_type(t, HWLOC_OBJ_NUMANODE, o))) {
            uint64_t c = p.get("caps") == 0   ? 1u << 30
                         : p.get("caps") == 1 ? (1 + r.below(3)) << 28
                         : p.get("caps") == 3 ? r.below(64) << (12 + 4 * r.below(9))
                                              : (1 + r.below(1000)) * 4096 + (i << 30);
            o->attr->numanode.local_memory = c;
            i++;
        }
        std::vector<unsigned> to(i);
        for (unsigned k = 0; k < i; k++)
            to[k] = k;
        if (p.get("sparse") && i <= 31) {
            std::vector<unsigned> all(31);
            for (unsigned k = 0; k < 31; k++)
                all[k] = k;
            for (unsigned k = 0; k < i; k++) {
                std::swap(all[k], all[k + r.below(31 - k)]);
                to[k] = all[k];
            }
        }
        char *buf = nullptr;
        int len = 0;
        if (hwloc_topology_export_xmlbuffer(t, &buf, &len, 0))
            harness_error("export of the topology");
        std::string x = map_sets(std::string(buf), to);
        hwloc_free_xmlbuffer(t, buf);
        hwloc_topology_destroy(t);
        xml = tmpfile();
        if (!xml)
            harness_error("tmpfile");
        fwrite(x.data(), 1, x.size(), xml);
        fflush(xml);
        char path[64];
        snprintf(path, sizeof path, "/proc/self/fd/%d", fileno(xml));
        unsetenv("HWLOC_SYNTHETIC");
        setenv("HWLOC_XMLFILE", path, 1);
        // what hwloc makes of it
        if (hwloc_topology_init(&t) || hwloc_topology_load(t))
            harness_error("reading the topology back");
        o = nullptr;
        while ((o = hwloc_get_next_obj_by_type(t, HWLOC_OBJ_NUMANODE, o))) {
            Node q;
            q.id = o->os_index;
            q.capacity = o->attr->numanode.local_memory;
            q.cpus = hwloc_bitmap_dup(o->cpuset);
            nodes.push_back(q);
        }
        hwloc_topology_destroy(t);
        if (nodes.size() != i)
            harness_error("%zu nodes instead of %zu", nodes.size(), i);
    }
    // attribute values of the simulated machine
    bool attr(int id, unsigned target, uint64_t cpu, uint64_t *v) {
        uint64_t h = mix64(mix64(seed, (uint64_t)id * 1000 + target), cpu);
        if (hmat == 0 || (hmat == 2 && h % 5 == 0))
            return false;
        h >>= 8;
        *v = tie ? h % 3 : h % 100000;
        return true;
    }
    bool tie = false;
    void setup(const Program &p) override {
        meta_oracle(true);
        seed = (uint64_t)p.get("seed");
        hmat = (int)p.get("hmat");
        tie = p.get("tie");
        ntasks = (int)std::max<int64_t>(1, p.get("nt", 1));
        {
            Unchecked u;
            machine(p);
        }
        os::on_memattr([this](int id, unsigned target, uint64_t cpu, uint64_t, uint64_t *v) {
            return attr(id, target, cpu, v);
        });
        spaces.resize((size_t)per * 16);
        base = baseline();
        log_setup(p);
        lib_init();
    }
    // ------------------------------------------------------------ oracles
    bool faulty() { return faults_fired() != epoch; }
    const Node *node(unsigned id) {
        for (auto &n : nodes)
            if (n.id == id)
                return &n;
        return nullptr;
    }
    static std::string show(const std::vector<unsigned> &v) {
        std::string s = "{";
        for (auto x : v)
            s += (s.size() > 1 ? "," : "") + std::to_string(x);
        return s + "}";
    }
    bool topo_broken() { // a failed load of the topology stays until teardown
        return faults_fired_kind(F_TOPOLOGY) != topo_faults;
    }
    uint64_t topo_faults = 0;
    std::vector<unsigned> content(umf_const_memspace_handle_t h, bool caps) {
        std::vector<unsigned> v;
        size_t n = umfMemspaceMemtargetNum(h);
        for (size_t i = 0; i < n; i++) {
            umf_const_memtarget_handle_t t = umfMemspaceMemtargetGet(h, (unsigned)i);
            unsigned id = ~0u;
            umf_result_t x;
            if (!t || (x = umfMemtargetGetId(t, &id)) != UMF_RESULT_SUCCESS)
                violate("target", "target %zu of %zu of a space can not be read", i, n);
            umf_memtarget_type_t ty;
            if (umfMemtargetGetType(t, &ty) || ty != UMF_MEMTARGET_TYPE_NUMA)
                violate("target", "target %zu has the wrong type", i);
            if (caps) {
                size_t c = 0;
                x = umfMemtargetGetCapacity(t, &c);
                const Node *q = node(id);
                if (!q ? x == UMF_RESULT_SUCCESS : (x != UMF_RESULT_SUCCESS && !topo_broken()))
                    violate("capacity", "capacity of node %u: %s", id, res_name(x));
                if (q && x == UMF_RESULT_SUCCESS && c != q->capacity)
                    violate("capacity", "capacity of node %u is %zu instead of %llu", id, c,
                            (unsigned long long)q->capacity);
            }
            v.push_back(id);
        }
        if (umfMemspaceMemtargetGet(h, (unsigned)n))
            violate("target", "a space of %zu targets has one more", n);
        return v;
    }
    // value of the attribute as the library has to see it
    bool value(const Node &ini, const Node &tg, bool bw, uint64_t *v) {
        if (!hwloc_bitmap_intersects(ini.cpus, tg.cpus)) {
            *v = bw ? 0 : ~0ull;
            return true;
        }
        return attr(bw ? HWLOC_MEMATTR_ID_BANDWIDTH : HWLOC_MEMATTR_ID_LATENCY, tg.id,
                    (unsigned)hwloc_bitmap_first(ini.cpus), v);
    }
    bool machine_has(bool bw) {
        uint64_t v;
        for (auto &a : nodes)
            for (auto &b : nodes)
                if (!value(a, b, bw, &v))
                    return false;
        return true;
    }
    void check_predefined(int k, umf_const_memspace_handle_t h) {
        std::vector<unsigned> v = content(h, true);
        std::vector<unsigned> s = v, all;
        for (auto &n : nodes)
            all.push_back(n.id);
        std::sort(all.begin(), all.end());
        std::sort(s.begin(), s.end());
        if (std::unique(s.begin(), s.end()) != s.end())
            violate("predefined", "a predefined space has a target twice: %s", show(v).c_str());
        if (k == HOST || k == CAP) {
            if (s != all)
                violate("predefined", "the space has nodes %s, the machine %s", show(v).c_str(),
                        show(all).c_str());
            if (k == CAP)
                for (size_t i = 1; i < v.size(); i++)
                    if (node(v[i - 1])->capacity < node(v[i])->capacity)
                        violate("order", "node %u with %llu bytes is listed before node %u "
                                         "with %llu", v[i - 1],
                                (unsigned long long)node(v[i - 1])->capacity, v[i],
                                (unsigned long long)node(v[i])->capacity);
            return;
        }
        bool bw = k == BW;
        std::set<unsigned> useful;
        for (auto &a : nodes) {
            uint64_t best = bw ? 0 : ~0ull, x;
            for (auto &b : nodes) {
                if (!value(a, b, bw, &x))
                    return; // asked of a machine that does not tell
                best = bw ? std::max(best, x) : std::min(best, x);
            }
            bool hit = false;
            for (auto &b : nodes) {
                value(a, b, bw, &x);
                if (x == best) {
                    useful.insert(b.id);
                    hit = hit || std::count(v.begin(), v.end(), b.id);
                }
            }
            if (!hit)
                violate("best", "the best target of initiator %u is missing in %s", a.id,
                        show(v).c_str());
        }
        for (auto x : v)
            if (!useful.count(x))
                violate("best", "node %u is the best target of no initiator", x);
    }
    umf_const_memspace_handle_t get(int k) {
        static umf_const_memspace_handle_t (*f[])(void) = {
            umfMemspaceHostAllGet, umfMemspaceHighestCapacityGet,
            umfMemspaceHighestBandwidthGet, umfMemspaceLowestLatencyGet};
        umf_const_memspace_handle_t h = f[k]();
        if (asked[k] && got[k] != h)
            violate("shared", "the predefined space was %p and is %p now", (void *)got[k],
                    (void *)h);
        asked[k] = true;
        got[k] = h;
        bool possible = k == HOST || k == CAP || machine_has(k == BW);
        if (!h) {
            if (possible && !faulty())
                violate("missing", "a predefined space is missing without any fault");
            probe(possible ? "predefined space failed" : "machine without attributes");
        } else
            check_predefined(k, h);
        return h;
    }
    void same(Space &s, const char *what) {
        std::vector<unsigned> v = content(s.h, true);
        if (v != s.ids)
            violate("content", "after %s the space has %s instead of %s", what, show(v).c_str(),
                    show(s.ids).c_str());
    }
    // ------------------------------------------------------------ operations
    struct Call {
        uint64_t faults, mark, start;
        size_t maps0;
        bool alone;
    };
    Call begin(const Op &op) {
        Call c;
        c.faults = faults_fired();
        c.alone = inflight == 1;
        c.start = started;
        c.mark = os::meta_mark();
        if (op.a[3] > 0)
            fault_arm(1ull << F_META | 1ull << F_BAMMAP, (uint32_t)op.a[3], 0);
        return c;
    }
    // returns true if the operation took place
    bool end(const Call &c, umf_result_t x, umf_result_t expect, const char *what) {
        fault_arm(0, 0, 0);
        bool hit = faults_fired() != c.faults;
        if (x == UMF_RESULT_SUCCESS) {
            if (expect != UMF_RESULT_SUCCESS)
                violate("accepted", "%s succeeded, %s is expected", what, res_name(expect));
            return true;
        }
        if (!valid_result(x))
            violate("result", "%s returned %d", what, (int)x);
        if (!hit && x != expect && !topo_broken())
            violate("failed", "%s failed (%s) without any fault", what, res_name(x));
        if (hit && expect == UMF_RESULT_SUCCESS)
            probe("operation hit by a fault");
        if (c.alone && c.start == started && os::meta_live_since(c.mark))
            violate("leak:failed-op", "a failed %s left %s", what,
                    os::meta_describe(4, c.mark).c_str());
        return false;
    }
    // a target to pass: of a predefined space, of another space of this task
    umf_const_memtarget_handle_t target(const Op &op, unsigned *id) {
        umf_const_memspace_handle_t from;
        uint64_t z = (uint64_t)op.a[2];
        Space &o = spaces[(size_t)task_id() % 16 * (size_t)per + z % (size_t)per];
        if ((z >> 8) % 3 && o.h && o.ids.size())
            from = o.h;
        else
            from = get(HOST);
        if (!from || !umfMemspaceMemtargetNum(from))
            return nullptr;
        umf_const_memtarget_handle_t t = umfMemspaceMemtargetGet(
            from, (unsigned)((z >> 16) % umfMemspaceMemtargetNum(from)));
        if (!t || umfMemtargetGetId(t, id))
            violate("target", "a target can not be read");
        return t;
    }
    static int cb(umf_const_memspace_handle_t m, umf_const_memtarget_handle_t t, void *a) {
        CallArgs &c = *(CallArgs *)a;
        point();
        unsigned id = ~0u;
        if (m != c.space)
            violate("filter", "the filter was given another space");
        if (umfMemtargetGetId(t, &id))
            violate("filter", "the filter's target can not be read");
        int i = (int)c.seen.size();
        c.seen.push_back(id);
        if (i == c.fail_at)
            return -1 - (int)(c.seed >> 40 & 7);
        bool keep = mix64(c.seed, id) & 1;
        if (keep)
            c.keep.push_back(id);
        return keep ? 1 + (int)(c.seed >> 50 & 3) : 0;
    }
    void destroy(Space &s) {
        umfMemspaceDestroy(s.h);
        s.h = nullptr;
        s.ids.clear();
    }
    void cycle() {
        // everything ends, all is returned, the next cycle starts over
        for (auto &s : spaces)
            if (s.h)
                destroy(s);
        umfTearDown();
        check_no_leak(base, "a cycle");
        bool on = faults_enabled();
        faults_enable(false);
        lib_init();
        faults_enable(on);
        for (int k = 0; k < NSPACE; k++)
            asked[k] = false, got[k] = nullptr;
        epoch = faults_fired();
        topo_faults = faults_fired_kind(F_TOPOLOGY);
        probe("cycle");
    }
    void exec(const Op &op) override {
        yield_until([this] { return !exclusive; });
        if (op.code % NOPS == CYCLE) {
            exclusive = true;
            yield_until([this] { return !inflight; });
            cycle();
            exclusive = false;
            return;
        }
        inflight++;
        started++;
        run(op);
        started++;
        inflight--;
    }
    void run(const Op &op) {
        Space &s = spaces[(size_t)task_id() % 16 * (size_t)per + (uint64_t)op.a[0] % (size_t)per];
        uint64_t z = (uint64_t)op.a[2];
        switch (op.code % NOPS) {
        case GET:
            get((int)(op.a[1] % NSPACE));
            break;
        case NEW: {
            if (s.h)
                destroy(s);
            Call c = begin(op);
            if (end(c, umfMemspaceNew(&s.h), UMF_RESULT_SUCCESS, "umfMemspaceNew"))
                same(s, "umfMemspaceNew");
            else
                s.h = nullptr;
            break;
        }
        case CLONE: {
            if (s.h)
                destroy(s);
            int k = (int)(z % 8);
            umf_const_memspace_handle_t from = nullptr;
            std::vector<unsigned> ids;
            if (k < NSPACE) {
                from = get(k);
                if (from)
                    ids = content(from, false);
            } else {
                Space &o = spaces[(size_t)task_id() % 16 * (size_t)per + (z >> 8) % (size_t)per];
                from = o.h;
                ids = o.ids;
            }
            Call c = begin(op);
            umf_memspace_handle_t h = nullptr;
            if (end(c, umfMemspaceClone(from, &h),
                    from ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_INVALID_ARGUMENT,
                    "umfMemspaceClone")) {
                s.h = h;
                s.ids = ids;
                same(s, "umfMemspaceClone");
            }
            break;
        }
        case ARRAY: {
            if (s.h)
                destroy(s);
            std::vector<unsigned> ids;
            for (auto &n : nodes)
                if (mix64(z, n.id) & 1)
                    ids.push_back(n.id);
            if (z % 7 == 0)
                ids.push_back(40 + (unsigned)(z >> 8) % 9); // no such node
            for (size_t i = ids.size(); i > 1; i--)
                std::swap(ids[i - 1], ids[mix64(z, i) % i]);
            Call c = begin(op);
            umf_memspace_handle_t h = nullptr;
            if (end(c, umfMemspaceCreateFromNumaArray(ids.data(), ids.size(), &h),
                    ids.size() ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_INVALID_ARGUMENT,
                    "umfMemspaceCreateFromNumaArray")) {
                s.h = h;
                s.ids = ids;
                same(s, "umfMemspaceCreateFromNumaArray");
            }
            break;
        }
        case ADD: {
            if (!s.h)
                break;
            unsigned id = 0;
            umf_const_memtarget_handle_t t = target(op, &id);
            if (!t)
                break;
            bool has = std::count(s.ids.begin(), s.ids.end(), id);
            Call c = begin(op);
            if (end(c, umfMemspaceMemtargetAdd(s.h, t),
                    has ? UMF_RESULT_ERROR_INVALID_ARGUMENT : UMF_RESULT_SUCCESS,
                    "umfMemspaceMemtargetAdd"))
                s.ids.push_back(id);
            same(s, "umfMemspaceMemtargetAdd");
            break;
        }
        case REMOVE: {
            if (!s.h)
                break;
            unsigned id = 0;
            umf_const_memtarget_handle_t t = target(op, &id);
            if (!t)
                break;
            auto it = std::find(s.ids.begin(), s.ids.end(), id);
            Call c = begin(op);
            umf_result_t x = umfMemspaceMemtargetRemove(s.h, t);
            if (end(c, x, it == s.ids.end() ? UMF_RESULT_ERROR_INVALID_ARGUMENT
                                            : UMF_RESULT_SUCCESS,
                    "umfMemspaceMemtargetRemove")) {
                s.ids.erase(it);
                if (s.ids.empty())
                    probe("last target removed");
            }
            same(s, "umfMemspaceMemtargetRemove");
            break;
        }
        case BY_ID: {
            if (!s.h)
                break;
            std::vector<unsigned> ids;
            size_t k = z % 5;
            for (size_t i = 0; i < k; i++)
                ids.push_back(mix64(z, i) % 6 ? nodes[mix64(z, i + 9) % nodes.size()].id
                                              : 40 + (unsigned)(mix64(z, i + 3) % 9));
            std::vector<unsigned> left;
            for (auto x : s.ids)
                if (std::count(ids.begin(), ids.end(), x))
                    left.push_back(x);
            Call c = begin(op);
            if (end(c, umfMemspaceFilterById(s.h, ids.data(), ids.size()),
                    k ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_INVALID_ARGUMENT,
                    "umfMemspaceFilterById"))
                s.ids = left;
            same(s, "umfMemspaceFilterById");
            break;
        }
        case BY_CAP: {
            if (!s.h)
                break;
            int64_t cap = z % 9 == 0 ? -1
                          : z % 5 == 0 ? (int64_t)((z >> 8) % (10ull << 30))
                                       : (int64_t)nodes[(z >> 8) % nodes.size()].capacity +
                                             (int64_t)((z >> 20) % 3) - 1;
            std::vector<unsigned> left;
            bool unknown = false;
            for (auto x : s.ids)
                if (!node(x))
                    unknown = true;
                else if ((int64_t)node(x)->capacity >= cap)
                    left.push_back(x);
            Call c = begin(op);
            if (end(c, umfMemspaceFilterByCapacity(s.h, cap),
                    cap < 0 || unknown ? UMF_RESULT_ERROR_INVALID_ARGUMENT : UMF_RESULT_SUCCESS,
                    "umfMemspaceFilterByCapacity"))
                s.ids = left;
            same(s, "umfMemspaceFilterByCapacity");
            break;
        }
        case USER: {
            if (!s.h)
                break;
            CallArgs a{{}, s.h, z, z % 3 ? -1 : (int)((z >> 8) % 6), {}};
            bool fails = a.fail_at >= 0 && (size_t)a.fail_at < s.ids.size();
            Call c = begin(op);
            if (end(c, umfMemspaceUserFilter(s.h, cb, &a),
                    fails ? UMF_RESULT_ERROR_USER_SPECIFIC : UMF_RESULT_SUCCESS,
                    "umfMemspaceUserFilter")) {
                if (a.seen != s.ids)
                    violate("filter", "the filter was asked about %s, the space has %s",
                            show(a.seen).c_str(), show(s.ids).c_str());
                s.ids = a.keep;
            } else if (fails)
                probe("filter refused");
            same(s, "umfMemspaceUserFilter");
            break;
        }
        case DESTROY:
            if (s.h)
                destroy(s);
            break;
        case PROVIDER: {
            get(HOST); // the library asks for both
            get(CAP);
            umf_const_memspace_handle_t from;
            std::vector<unsigned> ids;
            int k = (int)(z % 6);
            if (k < NSPACE) {
                from = get(k);
                if (!from)
                    break;
                ids = content(from, false);
            } else {
                from = s.h;
                ids = s.ids;
            }
            bool bad = !from || ids.empty();
            for (auto x : ids)
                bad = bad || !node(x);
            if (bad && from && !ids.empty())
                break; // nodes the machine lacks: nothing is promised
            if (topo_broken())
                break;
            Call c = begin(op);
            umf_memory_provider_handle_t h = nullptr;
            uint64_t f0 = faults_fired();
            if (!end(c, umfMemoryProviderCreateFromMemspace(from, nullptr, &h),
                     bad ? UMF_RESULT_ERROR_INVALID_ARGUMENT : UMF_RESULT_SUCCESS,
                     "umfMemoryProviderCreateFromMemspace"))
                break;
            (void)f0;
            size_t b0 = os::binds().size();
            void *p = nullptr;
            umf_result_t x = umfMemoryProviderAlloc(h, 8192, 0, &p);
            if (x == UMF_RESULT_SUCCESS) {
                std::set<unsigned> want(ids.begin(), ids.end());
                if (k == CAP) { // the biggest one
                    uint64_t top = 0;
                    for (auto y : ids)
                        top = std::max(top, node(y)->capacity);
                    want.clear();
                    for (auto y : ids)
                        if (node(y)->capacity == top)
                            want.insert(y);
                }
                for (size_t i = b0; i < os::binds().size(); i++) {
                    auto &b = os::binds()[i];
                    if (b.task != task_id() || b.addr != (uintptr_t)p)
                        continue;
                    if (k == HOST)
                        violate("provider", "the default space binds memory");
                    if (b.nodes.empty())
                        violate("provider", "memory is bound to no node");
                    for (auto y : b.nodes)
                        if (!want.count(y))
                            violate("provider", "memory of the space %s is bound to node %u",
                                    show(ids).c_str(), y);
                }
                probe("provider of a space");
                x = umfMemoryProviderFree(h, p, 8192);
                if (x)
                    violate("free", "free failed (%s)", res_name(x));
            } else if (faults_fired() == c.faults)
                violate("failed", "allocation failed (%s) without any fault", res_name(x));
            umfMemoryProviderDestroy(h);
            break;
        }
        }
    }
    void finish() override {
        for (auto &s : spaces)
            if (s.h)
                same(s, "the run");
        for (int k = 0; k < NSPACE; k++)
            get(k);
        // after the faults are over everything works again
        cycle();
        for (int k = 0; k < NSPACE; k++)
            get(k);
        umfTearDown();
        check_no_leak(base, "the run");
        for (auto &n : nodes)
            hwloc_bitmap_free(n.cpus);
        if (xml)
            fclose(xml);
    }
};
SIM_SCENARIO("C20.memspace", Memspace)
} // namespace
