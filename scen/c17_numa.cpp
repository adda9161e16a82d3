// C17: every page of an allocation is bound as the NUMA mode promises.
#include "common.h"
#include <algorithm>
#include <deque>
#include <hwloc.h>
#include <umf/memspace.h>
#include <umf/memtarget.h>
#include <umf/mempolicy.h>
#include <umf/providers/provider_os_memory.h>
using namespace simx;
namespace {
enum { ALLOC, FREE, NOPS };
enum { M_DEFAULT, M_BIND, M_INTERLEAVE, M_PARTS, M_PREFERRED, M_SPLIT, M_LOCAL, NMODE };

struct Prov {
    int mode = 0;
    std::vector<unsigned> list; // ordered
    std::vector<std::pair<unsigned, unsigned>> parts; // weight, node
    size_t part = 0; // rounded up to whole pages
    umf_memory_provider_handle_t h = nullptr;
    // interleaving over the whole history
    bool odd = false, broken = false;
    long next = -1;            // node index expected next, alone only
    std::vector<uint64_t> used; // parts on each node of the list
    int inflight = 0;
};
struct Slot {
    bool busy = false;
    int prov = 0;
    void *p = nullptr;
    size_t n = 0;
};

struct Numa : Scenario {
    Baseline base;
    std::deque<Prov> provs;
    std::deque<Slot> slots;
    std::vector<unsigned> nodes; // of the machine
    int inflight = 0;
    bool dup = false;
    size_t topo_maps = 0;

    const char *op_name(uint32_t c) override {
        static const char *n[] = {"alloc", "free"};
        return n[c % NOPS];
    }
    const char *real_parts() override {
        return "OS provider, binding iterator, memory targets, memspaces, policies, "
               "hwloc topology and bitmaps (synthetic machine)";
    }
    const char *stub_parts() override {
        return "hwloc_set_area_membind (recorded), OS calls";
    }
    void generate(Rng &r, Program &p, bool thorough) override {
        log_cfg(r, p, 15);
        p.cfg["nodes"] = r.range(1, r.chance(1, 4) ? 12 : 5);
        p.cfg["sparse"] = r.below(2);
        p.cfg["provs"] = r.range(1, 3);
        p.cfg["seed"] = (int64_t)(r.next() >> 2);
        p.cfg["kind"] = r.chance(1, 2) ? (int64_t)r.below(NMODE) : NMODE;
        p.cfg["slots"] = r.range(2, 10);
        p.cfg["whole"] = r.chance(1, 2); // sizes of whole parts
        int nt = r.chance(1, 3) ? 1 : (int)r.range(2, 4);
        int k = (int)r.range(3, thorough ? 30 : 14);
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < k; i++) {
                size_t n;
                unsigned x = (unsigned)r.below(10);
                if (x < 3)
                    n = 1 + r.below(4096);
                else if (x < 7)
                    n = 4096 * (size_t)r.range(1, 40) + (r.chance(1, 3) ? r.below(4096) : 0);
                else if (x < 9)
                    n = 4096 * (size_t)r.range(1, 8);
                else
                    n = 4096 * (size_t)r.range(40, 3000);
                size_t al = r.chance(1, 5) ? (size_t)4096 << r.below(6) : 0;
                p.add((uint32_t)t, r.chance(2, 3) ? ALLOC : FREE, (int64_t)r.below(64),
                      (int64_t)r.below(8), (int64_t)n, (int64_t)al);
            }
        p.cfg["nosys"] = r.chance(1, 6);
        pick_faults(r, p, {F_MEMBIND, F_MEMBIND, F_META, F_MMAP, F_BAMMAP}, 45);
    }
    void setup(const Program &p) override {
        meta_oracle(true);
        Rng r((uint64_t)p.get("seed"));
        unsigned nn = (unsigned)std::max<int64_t>(1, p.get("nodes", 2));
        std::string t = "package:" + std::to_string(nn) + " numa:1(memory=1073741824 indexes=";
        for (unsigned i = 0; i < nn; i++)
            nodes.push_back(i);
        if (p.get("sparse")) {
            unsigned v = (unsigned)r.below(3);
            for (auto &x : nodes)
                x = v, v += 1 + (unsigned)r.below(4);
            for (unsigned i = nn; i > 1; i--)
                std::swap(nodes[i - 1], nodes[r.below(i)]);
        }
        for (unsigned i = 0; i < nn; i++)
            t += (i ? "," : "") + std::to_string(nodes[i]);
        t += ") core:1 pu:1";
        setenv("HWLOC_SYNTHETIC", t.c_str(), 1);
        os::set_bind_missing(p.get("nosys"));
        base = baseline();
        log_setup(p);
        lib_init();
        slots.resize((size_t)std::max<int64_t>(1, p.get("slots", 4)));
        int np = (int)std::max<int64_t>(1, p.get("provs", 1));
        for (int i = 0; i < np; i++) {
            provs.emplace_back();
            int m = p.get("kind") < NMODE ? (int)p.get("kind") : (int)r.below(NMODE);
            create(provs.back(), m, r);
        }
        whole = p.get("whole");
    }
    bool whole = false;
    std::vector<unsigned> some_nodes(Rng &r) {
        std::vector<unsigned> v = nodes;
        for (size_t i = v.size(); i > 1; i--)
            std::swap(v[i - 1], v[r.below(i)]);
        v.resize((size_t)r.range(1, (int64_t)v.size()));
        return v;
    }
    void create(Prov &q, int mode, Rng &r) {
        q.mode = mode;
        bool list = mode != M_DEFAULT && mode != M_LOCAL &&
                    !(mode == M_PREFERRED && r.chance(1, 3));
        if (list)
            q.list = some_nodes(r);
        size_t raw = 0;
        if (mode == M_PARTS) {
            raw = r.chance(1, 2)   ? 4096 * (size_t)r.range(1, 9)
                  : r.chance(1, 3) ? (size_t)r.range(1, 4096)
                                   : (size_t)r.range(1, 60000);
            q.part = (raw + 4095) / 4096 * 4096;
        }
        if (mode == M_SPLIT && r.chance(3, 4)) {
            int k = (int)r.range(1, 2 * (int64_t)q.list.size());
            unsigned top = r.chance(1, 3) ? 1 : r.chance(1, 2) ? 7 : 100000;
            for (int i = 0; i < k; i++)
                q.parts.push_back({(unsigned)r.range(1, top), q.list[r.below(q.list.size())]});
        }
        std::vector<std::pair<unsigned, unsigned>> given = q.parts;
        umf_result_t x;
        bool from_ms = (mode == M_BIND || mode == M_INTERLEAVE || mode == M_PARTS ||
                        (mode == M_PREFERRED && list) || mode == M_SPLIT) &&
                       r.chance(1, 4);
        if (from_ms) {
            umf_memspace_handle_t ms = nullptr;
            x = umfMemspaceCreateFromNumaArray(q.list.data(), q.list.size(), &ms);
            umf_mempolicy_handle_t pol = nullptr;
            std::vector<umf_mempolicy_split_partition_t> sp;
            for (auto &g : given)
                sp.push_back({g.first, g.second});
            static const umf_mempolicy_membind_t pm[] = {
                UMF_MEMPOLICY_BIND,       UMF_MEMPOLICY_BIND,      UMF_MEMPOLICY_INTERLEAVE,
                UMF_MEMPOLICY_INTERLEAVE, UMF_MEMPOLICY_PREFERRED, UMF_MEMPOLICY_SPLIT};
            if (!x && !(mode == M_BIND && r.chance(1, 2)))
                x = umfMempolicyCreate(pm[mode], &pol);
            if (!x && mode == M_PARTS)
                x = umfMempolicySetInterleavePartSize(pol, raw);
            if (!x && mode == M_SPLIT && !sp.empty())
                x = umfMempolicySetCustomSplitPartitions(pol, sp.data(), sp.size());
            if (!x)
                x = umfMemoryProviderCreateFromMemspace(ms, pol, &q.h);
            if (pol)
                umfMempolicyDestroy(pol);
            if (ms)
                umfMemspaceDestroy(ms);
            probe("provider from a memspace");
        } else {
            static const umf_numa_mode_t um[] = {
                UMF_NUMA_MODE_DEFAULT,    UMF_NUMA_MODE_BIND,  UMF_NUMA_MODE_INTERLEAVE,
                UMF_NUMA_MODE_INTERLEAVE, UMF_NUMA_MODE_PREFERRED, UMF_NUMA_MODE_SPLIT,
                UMF_NUMA_MODE_LOCAL};
            umf_os_memory_provider_params_handle_t pr = nullptr;
            x = umfOsMemoryProviderParamsCreate(&pr);
            if (!x)
                x = umfOsMemoryProviderParamsSetNumaMode(pr, um[mode]);
            if (!x && list)
                x = umfOsMemoryProviderParamsSetNumaList(pr, q.list.data(),
                                                         (unsigned)q.list.size());
            if (!x && mode == M_PARTS)
                x = umfOsMemoryProviderParamsSetPartSize(pr, raw);
            std::vector<umf_numa_split_partition_t> sp;
            for (auto &g : given)
                sp.push_back({g.first, g.second});
            if (!x && !sp.empty())
                x = umfOsMemoryProviderParamsSetPartitions(pr, sp.data(), (unsigned)sp.size());
            if (!x)
                x = umfMemoryProviderCreate(umfOsMemoryProviderOps(), pr, &q.h);
            umfOsMemoryProviderParamsDestroy(pr);
        }
        if (x)
            violate("create-failed", "creating a provider without faults failed (%s)",
                    res_name(x));
        if (mode == M_SPLIT && q.parts.empty()) // evenly
            for (unsigned n : q.list)
                q.parts.push_back({1, n});
        q.used.assign(q.list.size(), 0);
    }
    void quiescent() {
        if (inflight)
            return;
        size_t want = base.maps1;
        for (auto &s : slots)
            if (s.p)
                want += (s.n + 4095) / 4096 * 4096;
        if (os::mapped_bytes(1) != want)
            violate("leak:mapping", "%zu bytes are mapped for allocations of %zu",
                    os::mapped_bytes(1), want);
        if (os::live_bitmaps() != bitmaps_now && bitmaps_now >= 0)
            violate("leak:bitmap", "%ld node sets in use, %ld before any allocation",
                    os::live_bitmaps(), bitmaps_now);
    }
    long bitmaps_now = -1;
    static std::string show(const std::set<unsigned> &s) {
        std::string o = "{";
        for (unsigned x : s)
            o += (o.size() > 1 ? "," : "") + std::to_string(x);
        return o + "}";
    }
    void check(Prov &q, void *p, size_t n, size_t first_bind, bool alone) {
        size_t pages = (n + 4095) / 4096;
        uintptr_t a = (uintptr_t)p;
        std::vector<std::set<unsigned>> got(pages);
        std::vector<int> pol(pages, -1);
        std::vector<unsigned> flg(pages, 0);
        auto &bs = os::binds();
        for (size_t i = first_bind; i < bs.size(); i++) {
            auto &b = bs[i];
            if (b.task != task_id())
                continue;
            if (b.addr < a || b.addr + b.len > a + pages * 4096)
                violate("bind-outside", "binding of %#lx+%zu, outside of the allocation "
                                        "%p+%zu", (unsigned long)b.addr, b.len, p, n);
            for (uintptr_t x = b.addr & ~4095ull; x < b.addr + b.len; x += 4096) {
                size_t k = (x - a) / 4096;
                got[k] = std::set<unsigned>(b.nodes.begin(), b.nodes.end());
                pol[k] = b.policy;
                flg[k] = b.flags;
            }
        }
        if (q.mode == M_DEFAULT) {
            for (size_t k = 0; k < pages; k++)
                if (pol[k] >= 0 && pol[k] != HWLOC_MEMBIND_DEFAULT)
                    violate("bound", "page %zu was bound in the default mode", k);
            return;
        }
        std::set<unsigned> all(q.list.begin(), q.list.end());
        for (size_t k = 0; k < pages; k++) {
            if (pol[k] < 0)
                violate("not-bound", "page %zu of %zu was not bound to any node", k, pages);
            if (got[k].empty())
                violate("not-bound", "page %zu of %zu was bound to no node", k, pages);
            if (!(flg[k] & HWLOC_MEMBIND_BYNODESET))
                violate("flags", "page %zu was not bound by node set", k);
            bool strict = q.mode == M_BIND || q.mode == M_SPLIT || q.mode == M_PARTS;
            if (strict && (!(flg[k] & HWLOC_MEMBIND_STRICT) || pol[k] != HWLOC_MEMBIND_BIND))
                violate("policy", "page %zu was not bound strictly (policy %d)", k, pol[k]);
            if (q.mode == M_PREFERRED && (flg[k] & HWLOC_MEMBIND_STRICT))
                violate("policy", "page %zu was bound strictly in the preferred mode", k);
            if (q.mode == M_INTERLEAVE && q.list.size() > 1 &&
                pol[k] != HWLOC_MEMBIND_INTERLEAVE)
                violate("policy", "page %zu is not interleaved (policy %d)", k, pol[k]);
            if (q.mode == M_BIND || q.mode == M_INTERLEAVE ||
                (q.mode == M_PREFERRED && !q.list.empty()))
                if (got[k] != all)
                    violate("nodes", "page %zu was bound to %s instead of %s", k,
                            show(got[k]).c_str(), show(all).c_str());
        }
        if (q.mode == M_PARTS)
            check_parts(q, got, n, alone);
        if (q.mode == M_SPLIT)
            check_split(q, got);
    }
    void check_parts(Prov &q, std::vector<std::set<unsigned>> &got, size_t n, bool alone) {
        size_t pp = q.part / 4096, parts = (got.size() + pp - 1) / pp;
        long start = -1;
        for (size_t i = 0; i < q.list.size(); i++)
            if (got[0].size() == 1 && q.list[i] == *got[0].begin())
                start = (long)i;
        if (start < 0)
            violate("nodes", "the first part was bound to %s", show(got[0]).c_str());
        for (size_t k = 0; k < got.size(); k++) {
            unsigned want = q.list[((size_t)start + k / pp) % q.list.size()];
            if (got[k].size() != 1 || *got[k].begin() != want)
                violate("interleave", "page %zu (part %zu of %zu) was bound to %s instead of "
                                      "node %u", k, k / pp, parts, show(got[k]).c_str(), want);
        }
        bool exact = (n + 4095) / 4096 % pp == 0;
        for (size_t i = 0; i < parts; i++)
            q.used[((size_t)start + i) % q.list.size()]++;
        if (!exact)
            q.odd = true;
        if (q.odd)
            return;
        if (alone && q.next >= 0 && q.next != start && !q.broken)
            violate("round-robin", "an allocation starts on node %u, after parts that "
                                   "ended before node %u", q.list[(size_t)start],
                    q.list[(size_t)q.next]);
        q.next = alone ? (long)(((size_t)start + parts) % q.list.size()) : -1;
    }
    void check_split(Prov &q, std::vector<std::set<unsigned>> &got) {
        if (q.list.size() == 1) {
            for (auto &g : got)
                if (g != std::set<unsigned>{q.list[0]})
                    violate("split", "a page is not on the only node");
            return;
        }
        // page k overlaps the share of partition i: [P*C_i/S, P*C_{i+1}/S)
        unsigned __int128 S = 0, P = got.size();
        for (auto &x : q.parts)
            S += x.first;
        std::vector<std::set<unsigned>> want(got.size());
        unsigned __int128 c = 0;
        for (auto &x : q.parts) {
            unsigned __int128 lo = P * c, hi = P * (c + x.first);
            for (size_t k = (size_t)(lo / S); k < got.size() && (unsigned __int128)k * S < hi; k++)
                want[k].insert(x.second);
            c += x.first;
        }
        for (size_t k = 0; k < got.size(); k++)
            if (got[k] != want[k])
                violate("split", "page %zu of %zu was bound to %s instead of %s", k, got.size(),
                        show(got[k]).c_str(), show(want[k]).c_str());
    }
    void exec(const Op &op) override {
        if (bitmaps_now < 0 && !inflight)
            bitmaps_now = os::live_bitmaps();
        Slot &s = slots[(uint64_t)op.a[0] % slots.size()];
        if (s.busy)
            return;
        s.busy = true;
        inflight++;
        if (op.code % NOPS == ALLOC && !s.p) {
            s.prov = (int)((uint64_t)op.a[1] % provs.size());
            Prov &q = provs[(size_t)s.prov];
            s.n = (size_t)op.a[2];
            if (s.n == 0 || s.n > (1ull << 26))
                s.n = 4096;
            if (whole && q.part)
                s.n = (s.n + q.part - 1) / q.part * q.part;
            size_t al = (size_t)op.a[3];
            if (al & (al - 1))
                al = 0;
            bool alone = q.inflight == 0;
            q.inflight++;
            int gen = ++started[s.prov];
            uint64_t f0 = faults_fired();
            size_t b0 = os::binds().size();
            void *p = nullptr;
            umf_result_t x = umfMemoryProviderAlloc(q.h, s.n, al, &p);
            q.inflight--;
            alone = alone && started[s.prov] == gen;
            if (x == UMF_RESULT_SUCCESS) {
                if (!p)
                    violate("null", "a successful allocation is null");
                if (al && (uintptr_t)p % al)
                    violate("align", "%p is not aligned to %zu", p, al);
                if (!os::range_mapped((uintptr_t)p, s.n, 1, true))
                    violate("not-mapped", "the allocation %p+%zu is not mapped", p, s.n);
                check(q, p, s.n, b0, alone);
                s.p = p;
                note(s.n);
            } else {
                if (faults_fired() == f0)
                    violate("alloc-failed", "an allocation failed (%s) without any fault",
                            res_name(x));
                if (p)
                    ; // the result is unspecified
                q.broken = true;
                q.odd = true;
                probe("allocation refused");
            }
        } else if (op.code % NOPS == FREE && s.p) {
            umf_result_t x = umfMemoryProviderFree(provs[(size_t)s.prov].h, s.p, s.n);
            if (x)
                violate("free-failed", "a free failed (%s)", res_name(x));
            s.p = nullptr;
        }
        s.busy = false;
        inflight--;
        quiescent();
    }
    std::map<int, int> started;
    void finish() override {
        for (auto &q : provs) {
            if (q.mode != M_PARTS || q.odd || q.used.empty())
                continue;
            uint64_t lo = *std::min_element(q.used.begin(), q.used.end());
            uint64_t hi = *std::max_element(q.used.begin(), q.used.end());
            if (hi - lo > 1)
                violate("round-robin", "after allocations of whole parts one node has %llu "
                                       "of them, another %llu", (unsigned long long)hi,
                        (unsigned long long)lo);
        }
        for (auto &s : slots)
            if (s.p) {
                umfMemoryProviderFree(provs[(size_t)s.prov].h, s.p, s.n);
                s.p = nullptr;
            }
        for (auto &q : provs)
            umfMemoryProviderDestroy(q.h);
        umfTearDown();
        check_no_leak(base, "the run");
    }
};
SIM_SCENARIO("C17.numa", Numa)
} // namespace
