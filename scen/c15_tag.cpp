// C15: pool tags are one atomic register per pool (linearizability check).
#include "common.h"
using namespace simx;
namespace {
enum { SET, SETNULL, GET, NOPS };
struct Ev {
    int pool;
    bool write, has_read;
    uintptr_t wr, rd;
    uint64_t s, e;
};
struct Tag : Scenario {
    Provider a;
    ThinPool pool[2];
    std::vector<Ev> hist;
    uint64_t next = 1;
    Baseline base;
    const char *op_name(uint32_t c) override {
        static const char *n[] = {"set", "set_noread", "get"};
        return n[c % NOPS];
    }
    const char *real_parts() override { return "memory_pool (tags), locks API"; }
    const char *stub_parts() override { return "provider, pool ops"; }
    void generate(Rng &r, Program &p, bool thorough) override {
        int nt = (int)r.range(2, 4), k = (int)r.range(3, thorough ? 9 : 7);
        int reads = (int)r.range(10, 60);
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < k; i++) {
                int c = (int)r.below(100) < reads ? GET
                        : r.chance(1, 5)         ? SETNULL
                                                 : SET;
                p.add((uint32_t)t, (uint32_t)c, r.chance(4, 5) ? 0 : 1);
            }
    }
    void setup(const Program &) override {
        lib_init();
        make_provider(&a);
        for (auto &q : pool)
            if (make_thin_pool(&q, a.h, 0))
                violate("create-failed", "umfPoolCreate");
        for (auto &q : pool) {
            void *t = (void *)1;
            if (umfPoolGetTag(q.h, &t) || t)
                violate("tag-initial", "a new pool has a tag");
        }
    }
    void exec(const Op &op) override {
        Ev v{};
        v.pool = (int)(op.a[0] & 1);
        umf_memory_pool_handle_t h = pool[v.pool].h;
        umf_result_t r;
        void *out = (void *)0xbad;
        v.s = now();
        switch (op.code % NOPS) {
        case SET:
            v.write = v.has_read = true;
            v.wr = ++next << 8 | (uintptr_t)task_id();
            r = umfPoolSetTag(h, (void *)v.wr, &out);
            break;
        case SETNULL:
            v.write = true;
            v.wr = ++next << 8 | (uintptr_t)task_id();
            r = umfPoolSetTag(h, (void *)v.wr, nullptr);
            break;
        default:
            v.has_read = true;
            r = umfPoolGetTag(h, &out);
        }
        v.e = now();
        v.rd = (uintptr_t)out;
        if (r)
            violate("tag-error", "tag operation failed (%s)", res_name(r));
        hist.push_back(v);
    }
    // Wing & Gong search with memoisation
    std::vector<Ev> h;
    std::set<std::pair<uint64_t, uintptr_t>> seen;
    bool lin(uint64_t done, uintptr_t val) {
        if (done == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1))
            return true;
        if (!seen.insert({done, val}).second)
            return false;
        uint64_t min_e = UINT64_MAX;
        for (size_t i = 0; i < h.size(); i++)
            if (!(done >> i & 1) && h[i].e < min_e)
                min_e = h[i].e;
        for (size_t i = 0; i < h.size(); i++) {
            if (done >> i & 1 || h[i].s > min_e)
                continue;
            if (h[i].has_read && h[i].rd != val)
                continue;
            if (lin(done | 1ull << i, h[i].write ? h[i].wr : val))
                return true;
        }
        return false;
    }
    void finish() override {
        for (int p = 0; p < 2; p++) {
            Ev v{};
            v.pool = p;
            v.has_read = true;
            v.s = now() + 1;
            void *out = (void *)0xbad;
            umfPoolGetTag(pool[p].h, &out);
            v.e = UINT64_MAX;
            v.rd = (uintptr_t)out;
            hist.push_back(v);
            h.clear();
            seen.clear();
            for (auto &e : hist)
                if (e.pool == p)
                    h.push_back(e);
            if (h.size() > 60)
                continue;
            if (!lin(0, 0))
                violate("tag-not-linearizable",
                        "no order of the %zu tag operations explains their "
                        "results", h.size());
            if (h.size() > 6)
                probe("history of more than 6 operations");
        }
        for (auto &q : pool)
            umfPoolDestroy(q.h);
        umfMemoryProviderDestroy(a.h);
        umfTearDown();
    }
};
SIM_SCENARIO("C15.tag", Tag)
} // namespace
