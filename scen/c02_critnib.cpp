// C02: the lock-free address index against interval oracles.
#include "common.h"
#include "critnib.h"
#include <cerrno>
using namespace simx;
namespace {
enum { INS, UPD, REM, GET, FLE, FIND, ITER, NOPS };
struct Span {
    uint64_t is, ie, rs, re;
    uintptr_t val;
};
constexpr uint64_t INF = UINT64_MAX;
struct Key {
    uintptr_t k;
    int owner;
    std::vector<Span> pres, vals;
    bool in = false; // owner's view
    uintptr_t val = 0;
};
struct Crit : Scenario {
    critnib *c = nullptr;
    std::vector<Key> keys;      // sorted by k
    std::map<uintptr_t, int> idx;
    std::vector<uintptr_t> live_shared;
    std::set<uintptr_t> shared_in; // values in the map under contended keys
    uint64_t nval = 0;
    int nt = 1;
    Baseline base;
    bool churn = false;

    const char *op_name(uint32_t c) override {
        static const char *n[] = {"insert", "update", "remove", "get",
                                  "find_le", "find", "iter"};
        return n[c % NOPS];
    }
    const char *real_parts() override { return "critnib, base_alloc_global"; }
    const char *stub_parts() override { return "locks, OS memory"; }
    void generate(Rng &r, Program &p, bool thorough) override {
        nt = r.chance(1, 6) ? 1 : (int)r.range(2, 4);
        p.cfg["shape"] = (int64_t)r.below(6);
        p.cfg["nkeys"] = r.range(3, 24);
        p.cfg["kseed"] = (int64_t)r.below(1 << 20);
        p.cfg["ncont"] = r.chance(1, 3) ? r.range(1, 3) : 0;
        int readers = nt > 1 ? (int)r.range(1, nt - 1) : 0; // read-only tasks
        int k = (int)r.range(10, thorough ? 90 : 50);
        // some keys are there from the start
        for (int i = 0; i < 12; i++)
            if (r.chance(1, 2))
                p.add(0, INS, (int64_t)r.below(64));
        for (int t = 1; t <= nt; t++) {
            bool ro = t <= readers;
            int n = ro ? std::max(3, k / 3) : k;
            for (int i = 0; i < n; i++) {
                int c;
                if (ro)
                    c = (int)r.pick(
                        std::vector<int>{GET, FLE, FIND, FIND, FIND});
                else if (nt == 1)
                    c = (int)r.below(NOPS);
                else
                    c = (int)r.pick(std::vector<int>{INS, INS, INS, REM, REM,
                                                     REM, UPD, FIND, ITER});
                p.add((uint32_t)t, (uint32_t)c, (int64_t)r.below(1000),
                      (int64_t)r.below(8), (int64_t)r.below(5));
            }
        }
        p.ntasks = (uint32_t)nt;
        pick_faults(r, p, {F_META, F_BAMMAP}, 30);
    }
    void setup(const Program &p) override {
        meta_oracle(true);
        lib_init();
        nt = (int)p.ntasks;
        Rng r((uint64_t)p.get("kseed"));
        std::set<uintptr_t> ks;
        int n = (int)std::max<int64_t>(1, p.get("nkeys", 8));
        int shape = (int)p.get("shape");
        for (int i = 0; i < 400 && (int)ks.size() < n; i++) {
            uintptr_t k = 0;
            switch (shape) {
            case 0: // dense small keys
                k = r.below(40);
                break;
            case 1: // pages of a few regions
                k = 0x7f0000000000ull + (r.below(3) << 21) + (r.below(16) << 12);
                break;
            case 2: // one differing nibble at random depth
                k = 0x1111111111111111ull ^ ((1 + r.below(15)) << (4 * r.below(16)));
                break;
            case 3: // deep chains
                k = 0;
                for (int d = 0; d < 5; d++)
                    k |= r.below(3) << (4 * d + 12);
                break;
            case 4: // extremes
                k = r.chance(1, 2) ? ~0ull - r.below(20) : r.below(20);
                break;
            default:
                k = r.next();
            }
            ks.insert(k);
        }
        int ncont = (int)p.get("ncont");
        for (auto k : ks) {
            Key e;
            e.k = k;
            e.owner = nt > 1 ? 1 + (int)r.below((uint64_t)nt) : 1;
            if (ncont > 0 && nt > 1 && r.chance(1, 3)) {
                e.owner = -1;
                ncont--;
            }
            idx[k] = (int)keys.size();
            keys.push_back(e);
        }
        c = critnib_new();
        if (!c)
            violate("create-failed", "critnib_new without faults");
    }
    uintptr_t fresh() { return (++nval << 8) | 0x40; }
    Key *pick_own(int t, int64_t a) {
        std::vector<Key *> v;
        for (auto &k : keys)
            if (t == 0 || k.owner == t || k.owner == -1)
                v.push_back(&k);
        if (v.empty())
            return nullptr;
        return v[(size_t)a % v.size()];
    }
    static bool throughout(const Key &k, uint64_t s, uint64_t e) {
        for (auto &x : k.pres)
            if (x.ie <= s && x.rs >= e)
                return true;
        return false;
    }
    bool had(const Key &k, uintptr_t v, uint64_t s, uint64_t e) {
        for (auto &x : k.vals)
            if (x.val == v && x.is <= e && x.re >= s)
                return true;
        return false;
    }
    void check(int dir, uintptr_t key, bool found, uintptr_t rk, bool have_k,
               uintptr_t rv, uint64_t s, uint64_t e, const char *what) {
        auto ok_dir = [&](uintptr_t k) {
            return dir == -2   ? k < key
                   : dir == -1 ? k <= key
                   : dir == 0  ? k == key
                   : dir == 1  ? k >= key
                               : k > key;
        };
        if (found) {
            if (!have_k) { // the value names the key
                bool any = false;
                for (auto &k : keys)
                    if (had(k, rv, s, e)) {
                        rk = k.k;
                        any = true;
                    }
                if (!any)
                    violate("invented-key",
                            "%s(%#lx) returned value %#lx, never stored during "
                            "the call", what, (unsigned long)key,
                            (unsigned long)rv);
            }
            auto it = idx.find(rk);
            if (it == idx.end() || !ok_dir(rk))
                violate("invented-key", "%s(%#lx, dir %d) returned key %#lx",
                        what, (unsigned long)key, dir, (unsigned long)rk);
            if (!had(keys[(size_t)it->second], rv, s, e))
                violate("wrong-value",
                        "%s(%#lx, dir %d) returned key %#lx with value %#lx, "
                        "never stored under it during the call", what,
                        (unsigned long)key, dir, (unsigned long)rk,
                        (unsigned long)rv);
        }
        for (auto &k : keys) {
            if (!ok_dir(k.k) || !throughout(k, s, e))
                continue;
            if (!found)
                violate("missed-key", "%s(%#lx, dir %d) found nothing although "
                                      "%#lx was there all the time", what,
                        (unsigned long)key, dir, (unsigned long)k.k);
            if ((dir < 0 && k.k > rk) || (dir > 0 && k.k < rk))
                violate("not-nearest", "%s(%#lx, dir %d) returned %#lx although "
                                       "the nearer %#lx was there all the time",
                        what, (unsigned long)key, dir, (unsigned long)rk,
                        (unsigned long)k.k);
        }
        if (churn)
            probe("lookup overlapped a write");
    }
    uint64_t writes = 0, inwrite = 0;
    void exec(const Op &op) override {
        int t = task_id();
        switch (op.code % NOPS) {
        case INS:
        case UPD: {
            Key *k = pick_own(t, op.a[0]);
            if (!k)
                return;
            int upd = op.code % NOPS == UPD;
            uintptr_t v = fresh();
            uint64_t s = now(), f0 = faults_fired();
            if (k->owner == -1) { // contended: plain insert only
                k->vals.push_back({s, INF, INF, INF, v});
                size_t i = k->vals.size() - 1;
                writes++, inwrite++;
                int r = critnib_insert(c, k->k, (void *)v, 0);
                inwrite--;
                if (r == 0) {
                    shared_in.insert(v);
                    k->vals[i].ie = now();
                } else {
                    k->vals[i].re = 0; // never stored
                    if (r != EEXIST && (r != ENOMEM || faults_fired() == f0))
                        violate("insert-error", "insert returned %d", r);
                }
                return;
            }
            size_t pi = k->pres.size(), vi = k->vals.size();
            bool was = k->in;
            uintptr_t old = k->val;
            if (!was)
                k->pres.push_back({s, INF, INF, INF, 0});
            if (!was || upd) {
                if (was)
                    k->vals.back().rs = s;
                k->vals.push_back({s, INF, INF, INF, v});
            }
            writes++, inwrite++;
            int r = critnib_insert(c, k->k, (void *)v, upd);
            inwrite--;
            uint64_t e = now();
            if (was && !upd) {
                if (r != EEXIST && (r != ENOMEM || faults_fired() == f0))
                    violate("insert-error",
                            "insert of a present key returned %d", r);
                return;
            }
            if (r == 0) {
                if (!was)
                    k->pres[pi].ie = e;
                else
                    k->vals[vi - 1].re = e;
                k->vals[vi].ie = e;
                k->in = true;
                k->val = v;
            } else {
                if (r != ENOMEM || faults_fired() == f0)
                    violate("insert-error", "insert returned %d", r);
                if (!was)
                    k->pres.pop_back();
                else
                    k->vals[vi - 1].rs = INF;
                k->vals[vi].re = 0; // never stored
                k->val = old;
                probe("failed insertion");
                uint64_t s2 = now();
                void *g = critnib_get(c, k->k);
                if ((uintptr_t)g != (was ? old : 0))
                    violate("failed-insert-changed-map",
                            "get after a failed insertion returned %p", g);
                (void)s2;
            }
            break;
        }
        case REM: {
            Key *k = pick_own(t, op.a[0]);
            if (!k)
                return;
            uint64_t s = now();
            if (k->owner == -1) {
                writes++, inwrite++;
                uintptr_t v = (uintptr_t)critnib_remove(c, k->k);
                inwrite--;
                if (v) {
                    bool ok = false;
                    for (auto &x : k->vals)
                        if (x.val == v && x.re == INF && x.rs == INF) {
                            x.rs = s;
                            x.re = now();
                            ok = true;
                        }
                    if (!ok)
                        violate("removed-twice", "remove returned value %#lx, "
                                                 "which was not in the map",
                                (unsigned long)v);
                    shared_in.erase(v);
                }
                return;
            }
            if (k->in) {
                k->pres.back().rs = s;
                k->vals.back().rs = s;
            }
            writes++, inwrite++;
            uintptr_t v = (uintptr_t)critnib_remove(c, k->k);
            inwrite--;
            uint64_t e = now();
            if (v != (k->in ? k->val : 0))
                violate("remove-wrong", "remove(%#lx) returned %#lx, expected "
                                        "%#lx", (unsigned long)k->k,
                        (unsigned long)v,
                        (unsigned long)(k->in ? k->val : 0));
            if (k->in) {
                k->pres.back().re = e;
                k->vals.back().re = e;
                k->in = false;
            }
            break;
        }
        case ITER: {
            uint64_t s = now();
            std::vector<std::pair<uintptr_t, uintptr_t>> got;
            uintptr_t lo = op.a[1] & 1 ? keys[(size_t)op.a[0] % keys.size()].k : 0;
            critnib_iter(
                c, lo, UINTPTR_MAX,
                [](uintptr_t k, void *v, void *d) {
                    ((std::vector<std::pair<uintptr_t, uintptr_t>> *)d)
                        ->push_back({k, (uintptr_t)v});
                    return 0;
                },
                &got);
            uint64_t e = now();
            std::set<uintptr_t> seen;
            for (size_t i = 0; i < got.size(); i++) {
                auto it = idx.find(got[i].first);
                if (it == idx.end() || got[i].first < lo ||
                    (i && got[i].first <= got[i - 1].first) ||
                    !had(keys[(size_t)it->second], got[i].second, s, e))
                    violate("iter-wrong", "iteration reported key %#lx",
                            (unsigned long)got[i].first);
                seen.insert(got[i].first);
            }
            for (auto &k : keys)
                if (k.k >= lo && throughout(k, s, e) && !seen.count(k.k))
                    violate("iter-missed", "iteration missed key %#lx",
                            (unsigned long)k.k);
            break;
        }
        default: {
            uintptr_t key = keys[(size_t)op.a[0] % keys.size()].k;
            int64_t d = op.a[1] % 8;
            key += d == 6 ? 1 : d == 7 ? -1ull : 0;
            uint64_t w0 = writes, s = now();
            bool in0 = inwrite;
            if (op.code % NOPS == GET) {
                uintptr_t v = (uintptr_t)critnib_get(c, key);
                churn = in0 || writes != w0;
                check(0, key, v != 0, key, true, v, s, now(), "get");
            } else if (op.code % NOPS == FLE) {
                uintptr_t v = (uintptr_t)critnib_find_le(c, key);
                churn = in0 || writes != w0;
                check(-1, key, v != 0, 0, false, v, s, now(), "find_le");
            } else {
                static const find_dir_t dirs[] = {FIND_L, FIND_LE, FIND_EQ,
                                                  FIND_GE, FIND_G};
                int di = (int)(op.a[2] % 5);
                uintptr_t rk = 0;
                void *rv = nullptr;
                int r = critnib_find(c, key, dirs[di], &rk, &rv);
                churn = in0 || writes != w0;
                check(di - 2, key, r != 0, rk, true, (uintptr_t)rv, s, now(),
                      "find");
            }
        }
        }
    }
    void finish() override {
        // quiescent: exact agreement with the model
        std::map<uintptr_t, uintptr_t> m;
        for (auto &k : keys) {
            if (k.owner == -1) {
                uintptr_t v = (uintptr_t)critnib_get(c, k.k);
                size_t n = 0;
                for (auto &x : k.vals)
                    if (x.re == INF) {
                        n++;
                        if (x.val != v)
                            violate("lost-insert", "key %#lx holds %#lx, last "
                                                   "stored %#lx",
                                    (unsigned long)k.k, (unsigned long)v,
                                    (unsigned long)x.val);
                    }
                if (n > 1 || (n == 0 && v))
                    violate("contended-key", "key %#lx: %zu values stored",
                            (unsigned long)k.k, n);
                if (v)
                    m[k.k] = v;
            } else if (k.in) {
                m[k.k] = k.val;
            }
        }
        for (auto &k : keys)
            for (long d : {-1L, 0L, 1L}) {
                uintptr_t key = k.k + (uintptr_t)d;
                auto ub = m.upper_bound(key), lb = m.lower_bound(key);
                auto chk = [&](find_dir_t dir, bool has, uintptr_t ek) {
                    uintptr_t rk = 0;
                    void *rv = nullptr;
                    int r = critnib_find(c, key, dir, &rk, &rv);
                    if ((r != 0) != has ||
                        (has && (rk != ek || (uintptr_t)rv != m[ek])))
                        violate("disagrees-with-map",
                                "find(%#lx, dir %d) = %d, key %#lx; expected "
                                "%d, key %#lx", (unsigned long)key, (int)dir, r,
                                (unsigned long)rk, has, (unsigned long)ek);
                };
                chk(FIND_LE, ub != m.begin(),
                    ub != m.begin() ? std::prev(ub)->first : 0);
                chk(FIND_L, lb != m.begin(),
                    lb != m.begin() ? std::prev(lb)->first : 0);
                chk(FIND_GE, lb != m.end(), lb != m.end() ? lb->first : 0);
                chk(FIND_G, ub != m.end(), ub != m.end() ? ub->first : 0);
                chk(FIND_EQ, m.count(key), key);
            }
        critnib_delete(c);
        umfTearDown();
    }
};
SIM_SCENARIO("C02.critnib", Crit)
} // namespace
