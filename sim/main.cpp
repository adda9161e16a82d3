// Driver: seeded search, gating, minimisation, replay, evidence.
#include "internal.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t);
void __real_exit(int) __attribute__((noreturn));
}
using namespace sim;

static double wall() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}
template <class T> static T *shared(size_t n = 1) {
    void *p = __real_mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE,
                          MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(3);
    }
    return (T *)p;
}

static void reset(Result *r) {
    size_t head = offsetof(Result, plog);
    memset((void *)r, 0, head);
    r->nplog = r->nflog = r->narmed = 0;
}
// Each worker stays on one of the CPUs it may use (a run hands over between
// its threads all the time); where it starts differs from check to check.
static void pin(int w) {
    cpu_set_t all, one;
    CPU_ZERO(&all);
    if (sched_getaffinity(0, sizeof all, &all) || CPU_COUNT(&all) < 1)
        return;
    int k = (int)(((unsigned)getppid() + (unsigned)w) % (unsigned)CPU_COUNT(&all));
    for (int i = 0; i < CPU_SETSIZE; i++)
        if (CPU_ISSET(i, &all) && k-- == 0) {
            CPU_ZERO(&one);
            CPU_SET(i, &one);
            sched_setaffinity(0, sizeof one, &one);
            return;
        }
}

static bool g_watch = true;  // stuck runs are ended
static bool g_quiet = false; // the library's own messages are dropped

// A run is stuck when it makes no simulated step while it burns CPU_STUCK
// seconds of CPU time (a loop that touches nothing the simulator sees) or
// sleeps for IDLE_STUCK seconds (blocked outside the simulator). A run that is
// merely slow, because the machine is busy, is given up after SLOW seconds and
// not counted.
static constexpr double CPU_STUCK = 10, IDLE_STUCK = 60, SLOW = 240;
static double cpu_of(clockid_t c) {
    struct timespec ts;
    if (clock_gettime(c, &ts))
        return 0;
    return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}

static void run_plan(const Plan &plan, Result *r) {
    reset(r);
    pid_t pid = fork();
    if (pid < 0) {
        r->status = RS_HARNESS;
        snprintf(r->msg, sizeof r->msg, "fork failed");
        return;
    }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (g_quiet) {
            int nul = open("/dev/null", O_WRONLY);
            if (nul >= 0)
                dup2(nul, 2);
        }
        child_main(plan, r);
    }
    int st;
    double t0 = wall(), t_live = t0, c_live = 0, next = t0 + 2;
    uint64_t live = 0;
    clockid_t clk;
    bool have_clk = !clock_getcpuclockid(pid, &clk);
    for (;;) {
        pid_t w = waitpid(pid, &st, g_watch ? WNOHANG : 0);
        if (w == 0) {
            double t = wall(), dt = t - t0;
            if (t > next) {
                next = t + 0.5;
                double c = have_clk ? cpu_of(clk) : 0;
                if (r->live != live) {
                    live = r->live;
                    t_live = t;
                    c_live = c;
                }
                double cpu = c - c_live, idle = t - t_live;
                bool stuck = cpu > CPU_STUCK || (idle > IDLE_STUCK && cpu < 1);
                if (stuck || dt > SLOW) {
                    kill(pid, SIGKILL);
                    waitpid(pid, &st, 0);
                    r->status = stuck ? RS_VIOLATION : RS_SKIP;
                    snprintf(r->cls, sizeof r->cls, "hang");
                    snprintf(r->msg, sizeof r->msg,
                             "the run stopped making progress (%s)",
                             cpu > CPU_STUCK ? "endless loop" : "blocked");
                    r->bt[0] = 0;
                    r->hash = 0;
                    return;
                }
            }
            usleep(dt < 0.005 ? 100 : dt < 0.1 ? 500 : 5000);
            continue;
        }
        if (w == pid)
            break;
        if (w < 0 && errno != EINTR)
            break;
    }
    if (r->status == RS_NONE) {
        r->status = RS_VIOLATION;
        if (WIFSIGNALED(st)) {
            snprintf(r->cls, sizeof r->cls, "killed:%d", WTERMSIG(st));
            snprintf(r->msg, sizeof r->msg, "run died of signal %d",
                     WTERMSIG(st));
        } else {
            snprintf(r->cls, sizeof r->cls, "died");
            snprintf(r->msg, sizeof r->msg, "run ended early with code %d",
                     WEXITSTATUS(st));
        }
    }
}

// ---------------------------------------------------------------- known list
struct Known {
    std::string prop, scenario, cls, match, text;
};
static std::vector<Known> known;
static void load_known(const char *path) {
    FILE *f = fopen(path, "r");
    if (!f)
        return;
    char line[4096];
    while (fgets(line, sizeof line, f)) {
        // known: property=C05 scenario=C05.x class=... match=<substring> | text
        if (strncmp(line, "known:", 6))
            continue;
        Known k;
        std::string s = line + 6;
        while (!s.empty() && (s.back() == '\n' || s.back() == ' '))
            s.pop_back();
        size_t bar = s.find(" | ");
        if (bar != std::string::npos) {
            k.text = s.substr(bar + 3);
            s.resize(bar);
        }
        auto get = [&](const char *key, bool rest) {
            std::string kk = std::string(key) + "=";
            size_t p = s.find(kk);
            if (p == std::string::npos)
                return std::string();
            p += kk.size();
            size_t e = rest ? std::string::npos : s.find(' ', p);
            return s.substr(p, e == std::string::npos ? e : e - p);
        };
        k.prop = get("property", false);
        k.scenario = get("scenario", false);
        k.cls = get("class", false);
        k.match = get("match", true);
        known.push_back(k);
    }
    fclose(f);
}
// every ' && '-separated part of the pattern must occur in "message @ trace"
static int known_index(const std::string &prop, const std::string &sc,
                       const Result *r) {
    std::string hay = std::string(r->msg) + " @ " + r->bt;
    for (size_t i = 0; i < known.size(); i++) {
        const Known &k = known[i];
        if (k.prop != prop || (!k.scenario.empty() && k.scenario != sc) ||
            k.cls != r->cls || k.match.empty())
            continue;
        bool all = true;
        size_t p = 0;
        while (p <= k.match.size()) {
            size_t e = k.match.find(" && ", p);
            std::string part = k.match.substr(
                p, e == std::string::npos ? e : e - p);
            if (hay.find(part) == std::string::npos)
                all = false;
            if (e == std::string::npos)
                break;
            p = e + 4;
        }
        if (all)
            return (int)i;
    }
    return -1;
}

// ---------------------------------------------------------------- replay file
static void write_replay(const std::string &path, const std::string &prop,
                         const Plan &p, const Result *r) {
    FILE *f = fopen(path.c_str(), "w");
    if (!f)
        return;
    fprintf(f, "umfsim-replay 1\nproperty %s\nscenario %s\nseed %llu\n",
            prop.c_str(), p.scenario.c_str(), (unsigned long long)p.seed);
    fprintf(f, "class %s\nhash %llu\n", r->cls, (unsigned long long)r->hash);
    fprintf(f, "# %s\n# at %s\n", r->msg, r->bt);
    fprintf(f, "ntasks %u\n", p.prog.ntasks);
    for (auto &c : p.prog.cfg)
        fprintf(f, "cfg %s %lld\n", c.first.c_str(), (long long)c.second);
    Scenario *sc = make_scenario(p.scenario);
    for (auto &o : p.prog.ops)
        fprintf(f, "op %u task %u code %u %lld %lld %lld %lld %lld %lld # %s\n",
                o.id, o.task, o.code, (long long)o.a[0], (long long)o.a[1],
                (long long)o.a[2], (long long)o.a[3], (long long)o.a[4],
                (long long)o.a[5], sc ? sc->op_name(o.code) : "");
    for (auto &x : p.preempts)
        fprintf(f, "preempt %u %u %llu %u\n", x.task, x.op,
                (unsigned long long)x.ev, x.to);
    for (auto &x : p.faults)
        fprintf(f, "fault %u %u %s %u\n", x.task, x.op, fault_name[x.kind],
                x.nth);
    fclose(f);
}
static bool read_replay(const char *path, Plan &p, std::string &prop,
                        std::string &cls, uint64_t &hash) {
    FILE *f = fopen(path, "r");
    if (!f)
        return false;
    char line[4096];
    p.explicit_mode = true;
    while (fgets(line, sizeof line, f)) {
        char a[256];
        unsigned long long u;
        long long v[6];
        Op o;
        Preempt x;
        FaultHit h;
        if (sscanf(line, "property %255s", a) == 1)
            prop = a;
        else if (sscanf(line, "scenario %255s", a) == 1)
            p.scenario = a;
        else if (sscanf(line, "seed %llu", &u) == 1)
            p.seed = u;
        else if (!strncmp(line, "class ", 6)) {
            cls = line + 6; // may contain spaces (assertions)
            while (!cls.empty() && (cls.back() == '\n' || cls.back() == '\r'))
                cls.pop_back();
        }
        else if (sscanf(line, "hash %llu", &u) == 1)
            hash = u;
        else if (sscanf(line, "ntasks %u", &o.id) == 1)
            p.prog.ntasks = o.id;
        else if (sscanf(line, "cfg %255s %lld", a, &v[0]) == 2)
            p.prog.cfg[a] = v[0];
        else if (sscanf(line, "op %u task %u code %u %lld %lld %lld %lld %lld %lld",
                        &o.id, &o.task, &o.code, &v[0], &v[1], &v[2], &v[3],
                        &v[4], &v[5]) == 9) {
            for (int i = 0; i < 6; i++)
                o.a[i] = v[i];
            p.prog.ops.push_back(o);
        } else if (sscanf(line, "preempt %u %u %llu %u", &x.task, &x.op, &u,
                          &x.to) == 4) {
            x.ev = u;
            p.preempts.push_back(x);
        } else if (sscanf(line, "fault %u %u %255s %u", &h.task, &h.op, a,
                          &h.nth) == 4) {
            for (uint32_t k = 0; k < F_N; k++)
                if (!strcmp(a, fault_name[k])) {
                    h.kind = k;
                    p.faults.push_back(h);
                }
        }
    }
    fclose(f);
    return true;
}

// ---------------------------------------------------------------- minimiser
static Plan to_explicit(const Plan &seed_plan, const Result *r) {
    Plan p = seed_plan;
    p.explicit_mode = true;
    Scenario *sc = make_scenario(p.scenario);
    Rng g(mix64(p.seed, 0x6e6));
    p.prog = Program();
    sc->generate(g, p.prog, p.thorough);
    p.preempts.assign(r->plog, r->plog + r->nplog);
    p.faults.assign(r->flog, r->flog + r->nflog);
    return p;
}
template <class T, class F>
static bool ddmin(std::vector<T> &v, F test, double deadline) {
    bool any = false;
    size_t n = 2;
    if (!v.empty()) { // try dropping everything first
        std::vector<T> e;
        if (test(e)) {
            v = e;
            return true;
        }
    }
    while (v.size() >= 1 && wall() < deadline) {
        size_t chunk = (v.size() + n - 1) / n;
        bool red = false;
        for (size_t i = 0; i < v.size() && wall() < deadline; i += chunk) {
            std::vector<T> c(v.begin(), v.begin() + (long)i);
            c.insert(c.end(), v.begin() + (long)std::min(v.size(), i + chunk),
                     v.end());
            if (test(c)) {
                v = c;
                any = red = true;
                n = std::max<size_t>(2, n - 1);
                break;
            }
        }
        if (!red) {
            if (chunk <= 1)
                break;
            n = std::min(v.size(), n * 2);
        }
    }
    return any;
}
static void minimise(Plan &p, const std::string &cls, Result *r, double secs) {
    double dl = wall() + secs;
    auto same = [&](const Plan &q) {
        run_plan(q, r);
        return r->status == RS_VIOLATION && cls == r->cls;
    };
    for (int round = 0; round < 4 && wall() < dl; round++) {
        bool ch = false;
        ch |= ddmin(
            p.preempts,
            [&](const std::vector<Preempt> &v) {
                Plan q = p;
                q.preempts = v;
                return same(q);
            },
            dl);
        ch |= ddmin(
            p.faults,
            [&](const std::vector<FaultHit> &v) {
                Plan q = p;
                q.faults = v;
                return same(q);
            },
            dl);
        ch |= ddmin(
            p.prog.ops,
            [&](const std::vector<Op> &v) {
                Plan q = p;
                q.prog.ops = v;
                return same(q);
            },
            dl);
        if (!ch)
            break;
    }
    // fewer tasks
    while (p.prog.ntasks > 0 && wall() < dl) {
        bool used = false;
        for (auto &o : p.prog.ops)
            used |= o.task == p.prog.ntasks;
        if (used)
            break;
        Plan q = p;
        q.prog.ntasks--;
        if (!same(q))
            break;
        p = q;
    }
    // arguments towards zero
    for (size_t i = 0; i < p.prog.ops.size() && wall() < dl; i++)
        for (int k = 0; k < 6 && wall() < dl; k++)
            for (int64_t cand : {(int64_t)0, (int64_t)1, p.prog.ops[i].a[k] / 2}) {
                if (p.prog.ops[i].a[k] == cand || p.prog.ops[i].a[k] <= cand)
                    continue;
                Plan q = p;
                q.prog.ops[i].a[k] = cand;
                if (same(q)) {
                    p = q;
                    break;
                }
            }
    run_plan(p, r);
}

// ---------------------------------------------------------------- search
struct Shared {
    std::atomic<uint64_t> next;
    std::atomic<int> stop;
    std::atomic<int> nviol;
    struct V {
        uint64_t idx, seed, hash;
        int sc;
        char cls[128], msg[512], bt[1024];
    } viol[64];
};
constexpr size_t MAXH = 1 << 20;
struct WStat {
    uint64_t runs, viol, steps, switches, conflicts, blocked, ops, faulty, conc;
    uint64_t nfault[F_N], ncall[F_N];
    uint64_t harness, twice, mismatch, slow, knownhits[64];
    uint64_t per_sc[64];
    char harness_msg[512];
    uint32_t nprobe;
    char probe[256][48];
    uint64_t probe_n[256];
    uint64_t nh, ncov;
    uint64_t h[MAXH], cov[MAXH];
};

static uint64_t prop_salt(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (char c : s)
        h = (h ^ (unsigned char)c) * 1099511628211ull;
    return h;
}
static uint64_t run_seed(uint64_t base, const std::string &prop, uint64_t idx) {
    return mix64(mix64(base, prop_salt(prop)), idx) & 0x7fffffffffffffffull;
}

static std::string json_str(const std::string &s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n') {
            o += "\\n";
        } else if ((unsigned char)c < 32) {
            o += ' ';
        } else {
            o += c;
        }
    }
    return o + "\"";
}

static std::string describe_run(const std::string &sc_name, uint64_t seed,
                                bool thorough, Result *r) {
    Plan p;
    p.scenario = sc_name;
    p.seed = seed;
    p.thorough = thorough;
    run_plan(p, r);
    Plan x = to_explicit(p, r);
    Scenario *sc = make_scenario(sc_name);
    char b[512];
    snprintf(b, sizeof b,
             "%s seed %llu: %u tasks, %zu ops, %llu steps, %llu switches, "
             "%u faults, hash %016llx; ops:",
             sc_name.c_str(), (unsigned long long)seed, x.prog.ntasks,
             x.prog.ops.size(), (unsigned long long)r->steps,
             (unsigned long long)r->switches, r->nflog,
             (unsigned long long)r->hash);
    std::string s = b;
    int n = 0;
    for (auto &o : x.prog.ops) {
        if (n++ >= 14) {
            s += " ...";
            break;
        }
        snprintf(b, sizeof b, " t%u:%s(%lld,%lld,%lld)", o.task,
                 sc->op_name(o.code), (long long)o.a[0], (long long)o.a[1],
                 (long long)o.a[2]);
        s += b;
    }
    if (r->nflog) {
        s += "; faults:";
        for (uint32_t i = 0; i < r->nflog && i < 6; i++) {
            snprintf(b, sizeof b, " t%u.op%u:%s#%u", r->flog[i].task,
                     r->flog[i].op, fault_name[r->flog[i].kind],
                     r->flog[i].nth);
            s += b;
        }
    }
    if (r->nplog) {
        s += "; first switches:";
        for (uint32_t i = 0; i < r->nplog && i < 6; i++) {
            snprintf(b, sizeof b, " t%u.op%u@%llu>t%u", r->plog[i].task,
                     r->plog[i].op, (unsigned long long)r->plog[i].ev,
                     r->plog[i].to);
            s += b;
        }
    }
    return s;
}

int main(int argc, char **argv) {
    std::map<std::string, std::string> o;
    std::string cmd = argc > 1 ? argv[1] : "";
    std::vector<std::string> pos;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        if (a.rfind("--", 0) == 0) {
            std::string v = "1";
            if (i + 1 < argc && strncmp(argv[i + 1], "--", 2))
                v = argv[++i];
            o[a.substr(2)] = v;
        } else {
            pos.push_back(a);
        }
    }
    setenv("HWLOC_HIDE_ERRORS", "2", 1);
    // the machine is simulated as well
    setenv("HWLOC_SYNTHETIC", "package:2 numa:1 core:2 pu:1", 0);
    os_boot();
    zygote_init();
    if (g_zygote)
        for (auto &f : *g_zygote)
            f();
    auto opt = [&](const char *k, const char *d) {
        return o.count(k) ? o[k] : std::string(d);
    };
    Result *r = shared<Result>();
    uint64_t base = strtoull(opt("seed", "1").c_str(), nullptr, 0);
    bool thorough = opt("tier", "quick") == "thorough";
    std::string prop = opt("property", "");

    if (cmd == "list") {
        for (auto &s : scenario_names(""))
            printf("%s\n", s.c_str());
        return 0;
    }
    if (cmd == "one") { // one scenario, one raw seed
        Plan p;
        p.scenario = opt("scenario", "");
        p.seed = base;
        p.thorough = thorough;
        g_trace = o.count("trace");
        g_watch = false;
        g_trace_op = (uint32_t)atoi(opt("trace-op", "0").c_str());
        if (o.count("explicit")) {
            g_trace = false;
            run_plan(p, r);
            p = to_explicit(p, r);
            g_trace = o.count("trace");
        }
        run_plan(p, r);
        printf("status %d cls %s msg %s\n bt %s\n hash %016llx steps %llu "
               "switches %llu conflicts %llu faults %u\n",
               r->status, r->cls, r->msg, r->bt, (unsigned long long)r->hash,
               (unsigned long long)r->steps, (unsigned long long)r->switches,
               (unsigned long long)r->conflicts, r->nflog);
        return r->status == RS_OK ? 0 : 1;
    }
    if (cmd == "replay") {
        Plan p;
        std::string cls;
        uint64_t hash = 0;
        if (pos.empty() || !read_replay(pos[0].c_str(), p, prop, cls, hash)) {
            fprintf(stderr, "cannot read replay file\n");
            return 2;
        }
        g_trace = o.count("trace");
        g_trace_op = (uint32_t)atoi(opt("trace-op", "0").c_str());
        run_plan(p, r);
        bool ok = r->status == RS_VIOLATION && cls == r->cls && hash == r->hash;
        printf("%s\n  class %s\n  %s\n  at %s\n",
               ok ? "REPRODUCED" : "NOT-REPRODUCED", r->cls, r->msg, r->bt);
        if (r->status == RS_VIOLATION)
            printf("VIOLATION property=%s replay=%s\n", prop.c_str(),
                   pos[0].c_str());
        return r->status == RS_VIOLATION ? (ok ? 1 : 3) : 0;
    }
    if (cmd != "check") {
        fprintf(stderr, "usage: umfsim check|replay|one|list\n");
        return 2;
    }

    double secs = atof(opt("time", thorough ? "600" : "20").c_str());
    uint64_t maxruns = strtoull(opt("runs", "100000000").c_str(), nullptr, 0);
    int nw = atoi(opt("workers", "8").c_str());
    std::string evdir = opt("out", "evidence");
    g_quiet = true;
    load_known(opt("known", "known_findings.txt").c_str());
    std::vector<std::string> scs =
        o.count("scenario") ? scenario_names(o["scenario"])
                            : scenario_names(prop + ".");
    if (scs.empty()) {
        fprintf(stderr, "no scenario for %s\n", prop.c_str());
        return 2;
    }
    double t0 = wall();
    Shared *S = shared<Shared>();
    std::vector<WStat *> W;
    std::vector<pid_t> pids;
    bool keep_going = o.count("keep-going");
    for (int w = 0; w < nw; w++) {
        WStat *st = shared<WStat>();
        W.push_back(st);
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            pin(w);
            Result *res = shared<Result>();
            while (!S->stop.load() && wall() - t0 < secs) {
                uint64_t idx = S->next.fetch_add(1);
                if (idx >= maxruns)
                    break;
                Plan p;
                p.seed = run_seed(base, prop, idx);
                int si = (int)(idx % scs.size());
                p.scenario = scs[(size_t)si];
                p.thorough = thorough;
                run_plan(p, res);
                st->runs++;
                st->per_sc[si]++;
                st->steps += res->steps;
                st->switches += res->switches;
                st->conflicts += res->conflicts;
                st->blocked += res->blocked;
                st->ops += res->ops_done;
                st->faulty += res->nflog + res->narmed > 0;
                st->conc += res->conflicts > 0;
                for (int k = 0; k < F_N; k++) {
                    st->nfault[k] += res->nfault[k];
                    st->ncall[k] += res->ncall[k];
                }
                for (uint32_t i = 0; i < res->nprobes; i++) {
                    uint32_t j = 0;
                    while (j < st->nprobe && strcmp(st->probe[j], res->probe[i]))
                        j++;
                    if (j == st->nprobe && j < 256) {
                        strcpy(st->probe[j], res->probe[i]);
                        st->nprobe++;
                    }
                    if (j < 256)
                        st->probe_n[j]++;
                }
                if (st->nh < MAXH &&
                    (res->switches > 2 || res->nflog || res->narmed || res->ops_done > 1))
                    st->h[st->nh++] = mix64(res->hash, (uint64_t)si);
                if (st->ncov < MAXH && res->cov)
                    st->cov[st->ncov++] = mix64(res->cov, (uint64_t)si);
                if (res->status == RS_SKIP) {
                    st->slow++;
                    continue;
                }
                if (res->status == RS_HARNESS) {
                    st->harness++;
                    snprintf(st->harness_msg, sizeof st->harness_msg,
                             "%s seed %llu: %.300s", p.scenario.c_str(),
                             (unsigned long long)p.seed, res->msg);
                    continue;
                }
                if (res->status == RS_VIOLATION) {
                    int k = known_index(prop, p.scenario, res);
                    if (k >= 0) {
                        if (k < 64)
                            st->knownhits[k]++;
                        continue;
                    }
                    st->viol++;
                    int n = S->nviol.fetch_add(1);
                    if (n < 64) {
                        auto &v = S->viol[n];
                        v.idx = idx;
                        v.seed = p.seed;
                        v.sc = si;
                        v.hash = res->hash;
                        snprintf(v.cls, sizeof v.cls, "%s", res->cls);
                        snprintf(v.msg, sizeof v.msg, "%.500s", res->msg);
                        snprintf(v.bt, sizeof v.bt, "%.1000s", res->bt);
                    }
                    if (!keep_going)
                        S->stop = 1;
                } else if (idx % 97 < (uint64_t)nw) {
                    uint64_t h = res->hash;
                    run_plan(p, res);
                    if (res->status == RS_SKIP)
                        continue;
                    st->twice++;
                    if (res->hash != h)
                        st->mismatch++;
                }
            }
            _exit(0);
        }
        pids.push_back(pid);
    }
    for (pid_t p : pids) {
        int st;
        waitpid(p, &st, 0);
    }
    double search_s = wall() - t0;

    // aggregate
    static WStat T;
    std::unordered_set<uint64_t> hs, cs;
    std::map<std::string, uint64_t> probes;
    for (auto *w : W) {
        T.runs += w->runs;
        T.viol += w->viol;
        T.steps += w->steps;
        T.switches += w->switches;
        T.conflicts += w->conflicts;
        T.blocked += w->blocked;
        T.ops += w->ops;
        T.faulty += w->faulty;
        T.conc += w->conc;
        T.harness += w->harness;
        T.slow += w->slow;
        T.twice += w->twice;
        T.mismatch += w->mismatch;
        if (w->harness)
            strcpy(T.harness_msg, w->harness_msg);
        for (int k = 0; k < F_N; k++) {
            T.nfault[k] += w->nfault[k];
            T.ncall[k] += w->ncall[k];
        }
        for (int k = 0; k < 64; k++) {
            T.knownhits[k] += w->knownhits[k];
            T.per_sc[k] += w->per_sc[k];
        }
        for (uint32_t i = 0; i < w->nprobe; i++)
            probes[w->probe[i]] += w->probe_n[i];
        hs.insert(w->h, w->h + w->nh);
        cs.insert(w->cov, w->cov + w->ncov);
    }

    // known findings that are listed are always reported; each is re-confirmed
    for (size_t k = 0; k < known.size(); k++)
        if (known[k].prop == prop && (k >= 64 || T.knownhits[k]))
            printf("KNOWN-FINDING: property=%s %s (seen in %llu runs)\n",
                   prop.c_str(), known[k].text.c_str(),
                   (unsigned long long)(k < 64 ? T.knownhits[k] : 0));
    for (size_t k = 0; k < known.size(); k++)
        if (known[k].prop == prop && k < 64 && !T.knownhits[k])
            printf("KNOWN-FINDING: property=%s %s (not reached in this run)\n",
                   prop.c_str(), known[k].text.c_str());

    int rc = 0;
    std::string viol_desc;
    int nv = std::min(64, S->nviol.load());
    if (nv && keep_going) {
        std::map<std::string, int> by;
        for (int i = 0; i < nv; i++) {
            auto &v = S->viol[i];
            std::string key = scs[(size_t)v.sc] + " " + v.cls + " | " +
                              std::string(v.bt).substr(0, 160);
            if (!by[key]++)
                printf("  [%s] seed %llu %s: %s\n      at %s\n",
                       scs[(size_t)v.sc].c_str(), (unsigned long long)v.seed,
                       v.cls, v.msg, v.bt);
        }
        for (auto &b : by)
            printf("  %4d x %s\n", b.second, b.first.c_str());
    }
    if (nv) {
        std::sort(S->viol, S->viol + nv,
                  [](const Shared::V &a, const Shared::V &b) {
                      return a.idx < b.idx;
                  });
        bool reported = false;
        std::string why;
        for (int i = 0; i < nv && !reported && i < 5; i++) {
            auto &v = S->viol[i];
            Plan p;
            p.seed = v.seed;
            p.scenario = scs[(size_t)v.sc];
            p.thorough = thorough;
            // gate: the same seed must give the same history again, twice
            // (a run that is stuck: it gets stuck again; not minimised, every
            // attempt takes too long)
            bool hang = !strcmp(v.cls, "hang");
            run_plan(p, r);
            bool ok = r->status == RS_VIOLATION && r->hash == v.hash &&
                      !strcmp(r->cls, v.cls);
            if (ok) {
                run_plan(p, r);
                ok = r->status == RS_VIOLATION && r->hash == v.hash;
            }
            if (!ok) {
                why = "seed " + std::to_string(v.seed) + " in " + p.scenario +
                      " did not reproduce (" + v.cls + ": " + v.msg + ")";
                continue;
            }
            std::string cls = v.cls;
            Plan x = to_explicit(p, r);
            run_plan(x, r);
            bool expl = r->status == RS_VIOLATION && cls == r->cls;
            if (!expl) {
                why = "explicit schedule of seed " + std::to_string(v.seed) +
                      " diverged: " + r->cls;
                continue;
            }
            size_t ops0 = x.prog.ops.size(), pre0 = x.preempts.size(),
                   f0 = x.faults.size();
            if (!hang)
                minimise(x, cls, r, keep_going ? 10 : 45);
            if (r->status != RS_VIOLATION || cls != r->cls) {
                why = "minimised run diverged";
                continue;
            }
            // a minimised plan may turn into a listed finding
            if (known_index(prop, p.scenario, r) >= 0) {
                x = to_explicit(p, (run_plan(p, r), r));
                run_plan(x, r);
            }
            std::string path = evdir + "/" + prop + "-" +
                               std::to_string(v.seed) + ".replay";
            write_replay(path, prop, x, r);
            std::string msg = r->msg, bt = r->bt;
            // fresh process
            std::string exe = "/proc/self/exe";
            char self_path[4096];
            ssize_t n = readlink(exe.c_str(), self_path, sizeof self_path - 1);
            self_path[n > 0 ? n : 0] = 0;
            pid_t c = fork();
            if (c == 0) {
                int dn = open("/dev/null", O_WRONLY);
                dup2(dn, 1);
                execl("/proc/self/exe", self_path, "replay", path.c_str(),
                      (char *)nullptr);
                _exit(99);
            }
            int st;
            waitpid(c, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) {
                why = "fresh-process replay of " + path + " gave code " +
                      std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -1);
                continue;
            }
            reported = true;
            char b[256];
            snprintf(b, sizeof b,
                     "minimised from %zu ops/%zu switches/%zu faults to "
                     "%zu/%zu/%zu",
                     ops0, pre0, f0, x.prog.ops.size(), x.preempts.size(),
                     x.faults.size());
            viol_desc = std::string(cls) + ": " + msg + " @ " + bt + " (" + b +
                        ")";
            printf("violation of %s in %s, seed %llu\n  %s: %s\n  at %s\n  %s\n",
                   prop.c_str(), p.scenario.c_str(), (unsigned long long)v.seed,
                   cls.c_str(), msg.c_str(), bt.c_str(), b);
            printf("VIOLATION property=%s replay=%s\n", prop.c_str(),
                   path.c_str());
            rc = 1;
        }
        if (!reported) {
            printf("ERROR: violations seen but none reproduced exactly: %s\n",
                   why.c_str());
            rc = 2;
        }
    }
    if (!rc && T.harness) {
        printf("ERROR: harness error in %llu runs: %s\n",
               (unsigned long long)T.harness, T.harness_msg);
        rc = 2;
    }
    if (T.mismatch)
        printf("WARNING: %llu of %llu repeated seeds diverged\n",
               (unsigned long long)T.mismatch, (unsigned long long)T.twice);
    // evidence
    std::string js = "{\n";
    auto add = [&](const std::string &k, const std::string &v) {
        js += (js.size() > 2 ? ",\n" : "") + std::string("  ") + json_str(k) +
              ": " + v;
    };
    std::string cov = "{";
    auto cadd = [&](const std::string &k, const std::string &v) {
        cov += (cov.size() > 1 ? ",\n    " : "\n    ") + json_str(k) + ": " + v;
    };
    auto U = [](uint64_t x) { return std::to_string(x); };
    cadd("evaluations", U(T.runs));
    cadd("distinct_nontrivial", U(hs.size()));
    cadd("rule",
         json_str("one evaluation = one simulated run of one seed: the seed "
                  "generates the program (tasks, operations, sizes, limits), "
                  "the schedule (random / PCT / stalled-task / sequential with "
                  "conflict- and sync-biased preemption at instrumented memory "
                  "accesses), the address layout and the fault sequence. A run "
                  "is counted as distinct and non-trivial when it executed at "
                  "least two operations, more than two task switches or a "
                  "fault, and its event hash (every switch point, fault, "
                  "mapped address, descriptor and observed result) differs "
                  "from that of all other runs"));
    std::string smp = "[";
    if (!rc || nv)
        for (size_t i = 0; i < scs.size() && i < 4; i++)
            smp += (i ? ",\n      " : "\n      ") +
                   json_str(describe_run(scs[i], run_seed(base, prop, i),
                                         thorough, r));
    smp += "]";
    cadd("samples", smp);
    cadd("seeds_run", U(T.runs));
    cadd("base_seed", U(base));
    cadd("runs_per_hour", U((uint64_t)((double)T.runs / search_s * 3600)));
    cadd("simulated_steps", U(T.steps));
    cadd("simulated_time_note",
         json_str("the library has no clock; simulated time is counted in "
                  "scheduler steps (instrumented memory accesses, lock "
                  "operations and simulated system calls)"));
    cadd("operations", U(T.ops));
    cadd("task_switches", U(T.switches));
    cadd("blocked_waits", U(T.blocked));
    cadd("memory_conflicts_seen", U(T.conflicts));
    cadd("runs_with_conflicts", U(T.conc));
    cadd("runs_with_faults", U(T.faulty));
    cadd("distinct_conflict_orders", U(cs.size()));
    cadd("distinct_conflict_orders_measure",
         json_str("distinct hashes of the sequence of (task, operation, "
                  "read/write) over all conflicting accesses to a shared word"));
    std::string fj = "{";
    for (int k = 0; k < F_N; k++)
        if (T.ncall[k])
            fj += (fj.size() > 1 ? ", " : "") + json_str(fault_name[k]) +
                  ": {\"fired\": " + U(T.nfault[k]) +
                  ", \"eligible_calls\": " + U(T.ncall[k]) + "}";
    cadd("faults", fj + "}");
    std::string pj = "{";
    for (auto &p : probes)
        pj += (pj.size() > 1 ? ", " : "") + json_str(p.first) + ": " +
              U(p.second);
    cadd("probes", pj + "}");
    std::string sj = "{", rj = "[", tj = "[";
    std::set<std::string> rs, ts;
    for (size_t i = 0; i < scs.size(); i++) {
        sj += (i ? ", " : "") + json_str(scs[i]) + ": " + U(T.per_sc[i]);
        Scenario *sc = make_scenario(scs[i]);
        rs.insert(sc->real_parts());
        ts.insert(sc->stub_parts());
    }
    for (auto &x : rs)
        rj += (rj.size() > 1 ? ", " : "") + json_str(x);
    for (auto &x : ts)
        tj += (tj.size() > 1 ? ", " : "") + json_str(x);
    cadd("runs_per_scenario", sj + "}");
    cadd("real_components", rj + "]");
    cadd("stub_components", tj + "]");
    cadd("determinism",
         "{\"seeds_run_twice\": " + U(T.twice) + ", \"hash_mismatches\": " +
             U(T.mismatch) + "}");
    if (T.harness)
        cadd("harness_errors", U(T.harness));
    if (T.slow)
        cadd("runs_given_up_as_too_slow", U(T.slow));
    if (!viol_desc.empty())
        cadd("violation", json_str(viol_desc));
    cov += "\n  }";
    add("property", json_str(prop));
    add("tier", json_str(thorough ? "thorough" : "quick"));
    add("seed", U(base));
    add("level", json_str("exploration"));
    add("coverage", cov);
    add("assumptions",
        "[" +
            json_str("sequentially consistent memory: weak-memory reorderings "
                     "are not simulated") +
            ", " +
            json_str("preemption happens only at instrumented accesses of "
                     "library code, lock operations and simulated system "
                     "calls; libc, hwloc and (for the scalable pool) "
                     "libtbbmalloc run uninstrumented") +
            "]");
    char wbuf[64];
    snprintf(wbuf, sizeof wbuf, "%.2f", wall() - t0);
    if (rc == 0 && !T.ops) {
        printf("ERROR: no operation was executed\n");
        rc = 2;
    }
    add("wall_s", wbuf);
    add("violations", U(rc == 1));
    js += "\n}\n";
    std::string ep = evdir + "/" + prop + ".json";
    FILE *f = fopen(ep.c_str(), "w");
    if (f) {
        fputs(js.c_str(), f);
        fclose(f);
    }
    printf("%s %s: %llu runs in %.1f s, %zu distinct, %llu with faults, "
           "%llu with conflicts\n",
           prop.c_str(), rc == 0 ? "held" : rc == 1 ? "VIOLATED" : "error",
           (unsigned long long)T.runs, search_s, hs.size(),
           (unsigned long long)T.faulty, (unsigned long long)T.conc);
    fflush(stdout);
    _exit(rc);
}
