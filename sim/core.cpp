// Scheduler, instrumentation entry points (__tsan_*), simulated locks.
#include "internal.h"
#include <setjmp.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" {
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
long __real_syscall(long n, ...);
int __real_open(const char *, int, ...);
int __real_close(int);
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_fstat(int, struct stat *);
void __real_abort(void) __attribute__((noreturn));
}

namespace sim {

bool g_trace = false;
uint32_t g_trace_op = 0;
int g_meta_oracle = 0;
FILE *g_err = stderr; // stays the real one
const char *fault_name[F_N] = {
    "mmap",       "mmap_file",  "munmap",     "madvise",    "ftruncate",
    "fallocate",  "open",       "close",      "stat",       "pidfd",
    "lock_init",  "metadata", "metadata_mmap",   "membind",    "topology",   "prov_alloc",
    "prov_free",  "prov_split", "prov_merge", "prov_init",  "prov_query",
    "ipc_get",    "ipc_put",    "ipc_open",   "ipc_close",  "driver",
    "dlopen",     "crash",      "write",       "read"};

uint64_t mix64(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

Op &Program::add(uint32_t task, uint32_t code, int64_t a0, int64_t a1,
                 int64_t a2, int64_t a3, int64_t a4, int64_t a5) {
    Op o;
    o.id = (uint32_t)ops.size() + 1;
    o.task = task;
    o.code = code;
    o.a[0] = a0;
    o.a[1] = a1;
    o.a[2] = a2;
    o.a[3] = a3;
    o.a[4] = a4;
    o.a[5] = a5;
    if (task > ntasks)
        ntasks = task;
    ops.push_back(o);
    return ops.back();
}

enum TState { T_RUN, T_BLOCKED, T_PRED, T_DONE };
struct Task {
    int id = 0;
    TState st = T_RUN;
    const void *wait = nullptr;
    std::function<bool()> pred;
    std::atomic<int> go{0};
    pthread_t th;
    uint32_t op = OP_SETUP;
    uint64_t ev = 0;
    uint64_t stop_ev = UINT64_MAX; // explicit mode
    uint32_t fault_n[F_N] = {};
    uint64_t arm_mask = 0;
    uint32_t arm_skip = 0, arm_burst = 0, arm_hits = 0;
    int nopre = 0, unchk = 0, inba = 0, nofault = 0;
    int64_t prio = 0;
    int proc = 0;
    uint64_t crash_ev = 0; // the process dies at this event of the task
    jmp_buf *crash_to = nullptr;
    uint32_t crash_depth = 0;
    int crash_nofault = 0;
    uint32_t depth = 0;
    uintptr_t stack[256];
    std::vector<std::pair<uint64_t, uint32_t>> stops; // explicit, current op
    size_t stop_i = 0;
};

static __thread Task *cur __attribute__((tls_model("initial-exec"))) = nullptr;
Task *self() { return cur; }

enum Strat { S_SEQ, S_RANDOM, S_PCT, S_STALL };
struct CTab {
    uintptr_t a;
    int16_t task;
    int16_t w;
};
static struct {
    bool in_child = false;
    Result *res = nullptr;
    Plan const *plan = nullptr;
    Task tasks[MAX_TASKS];
    int ntasks = 0; // including main
    int64_t countdown = INT64_MAX;
    uint64_t steps = 0, step_limit = 0;
    bool fair = false;
    bool explicit_mode = false, live_run = false;
    Rng srng{1}, frng{1}, arng{1};
    int strat = S_SEQ;
    int64_t mean = 100;
    unsigned p_sync = 0, p_conf = 0, hot = 0; // per 1024
    int64_t pct_low = 0;
    int pct_left = 0;
    int64_t pct_span = 1000;
    int stall_task = -1;
    uint64_t stall_at = 0;
    bool stalled = false;
    bool faults_on = false;
    unsigned f_rate[F_N] = {};  // per 1024
    int64_t f_shot[F_N] = {};   // fail the n-th eligible call (1-based)
    int64_t f_burst[F_N] = {};  // and this many following ones
    int64_t f_left = 0;         // total budget
    std::map<uint64_t, int> xfaults;
    std::multimap<uint64_t, std::pair<uint64_t, uint32_t>> xstops;
    uint64_t serial = 0;
    CTab ctab[4096];
    Scenario *sc = nullptr;
} G;

static uint64_t key2(uint32_t task, uint32_t op) {
    return ((uint64_t)task << 32) | op;
}
static uint64_t keyf(uint32_t task, uint32_t op, uint32_t kind, uint32_t nth) {
    return mix64(mix64(task, op), mix64(kind, nth));
}

// ---------------------------------------------------------------- reporting
static std::map<std::string, std::vector<std::pair<uintptr_t, std::string>>>
    symtabs;
static void load_syms(const char *file) {
    auto &v = symtabs[file];
    int fd = __real_open(file, O_RDONLY);
    if (fd < 0)
        return;
    struct stat st;
    if (__real_fstat(fd, &st) || st.st_size < 64) {
        __real_close(fd);
        return;
    }
    char *m = (char *)__real_mmap(nullptr, (size_t)st.st_size, PROT_READ,
                                  MAP_PRIVATE, fd, 0);
    __real_close(fd);
    if (m == MAP_FAILED)
        return;
    Elf64_Ehdr *eh = (Elf64_Ehdr *)m;
    if (eh->e_type == ET_EXEC)
        v.push_back({0, ""}); // marker: absolute addresses
    Elf64_Shdr *sh = (Elf64_Shdr *)(m + eh->e_shoff);
    for (int i = 0; i < eh->e_shnum; i++) {
        if (sh[i].sh_type != SHT_SYMTAB)
            continue;
        Elf64_Sym *sy = (Elf64_Sym *)(m + sh[i].sh_offset);
        size_t n = sh[i].sh_size / sizeof(Elf64_Sym);
        const char *str = m + sh[sh[i].sh_link].sh_offset;
        for (size_t k = 0; k < n; k++)
            if (ELF64_ST_TYPE(sy[k].st_info) == STT_FUNC && sy[k].st_value)
                v.push_back({sy[k].st_value, str + sy[k].st_name});
    }
    std::sort(v.begin(), v.end());
}
std::string symbolize(uintptr_t pc) {
    Dl_info di;
    if (!dladdr((void *)pc, &di) || !di.dli_fname)
        return "?";
    std::string f = di.dli_fname;
    const char *file = strchr(di.dli_fname, '/') ? di.dli_fname
                                                 : "/proc/self/exe";
    if (!symtabs.count(file))
        load_syms(file);
    auto &v = symtabs[file];
    bool abs = !v.empty() && v[0].second.empty();
    uintptr_t off = abs ? pc : pc - (uintptr_t)di.dli_fbase;
    auto it = std::upper_bound(
        v.begin(), v.end(),
        std::make_pair(off, std::string("\xff\xff\xff\xff")));
    if (it == v.begin())
        return "?";
    --it;
    return it->second;
}

std::string backtrace_str(int max) {
    std::string s;
    Task *t = cur;
    if (!t)
        return s;
    int n = 0;
    for (int i = (int)std::min<uint32_t>(t->depth, 256) - 1;
         i >= 0 && n < max; i--, n++) {
        if (!s.empty())
            s += " < ";
        s += symbolize(t->stack[i]);
    }
    return s;
}

int backtrace_raw(uintptr_t *pc, int max) {
    Task *t = cur;
    int n = 0;
    if (t)
        for (int i = (int)std::min<uint32_t>(t->depth, 256) - 1;
             i >= 0 && n < max; i--)
            pc[n++] = t->stack[i];
    return n;
}

// ---------------------------------------------------------------- registry
static std::vector<ScenarioDef> &defs() {
    static std::vector<ScenarioDef> v;
    return v;
}
void register_scenario(const char *name, Scenario *(*make)()) {
    defs().push_back({name, make});
}
Scenario *make_scenario(const std::string &name) {
    for (auto &d : defs())
        if (name == d.name)
            return d.make();
    return nullptr;
}
std::vector<std::string> scenario_names(const std::string &prefix) {
    std::vector<std::string> v;
    for (auto &d : defs())
        if (!strncmp(d.name, prefix.c_str(), prefix.size()))
            v.push_back(d.name);
    std::sort(v.begin(), v.end());
    return v;
}
std::vector<std::function<void()>> *g_zygote = nullptr;
void at_zygote(std::function<void()> f) {
    if (!g_zygote)
        g_zygote = new std::vector<std::function<void()>>;
    g_zygote->push_back(std::move(f));
}

static void finalize_counts() {
    G.res->steps = G.steps;
}

static std::atomic<int> reporting{0};
static void report_and_exit(int status, const char *cls, const char *msg) {
    if (reporting.exchange(1)) {
        for (;;)
            pause();
    }
    Result *r = G.res;
    if (!r) {
        fprintf(g_err, "umfsim: %s: %s\n", cls, msg);
        _exit(70);
    }
    snprintf(r->cls, sizeof r->cls, "%s", cls);
    snprintf(r->msg, sizeof r->msg, "%s", msg);
    snprintf(r->bt, sizeof r->bt, "%s", backtrace_str().c_str());
    r->task = cur ? (uint32_t)cur->id : 99;
    r->op = cur ? cur->op : 0;
    for (const char *c = cls; *c; c++)
        r->hash = mix64(r->hash, (unsigned char)*c);
    finalize_counts();
    r->status = status;
    if (g_trace)
        fprintf(g_err, "  => %s: %s\n     at %s\n", cls, msg, r->bt);
    _exit(0);
}
void violate(const char *cls, const char *fmt, ...) {
    char buf[2000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    report_and_exit(RS_VIOLATION, cls, buf);
    for (;;)
        pause();
}
void harness_error(const char *fmt, ...) {
    char buf[2000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    report_and_exit(RS_HARNESS, "harness", buf);
    for (;;)
        pause();
}
void probe(const char *name) {
    Result *r = G.res;
    if (!r)
        return;
    for (uint32_t i = 0; i < r->nprobes; i++)
        if (!strncmp(r->probe[i], name, 47))
            return;
    if (r->nprobes < MAX_PROBES)
        snprintf(r->probe[r->nprobes++], 48, "%s", name);
}
void note(uint64_t v) {
    if (G.res)
        G.res->hash = mix64(G.res->hash, v);
}
void trace(const char *fmt, ...) {
    if (!g_trace)
        return;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    fprintf(g_err, "[%8lu t%d op%d.%lu] %s\n", (unsigned long)G.steps,
            cur ? cur->id : -1, cur ? (int)cur->op : -1,
            cur ? (unsigned long)cur->ev : 0, buf);
}

// ---------------------------------------------------------------- switching
static void futex_wait(std::atomic<int> *a, int v) {
    __real_syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}
static void futex_wake(std::atomic<int> *a) {
    __real_syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static void park(Task *t) {
    while (!t->go.load(std::memory_order_acquire))
        futex_wait(&t->go, 0);
    t->go.store(0, std::memory_order_relaxed);
}
static void switch_to(Task *n) {
    Task *me = cur;
    if (n == me)
        return;
    n->go.store(1, std::memory_order_release);
    futex_wake(&n->go);
    if (me->st != T_DONE)
        park(me);
}

static bool runnable(Task &t) {
    if (t.st == T_RUN)
        return true;
    if (t.st == T_PRED && t.pred && t.pred()) {
        return true;
    }
    return false;
}

static void draw_countdown() {
    if (G.explicit_mode) {
        G.countdown = INT64_MAX;
        return;
    }
    if (G.fair) {
        G.countdown = 2000;
        return;
    }
    switch (G.strat) {
    case S_RANDOM:
    case S_STALL: {
        // geometric-ish around the mean, with occasional very short steps
        uint64_t m = (uint64_t)G.mean;
        if (G.srng.chance(1, 8))
            m = 1 + m / 16;
        G.countdown = 1 + (int64_t)G.srng.below(2 * m);
        break;
    }
    case S_PCT:
        G.countdown = G.pct_left > 0
                          ? 1 + (int64_t)G.srng.below((uint64_t)G.pct_span)
                          : INT64_MAX;
        break;
    default:
        G.countdown = INT64_MAX;
    }
}

static Task *choose(bool forced) {
    Task *me = cur;
    Task *c[MAX_TASKS];
    int n = 0;
    for (int i = 0; i < G.ntasks; i++) {
        Task &t = G.tasks[i];
        if (&t == me && forced)
            continue;
        if (runnable(t))
            c[n++] = &t;
    }
    if (!n)
        return nullptr;
    if (G.explicit_mode)
        return c[0];
    if (G.fair) {
        for (int i = 0; i < n; i++)
            if (c[i]->id > me->id)
                return c[i];
        return c[0];
    }
    if (G.strat == S_PCT) {
        Task *b = c[0];
        for (int i = 1; i < n; i++)
            if (c[i]->prio > b->prio)
                b = c[i];
        return b;
    }
    if (G.strat == S_STALL && G.stalled && n > 1) {
        int k = 0;
        for (int i = 0; i < n; i++)
            if (c[i]->id != G.stall_task)
                c[k++] = c[i];
        if (k)
            n = k;
    }
    if (!forced && n > 1) { // prefer somebody else
        int k = 0;
        for (int i = 0; i < n; i++)
            if (c[i] != me)
                c[k++] = c[i];
        if (k)
            n = k;
    }
    return c[G.srng.below((uint64_t)n)];
}

static void record_switch(Task *me, Task *n) {
    Result *r = G.res;
    r->switches++;
    r->hash = mix64(r->hash, mix64(mix64((uint64_t)me->id, me->op),
                                   mix64(me->ev, (uint64_t)n->id)));
    if (r->nplog < MAX_PLOG) {
        r->plog[r->nplog++] =
            Preempt{(uint32_t)me->id, me->op, (uint32_t)n->id, me->ev};
    }
    if (g_trace)
        trace("switch -> t%d  (at %s)", n->id, backtrace_str(3).c_str());
}

static void set_next_stop(Task *t) {
    while (t->stop_i < t->stops.size() && t->stops[t->stop_i].first < t->ev)
        t->stop_i++;
    t->stop_ev = t->stop_i < t->stops.size() ? t->stops[t->stop_i].first
                                             : UINT64_MAX;
}

static Task *explicit_target(Task *me) {
    for (size_t i = me->stop_i; i < me->stops.size(); i++)
        if (me->stops[i].first == me->ev) {
            uint32_t to = me->stops[i].second;
            if (to < (uint32_t)G.ntasks && runnable(G.tasks[to]))
                return &G.tasks[to];
        }
    return nullptr;
}

static void do_preempt() {
    Task *me = cur;
    if (G.res->switches > 30000 && !G.fair) {
        G.countdown = INT64_MAX;
        return;
    }
    Task *n;
    if (G.explicit_mode) {
        n = explicit_target(me);
        set_next_stop(me);
        if (me->stop_ev == me->ev) {
            me->stop_i++;
            set_next_stop(me);
        }
    } else {
        if (G.strat == S_PCT && !G.fair && G.pct_left > 0) {
            G.pct_left--;
            me->prio = --G.pct_low;
        }
        n = choose(false);
        draw_countdown();
    }
    if (!n || n == me)
        return;
    record_switch(me, n);
    switch_to(n);
}

static void overrun() {
    if (!G.fair) {
        G.fair = true;
        G.step_limit = G.steps + 4000000;
        if (!G.explicit_mode)
            draw_countdown();
        else
            G.countdown = 2000;
        G.explicit_mode = false;
        return;
    }
    violate("no-progress",
            "no completion within %lu further steps of a fair schedule",
            4000000ul);
}

static bool block_common() { // current task no longer runnable
    Task *me = cur;
    me->ev++;
    G.res->live = ++G.steps;
    Task *n = nullptr;
    if (G.explicit_mode) {
        n = explicit_target(me);
        if (n == me)
            n = nullptr;
        while (me->stop_i < me->stops.size() &&
               me->stops[me->stop_i].first <= me->ev)
            me->stop_i++;
        set_next_stop(me);
    }
    if (!n)
        n = choose(true);
    if (!n) {
        if (me->st == T_PRED && me->pred())
            return true;
        std::string s;
        for (int i = 0; i < G.ntasks; i++) {
            char b[96];
            snprintf(b, sizeof b, " t%d:%s", i,
                     G.tasks[i].st == T_BLOCKED  ? "blocked"
                     : G.tasks[i].st == T_PRED ? "waiting"
                     : G.tasks[i].st == T_DONE ? "done"
                                               : "run");
            s += b;
        }
        violate("deadlock", "no task can run:%s", s.c_str());
    }
    record_switch(me, n);
    draw_countdown();
    switch_to(n);
    return true;
}

static void block_on(const void *what) {
    Task *me = cur;
    G.res->blocked++;
    if (me->nopre)
        harness_error("blocking inside a no-preempt region: %s",
                      backtrace_str().c_str());
    me->st = T_BLOCKED;
    me->wait = what;
    block_common();
    me->st = T_RUN;
}
static void wake(const void *what) {
    for (int i = 0; i < G.ntasks; i++)
        if (G.tasks[i].st == T_BLOCKED && G.tasks[i].wait == what) {
            G.tasks[i].st = T_RUN;
            G.tasks[i].wait = nullptr;
        }
}
void yield_until(const std::function<bool()> &pred) {
    Task *me = cur;
    while (!pred()) {
        me->st = T_PRED;
        me->pred = pred;
        block_common();
        me->st = T_RUN;
        me->pred = nullptr;
    }
}

// Only the arena and the program images can be shared between tasks in a way
// the system under test sees; everything else has addresses that vary.
static std::vector<std::pair<uintptr_t, uintptr_t>> images;
extern "C" char __executable_start, _end;
void register_image(uintptr_t lo, uintptr_t hi) { images.push_back({lo, hi}); }
static inline uintptr_t conflict_key(uintptr_t a) {
    if (in_arena(a))
        return a;
    if (a >= (uintptr_t)&__executable_start && a < (uintptr_t)&_end)
        return a - (uintptr_t)&__executable_start + 8;
    for (size_t i = 0; i < images.size(); i++)
        if (a >= images[i].first && a < images[i].second)
            return a - images[i].first + ((i + 1) << 34);
    return 0;
}

// The simulated process dies here: its code never runs on.
[[noreturn]] static void crash_now(Task *t) {
    t->crash_ev = 0;
    t->depth = t->crash_depth;
    t->nofault = t->crash_nofault;
    G.res->nfault[F_CRASH]++;
    trace("CRASH");
    _longjmp(*t->crash_to, 1);
}
void crash_arm(uint32_t nth, jmp_buf *to) {
    cur->crash_ev = nth ? cur->ev + nth : 0;
    cur->crash_to = to;
    cur->crash_depth = cur->depth;
    cur->crash_nofault = cur->nofault;
}

// 0x80 | k: only the first k bytes of the granule may be accessed
static __attribute__((noinline)) bool shadow_bad(uintptr_t a, size_t n) {
    uint8_t f = *shadow_of(a), l = *shadow_of(a + n - 1);
    if (!(l & 0x80))
        return true;
    return ((a + n - 1) & 7) >= (l & 7) || (f && (a & ~7ull) != ((a + n - 1) & ~7ull));
}

// kind: 0 plain read, 1 plain write, 2 atomic, 3 lock / syscall / explicit
static inline __attribute__((always_inline)) void
access(uintptr_t a, size_t n, int kind, bool w) {
    Task *t = cur;
    if (__builtin_expect(!t, 0))
        return;
    if (!(++G.steps & 1023))
        G.res->live = G.steps;
    t->ev++;
    if (__builtin_expect(g_trace_op && g_trace_op == t->op, 0)) {
        uint64_t v = 0;
        if (kind < 3)
            memcpy(&v, (void *)a, n > 8 ? 8 : n);
        trace("%s %#lx/%zu = %#lx  %s", w ? "write" : "read ", (unsigned long)a, n,
              (unsigned long)v, backtrace_str(2).c_str());
    }
    if (kind < 3 && g_meta_oracle && !t->inba && !t->unchk && in_arena(a)) {
        uint8_t sh = *shadow_of(a) | *shadow_of(a + n - 1);
        if (__builtin_expect(sh != 0, 0) && shadow_bad(a, n))
            violate("use-after-free",
                    "%s of %zu bytes at %#lx: %s", w ? "write" : "read", n,
                    (unsigned long)a,
                    sh == 1   ? "internal metadata already freed"
                    : sh == 2 ? "memory already returned to the provider"
                    : sh & 0x80 ? "beyond the end of a metadata block"
                              : "memory the library does not own");
    }
    if (__builtin_expect(G.steps > G.step_limit, 0))
        overrun();
    if (__builtin_expect(t->crash_ev && t->ev >= t->crash_ev, 0) && kind < 2 &&
        !t->inba && !t->nopre && !t->unchk)
        crash_now(t);
    if (t->nopre || G.ntasks == 1)
        return;
    if (t->ev == t->stop_ev) {
        do_preempt();
        return;
    }
    if (--G.countdown <= 0) {
        do_preempt();
        return;
    }
    if (kind < 3 && (a = conflict_key(a)) != 0) {
        uintptr_t g = a >> 3;
        CTab &e = G.ctab[(g ^ (g >> 12)) & 4095];
        if (e.a == g && e.task != t->id && (w || e.w)) {
            G.res->conflicts++;
            G.res->cov = mix64(G.res->cov, mix64((uint64_t)t->id * 2 + w, t->op));
            e.task = (int16_t)t->id;
            e.w = w;
            if (G.p_conf && G.srng.below(1024) < G.p_conf &&
                !G.explicit_mode) {
                do_preempt();
                return;
            }
        } else if (e.a == g) {
            e.w |= w;
        } else {
            e.a = g;
            e.task = (int16_t)t->id;
            e.w = w;
        }
    }
    if (kind >= 2 && G.p_sync && !G.explicit_mode &&
        G.srng.below(1024) < std::max(G.p_sync, G.hot)) {
        G.hot = 0;
        do_preempt();
        return;
    }
    if (G.strat == S_STALL && !G.stalled && t->id == G.stall_task &&
        !G.explicit_mode && G.stall_at && --G.stall_at == 0) {
        G.stalled = true;
        do_preempt();
    }
}
void event() { access(0, 1, 3, false); }
void point() { access(0, 1, 3, false); }
// a place where being interrupted is worth while: same event as point()
void hot_point() {
    G.hot = G.p_sync ? 256 : 0;
    access(0, 1, 3, false);
    G.hot = 0;
}
uint64_t now() { return G.steps; }
int task_id() { return cur ? cur->id : 0; }
int current_op() { return cur ? (int)cur->op : 0; }
uint64_t addr_rand() { return G.arng.next(); }
uint64_t fresh_serial() { return ++G.serial; }
NoPreempt::NoPreempt() {
    if (cur)
        cur->nopre++;
}
NoPreempt::~NoPreempt() {
    if (cur)
        cur->nopre--;
}
Unchecked::Unchecked() {
    if (cur) {
        cur->nopre++;
        cur->unchk++;
        cur->nofault++;
    }
}
Unchecked::~Unchecked() {
    if (cur) {
        cur->nopre--;
        cur->unchk--;
        cur->nofault--;
    }
}
NoFault::NoFault() {
    if (cur)
        cur->nofault++;
}
NoFault::~NoFault() {
    if (cur)
        cur->nofault--;
}
InBA::InBA() {
    if (cur)
        cur->inba++;
}
InBA::~InBA() {
    if (cur)
        cur->inba--;
}
int in_ba() { return cur ? cur->inba : 0; }
bool unchecked() { return !cur || cur->unchk; }
void meta_oracle(bool on) { g_meta_oracle = on; }
namespace os {
void set_proc(int p) {
    if (cur)
        cur->proc = p;
}
int proc() { return cur ? cur->proc : 0; }
} // namespace os

// ---------------------------------------------------------------- faults
void faults_enable(bool on) { G.faults_on = on; }
bool faults_enabled() { return G.faults_on; }
uint64_t faults_fired() {
    uint64_t n = 0;
    for (int i = 0; i < F_N; i++)
        n += G.res->nfault[i];
    return n;
}
void fault_arm(uint64_t mask, uint32_t nth, uint32_t burst) {
    cur->arm_mask = nth ? mask : 0;
    if (!nth)
        return;
    cur->arm_skip = nth - 1;
    cur->arm_burst = burst;
    cur->arm_hits = 0;
}
uint32_t fault_arm_hits() { return cur->arm_hits; }
uint64_t faults_fired_kind(Fault k) { return G.res->nfault[k]; }
bool fault(Fault k) {
    Task *t = cur;
    if (!t || !G.faults_on || t->nofault)
        return false;
    uint32_t nth = ++t->fault_n[k];
    G.res->ncall[k]++;
    bool hit = false;
    if (t->arm_mask >> k & 1) {
        // part of the program, the same in every replay of it
        if (t->arm_skip > 0)
            t->arm_skip--;
        else {
            if (t->arm_burst-- == 0)
                t->arm_mask = 0;
            t->arm_hits++;
            G.res->narmed++;
            G.res->nfault[k]++;
            G.res->hash = mix64(G.res->hash, 0xfb0000 + k);
            if (g_trace)
                trace("FAULT (armed) %s  (at %s)", fault_name[k],
                      backtrace_str(4).c_str());
            return true;
        }
    }
    if (G.plan->explicit_mode) {
        hit = G.xfaults.count(keyf((uint32_t)t->id, t->op, k, nth)) != 0;
    } else if (G.f_left > 0) {
        int64_t n = (int64_t)G.res->ncall[k];
        if (G.f_shot[k] && n >= G.f_shot[k] && n <= G.f_shot[k] + G.f_burst[k])
            hit = true;
        else if (G.f_rate[k] && G.frng.below(1024) < G.f_rate[k])
            hit = true;
    }
    if (hit) {
        G.f_left--;
        G.res->nfault[k]++;
        G.res->hash = mix64(G.res->hash, 0xfa0000 + k);
        if (G.res->nflog < MAX_FLOG)
            G.res->flog[G.res->nflog++] =
                FaultHit{(uint32_t)t->id, t->op, (uint32_t)k, nth};
        if (g_trace)
            trace("FAULT %s  (at %s)", fault_name[k],
                  backtrace_str(4).c_str());
    }
    return hit;
}

// ---------------------------------------------------------------- run
static void begin_op(Task *t, uint32_t op) {
    t->op = op;
    t->ev = 0;
    memset(t->fault_n, 0, sizeof t->fault_n);
    t->stops.clear();
    t->stop_i = 0;
    t->stop_ev = UINT64_MAX;
    if (G.explicit_mode) {
        auto r = G.xstops.equal_range(key2((uint32_t)t->id, op));
        for (auto it = r.first; it != r.second; ++it)
            t->stops.push_back(it->second);
        std::sort(t->stops.begin(), t->stops.end());
        if (!t->stops.empty())
            t->stop_ev = t->stops[0].first;
    }
}

static void crash_handler(int sig, siginfo_t *si, void *) {
    signal(sig, SIG_DFL);
    const char *n = sig == SIGSEGV  ? "SIGSEGV"
                    : sig == SIGBUS ? "SIGBUS"
                    : sig == SIGFPE ? "SIGFPE"
                    : sig == SIGILL ? "SIGILL"
                                    : "SIGABRT";
    char b[200];
    uintptr_t a = (uintptr_t)si->si_addr;
    if (in_arena(a) || a < 1 << 20)
        snprintf(b, sizeof b, "%s at address %#lx%s", n, (unsigned long)a,
                 in_arena(a) ? " (not mapped)" : "");
    else // differs from one execution to the next
        snprintf(b, sizeof b, "%s outside of simulated memory", n);
    char c[64];
    snprintf(c, sizeof c, "crash:%s", n);
    // the thread's own data can be overwritten, too
    report_and_exit(cur || G.live_run ? RS_VIOLATION : RS_HARNESS, c, b);
}
static void thread_altstack() {
    stack_t ss;
    ss.ss_sp = malloc(256 * 1024);
    ss.ss_size = 256 * 1024;
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
}

struct ThreadArg {
    Task *t;
    const Program *p;
};
static void *task_main(void *arg) {
    ThreadArg *ta = (ThreadArg *)arg;
    Task *t = ta->t;
    thread_altstack();
    cur = t;
    park(t);
    for (auto &op : ta->p->ops) {
        if ((int)op.task != t->id)
            continue;
        begin_op(t, op.id);
        event();
        if (g_trace)
            trace("begin %s(%ld,%ld,%ld,%ld,%ld,%ld)",
                  G.sc->op_name(op.code), (long)op.a[0], (long)op.a[1],
                  (long)op.a[2], (long)op.a[3], (long)op.a[4], (long)op.a[5]);
        G.sc->exec(op);
        G.res->ops_done++;
        if (t->nopre || t->unchk || t->inba || t->nofault)
            harness_error("unbalanced region after %s",
                          G.sc->op_name(op.code));
    }
    begin_op(t, OP_END);
    t->st = T_DONE;
    wake(t);
    // main may be waiting for all
    Task *n = nullptr;
    if (G.explicit_mode)
        n = explicit_target(t);
    if (n == t)
        n = nullptr;
    if (!n)
        n = choose(true);
    if (!n)
        violate("deadlock", "no task can run after t%d ended", t->id);
    record_switch(t, n);
    draw_countdown();
    n->go.store(1, std::memory_order_release);
    futex_wake(&n->go);
    // never exit: thread-exit destructors would run outside the schedule
    for (;;)
        pause();
    return nullptr;
}

static void pick_strategy(uint64_t seed, const Program &p) {
    G.srng = Rng(mix64(seed, 0x5c4ed));
    G.frng = Rng(mix64(seed, 0xfa017));
    G.arng = Rng(mix64(seed, 0xadd4));
    uint64_t x = G.srng.below(100);
    static const int64_t means[] = {4, 12, 40, 120, 400, 1500, 5000};
    G.mean = means[G.srng.below(7)];
    int64_t forced = p.get("strategy", -1);
    if (p.ntasks < 2)
        G.strat = S_SEQ;
    else if (forced >= 0)
        G.strat = (int)forced;
    else if (x < 45)
        G.strat = S_RANDOM;
    else if (x < 75)
        G.strat = S_PCT;
    else if (x < 95)
        G.strat = S_STALL;
    else
        G.strat = S_SEQ;
    static const unsigned ps[] = {0, 0, 32, 128, 400};
    if (G.strat == S_RANDOM || G.strat == S_STALL) {
        G.p_sync = ps[G.srng.below(5)];
        G.p_conf = ps[G.srng.below(5)];
        if (G.p_conf || G.p_sync)
            G.mean = means[2 + G.srng.below(5)];
    }
    if (G.strat == S_PCT) {
        for (int i = 0; i < MAX_TASKS; i++)
            G.tasks[i].prio = 1000 + (int64_t)G.srng.below(1000000);
        G.tasks[0].prio = 0;
        G.pct_low = 0;
        G.pct_left = (int)G.srng.range(1, 6);
        static const int64_t spans[] = {60, 300, 1200, 5000, 20000};
        G.pct_span = spans[G.srng.below(5)];
    }
    if (G.strat == S_STALL) {
        G.stall_task = (int)G.srng.range(1, p.ntasks);
        static const uint64_t sp[] = {100, 600, 3000, 12000};
        G.stall_at = 1 + G.srng.below(sp[G.srng.below(4)]);
    }
}
static void pick_faults(const Program &p) {
    G.f_left = p.get("fmax", 0);
    for (int k = 0; k < F_N; k++) {
        std::string n = fault_name[k];
        G.f_rate[k] = (unsigned)p.get(("frate." + n).c_str());
        G.f_shot[k] = p.get(("fshot." + n).c_str());
        G.f_burst[k] = p.get(("fburst." + n).c_str());
    }
}

void child_main(const Plan &plan, Result *res) {
    G.in_child = true;
    G.res = res;
    G.plan = &plan;
    Rng grng(mix64(plan.seed, 0x6e6));
    static Program prog;
    Scenario *sc = make_scenario(plan.scenario);
    if (!sc)
        harness_error("unknown scenario %s", plan.scenario.c_str());
    G.sc = sc;
    if (plan.explicit_mode)
        prog = plan.prog;
    else
        sc->generate(grng, prog, plan.thorough);
    if (prog.ntasks + 1 > MAX_TASKS)
        harness_error("too many tasks");
    G.step_limit = (uint64_t)prog.get("steps", 3000000);

    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = crash_handler;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
    for (int s : sigs)
        sigaction(s, &sa, nullptr);
    thread_altstack();

    if (plan.explicit_mode) {
        G.explicit_mode = true;
        for (auto &f : plan.faults)
            G.xfaults[keyf(f.task, f.op, f.kind, f.nth)] = 1;
        for (auto &x : plan.preempts)
            G.xstops.insert({key2(x.task, x.op), {x.ev, x.to}});
        G.arng = Rng(mix64(plan.seed, 0xadd4));
    } else {
        pick_strategy(plan.seed, prog);
    }
    pick_faults(prog);
    os_child_init(plan.seed, prog);

    G.ntasks = 1;
    Task *t0 = &G.tasks[0];
    t0->id = 0;
    cur = t0;
    G.live_run = true;
    begin_op(t0, OP_SETUP);
    sc->setup(prog);
    for (auto &op : prog.ops)
        if (op.task == 0) {
            begin_op(t0, op.id);
            if (g_trace)
                trace("begin %s(%ld,%ld,%ld,%ld,%ld,%ld)", sc->op_name(op.code),
                      (long)op.a[0], (long)op.a[1], (long)op.a[2],
                      (long)op.a[3], (long)op.a[4], (long)op.a[5]);
            sc->exec(op);
            res->ops_done++;
        }
    if (prog.ntasks) {
        begin_op(t0, 0xfffffff0u);
        static ThreadArg args[MAX_TASKS];
        for (uint32_t i = 1; i <= prog.ntasks; i++) {
            Task *t = &G.tasks[i];
            t->id = (int)i;
            t->st = T_RUN;
            args[i] = {t, &prog};
            pthread_attr_t at;
            pthread_attr_init(&at);
            pthread_attr_setstacksize(&at, 512 * 1024);
            if (pthread_create(&t->th, &at, task_main, &args[i]))
                harness_error("pthread_create failed");
        }
        G.ntasks = (int)prog.ntasks + 1;
        draw_countdown();
        faults_enable(true);
        for (uint32_t i = 1; i <= prog.ntasks; i++)
            while (G.tasks[i].st != T_DONE)
                block_on(&G.tasks[i]);
        G.ntasks = 1;
    }
    faults_enable(false);
    begin_op(t0, OP_FINISH);
    sc->finish();
    finalize_counts();
    note(G.steps);
    res->status = RS_OK;
    _exit(0);
}

// ---------------------------------------------------------------- locks
// The simulated lock state lives inside the pthread object.
struct SMutex {
    uint32_t magic; // 0: statically initialised; LIVE; DEAD
    int32_t owner;  // task id + 1, 0 = free
    uint32_t count;
};
struct SRw {
    uint32_t magic;
    int32_t writer;
    int32_t readers;
};
constexpr uint32_t M_LIVE = 0x51a3c0de, M_DEAD = 0x51a3dead;
static_assert(sizeof(SMutex) <= sizeof(pthread_mutex_t), "");
static_assert(sizeof(SRw) <= sizeof(pthread_rwlock_t), "");
static int me_owner() { return cur ? cur->id + 1 : 1000; }

static void lock_check(const void *m, uint32_t magic, const char *what) {
    if (magic != 0 && magic != M_LIVE && cur)
        violate(magic == M_DEAD ? "lock-after-destroy" : "lock-garbage",
                "%s on a lock that is %s (%p)", what,
                magic == M_DEAD ? "destroyed" : "not initialised", m);
}
} // namespace sim

using namespace sim;
extern "C" {

int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) {
    event();
    if (fault(F_MUTEXINIT))
        return EAGAIN;
    memset((void *)m, 0, sizeof *m);
    ((SMutex *)m)->magic = M_LIVE;
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
    SMutex *s = (SMutex *)m;
    event();
    lock_check(m, s->magic, "destroy");
    if (s->owner) {
        if (cur)
            violate("destroy-locked", "lock %p destroyed while held",
                    (void *)m);
        return EBUSY;
    }
    s->magic = M_DEAD;
    return 0;
}
static int mlock(pthread_mutex_t *m, bool try_only) {
    SMutex *s = (SMutex *)m;
    event();
    lock_check(m, s->magic, "lock");
    while (s->owner) {
        if (try_only)
            return EBUSY;
        if (s->owner == me_owner())
            violate("self-deadlock", "lock %p acquired twice by one thread",
                    (void *)m);
        if (!cur)
            abort();
        block_on(m);
        lock_check(m, s->magic, "lock");
    }
    s->owner = me_owner();
    return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return mlock(m, false); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return mlock(m, true); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    SMutex *s = (SMutex *)m;
    lock_check(m, s->magic, "unlock");
    if (s->owner != me_owner() && cur)
        violate("bad-unlock", "lock %p released by a thread not holding it",
                (void *)m);
    s->owner = 0;
    if (cur)
        wake(m);
    event();
    return 0;
}
int __wrap_pthread_rwlock_init(pthread_rwlock_t *m,
                               const pthread_rwlockattr_t *) {
    event();
    if (fault(F_MUTEXINIT))
        return EAGAIN;
    memset((void *)m, 0, sizeof *m);
    ((SRw *)m)->magic = M_LIVE;
    return 0;
}
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *m) {
    SRw *s = (SRw *)m;
    event();
    lock_check(m, s->magic, "destroy");
    if (s->writer || s->readers) {
        if (cur)
            violate("destroy-locked", "rwlock %p destroyed while held",
                    (void *)m);
        return EBUSY;
    }
    s->magic = M_DEAD;
    return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    SRw *s = (SRw *)m;
    event();
    lock_check(m, s->magic, "rdlock");
    while (s->writer) {
        if (s->writer == me_owner())
            violate("self-deadlock", "rwlock %p", (void *)m);
        block_on(m);
        lock_check(m, s->magic, "rdlock");
    }
    s->readers++;
    return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    SRw *s = (SRw *)m;
    event();
    lock_check(m, s->magic, "wrlock");
    while (s->writer || s->readers) {
        if (s->writer == me_owner())
            violate("self-deadlock", "rwlock %p", (void *)m);
        block_on(m);
        lock_check(m, s->magic, "wrlock");
    }
    s->writer = me_owner();
    return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) {
    SRw *s = (SRw *)m;
    lock_check(m, s->magic, "unlock");
    if (s->writer) {
        if (s->writer != me_owner() && cur)
            violate("bad-unlock", "rwlock %p", (void *)m);
        s->writer = 0;
    } else if (s->readers > 0) {
        s->readers--;
    } else if (cur) {
        violate("bad-unlock", "rwlock %p not held", (void *)m);
    }
    if (cur)
        wake(m);
    event();
    return 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
    int *s = (int *)o;
    event();
    while (*s == 1) {
        if (!cur)
            abort();
        block_on(o);
    }
    if (*s == 2)
        return 0;
    *s = 1;
    f();
    *s = 2;
    if (cur)
        wake(o);
    event();
    return 0;
}
int __wrap_sched_yield(void) {
    if (cur && !cur->nopre && G.ntasks > 1) {
        G.countdown = 0;
        if (!G.explicit_mode)
            event();
        else
            access(0, 1, 3, false);
    }
    return 0;
}
void __wrap___assert_fail(const char *e, const char *file, unsigned line,
                          const char *func) {
    const char *b = strrchr(file, '/');
    char c[120];
    snprintf(c, sizeof c, "assert:%s", func);
    if (!cur) {
        fprintf(g_err, "assert outside simulation: %s:%u %s\n", file, line, e);
        _exit(71);
    }
    violate(c, "assertion '%s' failed in %s (%s:%u)", e, func,
            b ? b + 1 : file, line);
}
void __wrap_abort(void) {
    if (cur)
        violate("abort", "abort() called");
    __real_abort();
}
void __wrap_exit(int c) {
    if (cur)
        violate("exit", "exit(%d) called", c);
    _exit(c);
}

// ------------------------------------------------------------ instrumentation
#define RA ((uintptr_t)__builtin_return_address(0))
void __tsan_init(void) {}
void __tsan_func_entry(void *) {
    Task *t = cur;
    if (t) {
        if (t->depth < 256)
            t->stack[t->depth] = RA;
        t->depth++;
        if (t->depth > 4000)
            violate("stack-overflow", "unbounded recursion");
    }
}
void __tsan_func_exit(void) {
    Task *t = cur;
    if (t && t->depth)
        t->depth--;
}
#define RW(n)                                                                  \
    void __tsan_read##n(void *p) { access((uintptr_t)p, n, 0, false); }        \
    void __tsan_write##n(void *p) { access((uintptr_t)p, n, 1, true); }        \
    void __tsan_unaligned_read##n(void *p) {                                   \
        access((uintptr_t)p, n, 0, false);                                     \
    }                                                                          \
    void __tsan_unaligned_write##n(void *p) {                                  \
        access((uintptr_t)p, n, 1, true);                                      \
    }                                                                          \
    void __tsan_read_write##n(void *p) {                                       \
        access((uintptr_t)p, n, 0, false);                                     \
        access((uintptr_t)p, n, 1, true);                                      \
    }                                                                          \
    void __tsan_unaligned_read_write##n(void *p) {                             \
        access((uintptr_t)p, n, 0, false);                                     \
        access((uintptr_t)p, n, 1, true);                                      \
    }                                                                          \
    void __tsan_volatile_read##n(void *p) { access((uintptr_t)p, n, 0, false); } \
    void __tsan_volatile_write##n(void *p) { access((uintptr_t)p, n, 1, true); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_read_range(void *p, size_t n) {
    if (n)
        access((uintptr_t)p, n, 0, false);
}
void __tsan_write_range(void *p, size_t n) {
    if (n)
        access((uintptr_t)p, n, 1, true);
}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    if (n) {
        access((uintptr_t)s, n, 0, false);
        access((uintptr_t)d, n, 1, true);
    }
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    if (n) {
        access((uintptr_t)s, n, 0, false);
        access((uintptr_t)d, n, 1, true);
    }
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
    if (n)
        access((uintptr_t)d, n, 1, true);
    return memset(d, c, n);
}
void __tsan_acquire(void *) {}
void __tsan_release(void *) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_mutex_create(void *, unsigned) {}
void __tsan_mutex_destroy(void *, unsigned) {}
void __tsan_mutex_pre_lock(void *, unsigned) {}
void __tsan_mutex_post_lock(void *, unsigned, int) {}
int __tsan_mutex_pre_unlock(void *, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void *, unsigned) {}
void __tsan_atomic_thread_fence(int) { event(); }
void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T)                                                            \
    T __tsan_atomic##bits##_load(const volatile T *a, int) {                   \
        access((uintptr_t)a, sizeof(T), 2, false);                             \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                           \
    }                                                                          \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int) {                \
        access((uintptr_t)a, sizeof(T), 2, true);                              \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                              \
    }                                                                          \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) {                \
        access((uintptr_t)a, sizeof(T), 2, true);                              \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                    \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) {               \
        access((uintptr_t)a, sizeof(T), 2, true);                              \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                     \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) {               \
        access((uintptr_t)a, sizeof(T), 2, true);                              \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                     \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) {               \
        access((uintptr_t)a, sizeof(T), 2, true);                              \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                     \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) {                \
        access((uintptr_t)a, sizeof(T), 2, true);                              \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                      \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) {               \
        access((uintptr_t)a, sizeof(T), 2, true);                              \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                     \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) {              \
        access((uintptr_t)a, sizeof(T), 2, true);                              \
        return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                    \
    }                                                                          \
    int __tsan_atomic##bits##_compare_exchange_strong(                         \
        volatile T *a, T *c, T v, int, int) {                                  \
        access((uintptr_t)a, sizeof(T), 2, true);                              \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,   \
                                           __ATOMIC_SEQ_CST);                  \
    }                                                                          \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v,  \
                                                    int, int) {                \
        access((uintptr_t)a, sizeof(T), 2, true);                              \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,   \
                                           __ATOMIC_SEQ_CST);                  \
    }                                                                          \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, \
                                                 int) {                        \
        access((uintptr_t)a, sizeof(T), 2, true);                              \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST,         \
                                    __ATOMIC_SEQ_CST);                         \
        return c;                                                              \
    }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
} // extern "C"

namespace sim {
void zygote_init() { load_syms("/proc/self/exe"); }
} // namespace sim
