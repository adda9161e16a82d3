// umfsim: deterministic simulator for the unified memory framework.
// One seed decides the program, every interleaving, every address and every fault.
#pragma once
#include <setjmp.h>
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { // inclusive
        return lo + (int64_t)below((uint64_t)(hi - lo + 1));
    }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T> const T &pick(const std::vector<T> &v) {
        return v[below(v.size())];
    }
};
uint64_t mix64(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- programs
struct Op {
    uint32_t id = 0;   // stable id (survives shrinking); 0 is reserved
    uint32_t task = 0; // 1..N: worker tasks; 0: the main task, before the others
    uint32_t code = 0;
    int64_t a[6] = {0, 0, 0, 0, 0, 0};
};
struct Program {
    std::map<std::string, int64_t> cfg;
    std::vector<Op> ops;
    uint32_t ntasks = 0;
    int64_t get(const char *k, int64_t def = 0) const {
        auto it = cfg.find(k);
        return it == cfg.end() ? def : it->second;
    }
    Op &add(uint32_t task, uint32_t code, int64_t a0 = 0, int64_t a1 = 0,
            int64_t a2 = 0, int64_t a3 = 0, int64_t a4 = 0, int64_t a5 = 0);
};

struct Preempt {
    uint32_t task, op, to;
    uint64_t ev;
};
struct FaultHit {
    uint32_t task, op, kind, nth;
};

// ---------------------------------------------------------------- faults
enum Fault : uint32_t {
    F_MMAP = 0,   // anonymous mapping refused (ENOMEM)
    F_MMAP_FILE,  // file mapping refused
    F_MUNMAP,     // munmap fails
    F_MADVISE,    // madvise fails
    F_FTRUNC,     // ftruncate: no space
    F_FALLOC,     // posix_fallocate: no space
    F_OPEN,       // open / shm_open / memfd fail (EMFILE, ENOENT, ENOSPC)
    F_CLOSE,      // close reports EIO (the descriptor is gone)
    F_STAT,       // stat / fstat fails
    F_PIDFD,      // pidfd_open / pidfd_getfd fails
    F_MUTEXINIT,  // lock initialisation fails (EAGAIN / ENOMEM)
    F_META,       // metadata allocation refused
    F_BAMMAP,     // the OS refuses memory to the metadata allocator
    F_MEMBIND,    // NUMA binding refused
    F_TOPOLOGY,   // topology discovery fails
    F_PROV_ALLOC, // upstream provider refuses an allocation
    F_PROV_FREE,  // upstream provider fails a free
    F_PROV_SPLIT, // upstream provider fails a split
    F_PROV_MERGE, // upstream provider fails a merge
    F_PROV_INIT,  // provider or pool initialise callback fails
    F_PROV_QUERY, // page size / property query fails
    F_IPC_GET,    // upstream get_ipc_handle fails
    F_IPC_PUT,
    F_IPC_OPEN,
    F_IPC_CLOSE,
    F_DRIVER, // simulated device driver call refused
    F_DLOPEN, // library / symbol not found
    F_CRASH,  // simulated process crash and restart
    F_WRITE,  // writing to a stream fails (disk full)
    F_READ,   // reading a stream fails
    F_N
};
extern const char *fault_name[F_N];

// true if the simulator decides that this call fails
bool fault(Fault k);
// the nth failable call of this task from now on whose kind is in the mask
// fails, and the `burst` ones after it
void fault_arm(uint64_t mask, uint32_t nth, uint32_t burst);
uint32_t fault_arm_hits(); // how many of them have failed
// the task's process dies at the nth memory access from now on (0: never):
// control continues at `to`
void crash_arm(uint32_t nth, jmp_buf *to);
// a further image of program code whose memory the simulator watches
void register_image(uintptr_t lo, uintptr_t hi);
void faults_enable(bool on); // whole run: off during setup / finish by default
bool faults_enabled();
uint64_t faults_fired(); // so far in this run
uint64_t faults_fired_kind(Fault k);

// ---------------------------------------------------------------- run control
[[noreturn]] void violate(const char *cls, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
// harness (not system) error: the run is void
[[noreturn]] void harness_error(const char *fmt, ...)
    __attribute__((format(printf, 1, 2)));
void probe(const char *name); // "this rare condition was reached"
void note(uint64_t v);        // mix an observable into the event hash
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool g_trace;

void point();
void hot_point();          // explicit preemption point (provider callbacks)
struct NoPreempt {     // region in which the scheduler never switches
    NoPreempt();
    ~NoPreempt();
};
struct Unchecked {     // harness region: no preemption, no memory oracle, no faults
    Unchecked();
    ~Unchecked();
};
struct NoFault {       // no fault is injected into this task
    NoFault();
    ~NoFault();
};
uint64_t now();        // global event sequence number
int task_id();         // 0 = main task
int current_op();
uint64_t addr_rand();  // address / layout decisions
void yield_until(const std::function<bool()> &pred); // block until pred holds

// ---------------------------------------------------------------- scenarios
struct Scenario {
    virtual ~Scenario() {}
    // fills the program from the seed (pure function of rng)
    virtual void generate(Rng &rng, Program &p, bool thorough) = 0;
    // run in the simulated main task
    virtual void setup(const Program &p) = 0;
    virtual void exec(const Op &op) = 0; // task_id() is the executing task
    virtual void finish() = 0;           // after all tasks ended; faults off
    virtual const char *op_name(uint32_t code) { (void)code; return "op"; }
    // for the evidence file
    virtual const char *real_parts() { return ""; }
    virtual const char *stub_parts() { return ""; }
};
struct ScenarioDef {
    const char *name;
    Scenario *(*make)();
};
void register_scenario(const char *name, Scenario *(*make)());
Scenario *make_scenario(const std::string &name);
std::vector<std::string> scenario_names(const std::string &prefix);
void at_zygote(std::function<void()> f); // once, before any run is forked
#define SIM_SCENARIO(NAME, TYPE)                                               \
    static sim::Scenario *make_##TYPE() { return new TYPE; }                   \
    __attribute__((constructor)) static void reg_##TYPE() {                    \
        sim::register_scenario(NAME, make_##TYPE);                             \
    }

// ---------------------------------------------------------------- OS seam
struct Map {
    uintptr_t addr;
    size_t len;
    int prot, flags;
    int inode;   // -1: anonymous
    size_t off;  // file offset
    int owner;   // 0 metadata allocator, 1 library (provider), 2 harness
    uint64_t serial; // of the mmap call it came from
    int proc;        // simulated process
};
namespace os {
// arena for provider memory used by harness providers
void *reserve(size_t size, size_t align); // plain RW memory at a seeded address
void release(void *p, size_t size);       // becomes inaccessible, may be reused
const std::map<uintptr_t, Map> &maps();
size_t mapped_bytes(int owner); // -1: all
size_t mapped_count(int owner);
// simulated descriptors / files
int open_fds(int proc = -1); // number of open simulated descriptors
int inode_of_path(const char *path);
int create_file(const char *path, size_t size, bool chardev);
void remove_file(const char *path);
size_t file_size(int inode);
void set_disk_limit(size_t bytes);
bool file_read(int inode, size_t off, void *buf, size_t n);
int inode_links(int inode);
void set_map_sync(int inode, bool on);
// processes
void set_proc(int proc); // of the current task
int proc();
// every process has its own copy of the library: mappings belong to one
void separate_processes(bool on);
void proc_exit(int proc); // close all its descriptors and mappings
int pid_of(int proc);
void set_env(const char *name, const char *value); // simulated environment
struct Bind {
    uint64_t seq;
    uintptr_t addr;
    size_t len;
    std::vector<unsigned> nodes;
    int policy;
    unsigned flags;
    int task;
};
std::vector<Bind> &binds();
// the kernel does not implement binding: it is asked for, and fails (ENOSYS)
void set_bind_missing(bool on);
struct Advice {
    uintptr_t addr;
    size_t len;
    int adv, task;
};
std::vector<Advice> &advices(); // madvise calls
// metadata blocks outstanding (allocated through the base allocator API)
size_t meta_live();
size_t meta_live_bytes();
uint64_t meta_mark();
size_t meta_live_since(uint64_t mark);
std::string meta_describe(size_t max, uint64_t since = 0);
std::string maps_describe(int owner);
std::string fds_describe();
int fd_inode(int proc, int fd);
size_t file_count();
long live_bitmaps();
long live_topologies();
void set_memfd_secret(bool ok);
// dynamic loader: handler returns true if it handled the call
void on_dlopen(std::function<bool(const char *, int, void **)> f);
void on_dlsym(std::function<bool(void *, const char *, void **)> f);
void on_dlclose(std::function<bool(void *)> f);
// (attribute id, target os index, initiator cpu, flags) -> value
void on_memattr(
    std::function<bool(int, unsigned, uint64_t, uint64_t, uint64_t *)> f);
uint64_t mmap_calls();
int last_fault_errno(); // of this task's last refused mapping call; clears it
bool range_mapped(uintptr_t a, size_t len, int owner, bool writable);
} // namespace os

// ---------------------------------------------------------------- stdio seam
// stdout, stderr and files opened with fopen become streams of the C library
// over simulated files: buffering is real, what reaches the file is recorded.
namespace io {
struct Stream {
    std::string data;  // what the file contains
    bool exists = false;
    int open_now = 0;  // streams open on it
    uint64_t opens = 0, writes = 0, reads = 0;
    bool no_seek = false; // a pipe or the like
    bool failed = false; // a write was refused
};
// mode of stdout: 0 unbuffered, 1 line buffered, 2 fully buffered
void install(int stdout_mode);
// paths with this prefix are simulated, all others are passed through
void serve(const char *prefix);
Stream &stream(const std::string &name); // "<stdout>", "<stderr>" or a path
std::map<std::string, Stream> &streams();
// a successful write may set errno, too
void clobber_errno(bool on);
// simulated wall clock: values given to this task since the last call
std::vector<int64_t> clock_values();
void set_clock(int64_t now, int64_t max_step, bool jumps);
} // namespace io

// UAF oracle on metadata blocks
void meta_oracle(bool on);
void poison(const void *p, size_t n, int what); // 0 = clear
std::string backtrace_str(int max = 12);

uintptr_t arena_base();
uintptr_t arena_end();
} // namespace sim
