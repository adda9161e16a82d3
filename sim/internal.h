// shared between core.cpp, os.cpp and main.cpp
#pragma once
#include "sim.h"
namespace sim {

constexpr int MAX_TASKS = 10;
constexpr uint32_t OP_SETUP = 0, OP_FINISH = 0xfffffffe, OP_END = 0xffffffff;

enum RunStatus { RS_NONE = 0, RS_OK, RS_VIOLATION, RS_HARNESS, RS_SKIP };
constexpr uint32_t MAX_PLOG = 1 << 16, MAX_FLOG = 4096, MAX_PROBES = 64;
struct Result {
    volatile int status;
    volatile uint64_t live; // steps so far, refreshed now and then
    char cls[128];
    char msg[2048];
    char bt[2048];
    uint64_t hash, steps, switches, conflicts, cov, ops_done, blocked;
    uint64_t nfault[F_N];
    uint64_t ncall[F_N]; // eligible calls
    uint32_t nprobes;
    char probe[MAX_PROBES][48];
    uint32_t nplog, nflog, narmed;
    uint32_t task, op;
    Preempt plog[MAX_PLOG];
    FaultHit flog[MAX_FLOG];
};

struct Plan {
    std::string scenario;
    uint64_t seed = 0;
    bool thorough = false;
    bool explicit_mode = false;
    Program prog;                  // explicit mode
    std::vector<Preempt> preempts; // explicit mode
    std::vector<FaultHit> faults;  // explicit mode
};

// runs one plan in the calling process (a forked child); never returns
[[noreturn]] void child_main(const Plan &plan, Result *res);
void zygote_init();

struct Task;
Task *self();
bool unchecked();
struct InBA { // inside the base allocator
    InBA();
    ~InBA();
};
int in_ba();
void event(); // scheduling point of kind "system call"
uint64_t fresh_serial();
void os_boot();
void os_child_init(uint64_t seed, const Program &p);
uint8_t *shadow_of(uintptr_t a);
bool in_arena(uintptr_t a);
std::string symbolize(uintptr_t pc);
int backtrace_raw(uintptr_t *pc, int max);
extern std::vector<std::function<void()>> *g_zygote;
constexpr uintptr_t ARENA_BASE = 0x200000000000ull;
constexpr size_t ARENA_SIZE = 64ull << 30;
constexpr uintptr_t SHADOW_BASE = 0x280000000000ull;
constexpr size_t SHADOW_SIZE = ARENA_SIZE / 8;
extern int g_meta_oracle;
extern uint32_t g_trace_op;
extern FILE *g_err;
} // namespace sim
