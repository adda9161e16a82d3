// Shared pieces of the scenarios: a simulated upstream provider with a strict
// ledger, a thin pool that exposes its provider, leak checks.
#pragma once
#include "sim.h"
#include <umf.h>
#include <umf/memory_pool_ops.h>
#include <umf/memory_provider_ops.h>

using namespace sim;

extern "C" {
int umfInit(void);
void umfTearDown(void);
}

namespace simx {

// ---------------------------------------------------------------- provider
// Every allocation is a fresh range of simulated memory. The ledger verifies
// that each range is freed exactly once, with the size it was allocated with.
struct Block {
    size_t size;
    void *map_base; // range of the arena it belongs to
    size_t map_size;
    int handles = 0; // outstanding IPC handles
    uint64_t serial = 0;
};
struct Provider;
struct IpcData { // provider specific IPC payload
    uint64_t magic;
    uint64_t serial;
    uintptr_t base;
    size_t size;
    Provider *owner;
};
struct Mapping {
    size_t size;
    uint64_t serial;
};
struct Provider {
    const char *name = "SIM";
    size_t page = 4096;
    size_t min_align = 4096;
    bool strict = true;
    bool split_ok = true, merge_ok = true;
    bool refuse_more = false; // purging can be refused too
    bool garbage = true;        // fill fresh memory with a pattern
    umf_result_t err = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    std::map<uintptr_t, Block> live;
    std::map<uintptr_t, Mapping> mappings; // opened IPC handles
    uint64_t n_alloc = 0, n_free = 0, n_get = 0, n_put = 0, n_open = 0,
             n_close = 0, n_fail = 0, handles_live = 0;
    std::map<uint64_t, IpcData> handles; // outstanding, by serial
    size_t bytes = 0, peak = 0;
    // optional hooks
    std::function<void(uintptr_t, size_t)> before_free; // veto by violate()
    std::map<int, int32_t> native; // per task
    std::map<int, uint64_t> fails;  // refusals met by each task
    umf_memory_provider_handle_t h = nullptr;
    int alive = 0; // initialised and not finalised
    size_t arena_slack = 0; // gap after each allocation
    bool no_page = false;   // page size queries are not supported
    bool jitter = false;    // blocks start anywhere their alignment allows
    std::set<uint64_t> refused; // serials of blocks whose free was refused

    Block *find(uintptr_t a, uintptr_t *base = nullptr) {
        auto it = live.upper_bound(a);
        if (it == live.begin())
            return nullptr;
        --it;
        if (a >= it->first + it->second.size)
            return nullptr;
        if (base)
            *base = it->first;
        return &it->second;
    }
};
extern std::map<uintptr_t, std::pair<int, size_t>> arena_refs; // map_base -> bytes in use
extern std::map<int, Provider *> last_refuser; // by task
const umf_memory_provider_ops_t *provider_ops();
// creates the provider through the public API (no faults inside)
umf_memory_provider_handle_t make_provider(Provider *p);

// ---------------------------------------------------------------- pool
// Thin pool: every call goes straight to the (tracking) provider.
struct ThinPool {
    umf_memory_provider_handle_t provider = nullptr;
    std::map<uintptr_t, size_t> blocks; // harness' own bookkeeping
    umf_memory_pool_handle_t h = nullptr;
    uint64_t frees = 0;
    std::function<void(void *)> on_free;
    bool drop = false;
};
const umf_memory_pool_ops_t *thin_pool_ops();
umf_result_t make_thin_pool(ThinPool *p, umf_memory_provider_handle_t prov,
                            umf_pool_create_flags_t flags);

// Provider that takes its memory from a pool (nested pooling).
struct PoolProvider {
    umf_memory_pool_handle_t pool = nullptr;
    umf_memory_provider_handle_t h = nullptr;
};
const umf_memory_provider_ops_t *pool_provider_ops();

// ---------------------------------------------------------------- leak check
struct Baseline {
    uint64_t meta_mark = 0;
    size_t maps1 = 0, maps_any = 0;
    int fds = 0;
    size_t files = 0;
    long bitmaps = 0, topos = 0;
};
Baseline baseline();
// violates when something obtained after the baseline is still held
void check_no_leak(const Baseline &b, const char *what, bool meta = true);

void lib_init();     // umfInit must succeed
// some runs log everything, and writing the log disturbs errno
void log_cfg(Rng &r, Program &p, unsigned chance_pct);
void log_setup(const Program &p);
void fill(void *p, size_t n, uint64_t tag);
// returns the offset of the first wrong byte or -1
long verify(const void *p, size_t n, uint64_t tag);
const char *res_name(int r);
bool valid_result(int r);

// random fault configuration: picks up to `max` kinds from the list
void pick_faults(Rng &r, Program &p, const std::vector<Fault> &kinds,
                 unsigned chance_pct);
} // namespace simx
