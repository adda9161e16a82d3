// Simulated shared libraries: TBB malloc (the real library behind a gate) and
// a Level Zero driver (stub with a ledger).
#pragma once
#include "common.h"
#include <ze_api.h>

namespace simx {
// makes dlopen / dlsym / dlclose serve both libraries (call in setup())
void loader_install();
int loader_open_count(); // handles open and not closed

// blocks TBB malloc handed out and has not got back, all pools together
struct TbbLedger {
    bool on = false;
    std::map<uintptr_t, size_t> live;
    std::function<void(const char *)> on_call; // inside the library, before TBB
    struct Policy {
        size_t granularity;
        bool keep_all, fixed;
    };
    std::map<int, Policy> policy; // of the task's last pool creation
};
extern TbbLedger TBB;
// the next definition of a C library function (dlsym(RTLD_NEXT, ...))
extern std::function<void *(const char *)> next_symbol;

// ---------------------------------------------------------------- Level Zero
struct ZeAlloc {
    size_t size;
    int type; // 1 host, 2 device, 3 shared (ze_memory_type_t)
    ze_context_handle_t ctx;
    ze_device_handle_t dev;
    bool relaxed;
    uint32_t ordinal;
    std::set<ze_device_handle_t> resident;
    int handles = 0;
    uint64_t serial;
    size_t map;
};
struct ZeHandle { // outstanding IPC handle
    int proc, fd, inode;
    uintptr_t base;
};
struct ZeDriver {
    std::map<uintptr_t, ZeAlloc> live;
    std::map<uintptr_t, std::pair<int, uint64_t>> opened; // -> inode, serial
    std::map<int, ZeHandle> handles;                      // by inode
    uint64_t n_alloc = 0, n_free = 0, n_open = 0, n_close = 0, n_get = 0,
             n_put = 0;
    std::map<uint32_t, uint64_t> free_policy; // how often each policy was used
    size_t page = 65536, max_alloc = 1 << 20, limit = 1u << 31;
    bool has_put = true, has_free_ext = true;
    std::map<int, ze_result_t> last_err; // by task: of the last failed call
    std::map<int, int> errors;           // by task: failed calls so far
    std::map<int, ze_result_t> first_err; // by task: since it was cleared
    std::map<ze_context_handle_t, uint32_t> policy_of; // expected free policy
    std::set<uint64_t> refused;          // frees that were refused
    std::function<void(const char *)> on_call;
};
extern ZeDriver ZE;
} // namespace simx
