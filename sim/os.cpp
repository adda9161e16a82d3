// The simulated operating system: address space, files, descriptors, processes,
// environment, dynamic loader, NUMA binding, plus the ledger of internal metadata.
#include "internal.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <hwloc.h>

#ifndef MAP_SYNC
#define MAP_SYNC 0x80000
#endif
#ifndef MAP_SHARED_VALIDATE
#define MAP_SHARED_VALIDATE 3
#endif

#define WEAK __attribute__((weak))
extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_madvise(void *, size_t, int);
long __real_syscall(long n, ...);
int __real_close(int);
int __real_ftruncate(int, off_t);
int __real_posix_fallocate(int, off_t, off_t);
void *__real_dlopen(const char *, int);
void *__real_dlsym(void *, const char *);
int __real_dlclose(void *);
WEAK void *__real_ba_os_alloc(size_t);
WEAK void __real_ba_os_free(void *, size_t);
WEAK void *__real_umf_ba_global_alloc(size_t);
WEAK void *__real_umf_ba_global_aligned_alloc(size_t, size_t);
WEAK void __real_umf_ba_global_free(void *);
WEAK size_t __real_umf_ba_global_malloc_usable_size(void *);
WEAK void __real_umf_ba_destroy_global(void);
WEAK void *__real_umf_ba_create(size_t);
WEAK void *__real_umf_ba_alloc(void *);
WEAK void __real_umf_ba_free(void *, void *);
WEAK void __real_umf_ba_destroy(void *);
WEAK void *__real_umf_ba_linear_create(size_t);
WEAK void *__real_umf_ba_linear_alloc(void *, size_t);
WEAK int __real_umf_ba_linear_free(void *, void *);
WEAK void __real_umf_ba_linear_destroy(void *);
WEAK size_t __real_umf_ba_linear_pool_contains_pointer(void *, void *);
int __real_hwloc_topology_init(hwloc_topology_t *);
int __real_hwloc_topology_load(hwloc_topology_t);
void __real_hwloc_topology_destroy(hwloc_topology_t);
hwloc_bitmap_t __real_hwloc_bitmap_alloc(void);
hwloc_bitmap_t __real_hwloc_bitmap_dup(hwloc_const_bitmap_t);
void __real_hwloc_bitmap_free(hwloc_bitmap_t);
int __real_hwloc_memattr_get_value(hwloc_topology_t, hwloc_memattr_id_t,
                                   hwloc_obj_t, struct hwloc_location *,
                                   unsigned long, hwloc_uint64_t *);
}

namespace sim {

static constexpr size_t PG = 4096;
static constexpr size_t DAX_ALIGN = 2u << 20;
static size_t up(size_t x, size_t a) { return (x + a - 1) / a * a; }

struct Inode {
    int real = -1;
    bool chardev = false, sync = false;
    std::string path;
    int links = 0; // directory entries
    int fds = 0;   // open descriptors
    int maps = 0;
    size_t size = 0;
};
struct Fd {
    int inode = -1; // >=0 file
    int pidfd = -1; // >=0 process
};
struct Proc {
    std::map<int, Fd> fds;
    bool alive = true;
    int pid = 0;
};
struct Meta {
    size_t size;
    void *pool;
    uint64_t serial;
    int n;
    uintptr_t pc[6];
};
static struct {
    std::map<uintptr_t, Map> maps;
    std::vector<Inode> inodes;
    std::map<std::string, int> paths;
    Proc procs[8];
    std::map<std::string, std::string> env;
    std::map<uintptr_t, Meta> meta;
    std::map<void *, size_t> bapools;
    std::vector<os::Bind> binds;
    bool bind_missing = false;
    std::vector<std::pair<uintptr_t, size_t>> freed; // recently unmapped
    size_t disk_limit = SIZE_MAX;
    uint64_t mmaps = 0;
    uintptr_t bump = 0;
    std::vector<os::Advice> advices;
    int policy = 0;
    int in_os_alloc = 0;
    bool separate = false; // processes with their own library images
    long bitmaps = 0, topologies = 0;
    std::function<bool(const char *, int, void **)> dlopen_hook;
    std::function<bool(void *, const char *, void **)> dlsym_hook;
    std::function<bool(void *)> dlclose_hook;
    std::function<bool(int, unsigned, uint64_t, uint64_t, uint64_t *)> memattr;
    bool secret_ok = true;
} O;

bool in_arena(uintptr_t a) {
    return a >= ARENA_BASE && a < ARENA_BASE + ARENA_SIZE;
}
uint8_t *shadow_of(uintptr_t a) {
    return (uint8_t *)(SHADOW_BASE + ((a - ARENA_BASE) >> 3));
}
uintptr_t arena_base() { return ARENA_BASE; }
uintptr_t arena_end() { return ARENA_BASE + ARENA_SIZE; }

static void shadow_fill(uintptr_t a, size_t n, int v) {
    if (!in_arena(a) || !n)
        return;
    if (n > (4u << 20) && v == 0) {
        uintptr_t s = (uintptr_t)shadow_of(a), e = (uintptr_t)shadow_of(a + n);
        uintptr_t s2 = up(s, PG), e2 = e / PG * PG;
        memset((void *)s, 0, s2 - s);
        __real_madvise((void *)s2, e2 - s2, MADV_DONTNEED);
        memset((void *)e2, 0, e - e2);
        return;
    }
    memset(shadow_of(a), v, n >> 3);
}
void poison(const void *p, size_t n, int what) {
    uintptr_t a = ((uintptr_t)p + 7) & ~7ull, e = ((uintptr_t)p + n);
    if (what == 0) { // clear partially covered granules as well
        a = (uintptr_t)p & ~7ull;
        e = (e + 7) & ~7ull;
    } else {
        e &= ~7ull;
    }
    if (e > a)
        shadow_fill(a, e - a, what);
}

void os_boot() {
    void *p = __real_mmap((void *)ARENA_BASE, ARENA_SIZE, PROT_NONE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                              MAP_FIXED_NOREPLACE,
                          -1, 0);
    void *s = __real_mmap((void *)SHADOW_BASE, SHADOW_SIZE,
                          PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                              MAP_FIXED_NOREPLACE,
                          -1, 0);
    if (p != (void *)ARENA_BASE || s != (void *)SHADOW_BASE) {
        fprintf(stderr, "umfsim: cannot reserve the arena\n");
        _exit(3);
    }
}

void os_child_init(uint64_t seed, const Program &p) {
    Rng r(mix64(seed, 0x05));
    int64_t pol = p.get("os.policy", -1);
    O.policy = pol >= 0 ? (int)pol : (int)r.below(4);
    O.bump = ARENA_BASE + (1ull << 30) + (r.below(1 << 16) << 12);
    for (int i = 0; i < 8; i++)
        O.procs[i].pid = 4000 + 111 * i;
    O.secret_ok = r.chance(1, 2);
}

static bool range_free(uintptr_t a, size_t len) {
    if (a < ARENA_BASE || a + len > ARENA_BASE + ARENA_SIZE || a + len < a)
        return false;
    auto it = O.maps.lower_bound(a);
    if (it != O.maps.end() && it->first < a + len)
        return false;
    if (it != O.maps.begin()) {
        --it;
        if (it->second.addr + it->second.len > a)
            return false;
    }
    return true;
}

// 0: sequential, adjacent; 1: LIFO reuse then sequential with gaps;
// 2: random place; 3: LIFO reuse then adjacent, downwards
static uintptr_t pick_addr(size_t len, size_t align) {
    if (align < PG)
        align = PG;
    if ((O.policy == 1 || O.policy == 3)) {
        for (size_t i = O.freed.size(); i-- > 0;) {
            uintptr_t a = up(O.freed[i].first, align);
            if (a + len <= O.freed[i].first + O.freed[i].second &&
                range_free(a, len))
                return a;
        }
    }
    for (int tries = 0; tries < 10000; tries++) {
        uintptr_t a;
        if (O.policy == 2) {
            a = ARENA_BASE +
                (addr_rand() % ((ARENA_SIZE - len) / align)) * align;
        } else if (O.policy == 3) {
            // kernel-like top-down
            if (!O.bump || O.bump < ARENA_BASE + len + (1 << 20))
                O.bump = ARENA_BASE + ARENA_SIZE - (1 << 20);
            a = (O.bump - len) / align * align;
            O.bump = a;
        } else {
            a = up(O.bump, align);
            O.bump = a + up(len, PG) + (O.policy == 1 ? (1 + addr_rand() % 5) * PG : 0);
            if (O.bump > ARENA_BASE + ARENA_SIZE - (1ull << 30))
                O.bump = ARENA_BASE + (1 << 20);
        }
        if (range_free(a, len))
            return a;
    }
    return 0;
}

static void inode_put(int i) {
    Inode &n = O.inodes[(size_t)i];
    if (n.real >= 0 && !n.links && !n.fds && !n.maps) {
        __real_close(n.real);
        n.real = -1;
    }
}
static int new_inode(const char *path) {
    Inode n;
    n.real = (int)__real_syscall(SYS_memfd_create, "umfsim", 1 /*CLOEXEC*/);
    if (n.real < 0)
        harness_error("memfd_create failed: %d", errno);
    n.path = path ? path : "";
    O.inodes.push_back(n);
    return (int)O.inodes.size() - 1;
}

static void *do_map(size_t len, size_t align, int prot, int flags, int inode,
                    size_t off, int owner, uintptr_t hint) {
    size_t l = up(len, PG);
    uintptr_t a = 0;
    if (hint && hint % PG == 0 && range_free(hint, l))
        a = hint;
    if (!a)
        a = pick_addr(l, align);
    if (!a) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    int rf = flags & ~(MAP_SYNC | MAP_FIXED_NOREPLACE);
    if ((flags & 3) == MAP_SHARED_VALIDATE)
        rf = (rf & ~3) | MAP_SHARED;
    void *p = __real_mmap((void *)a, l, prot, rf | MAP_FIXED | MAP_NORESERVE,
                          inode >= 0 ? O.inodes[(size_t)inode].real : -1,
                          (off_t)off);
    if (p != (void *)a) {
        __real_mmap((void *)a, l, PROT_NONE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1,
                    0);
        return MAP_FAILED;
    }
    Map m;
    m.addr = a;
    m.len = l;
    m.prot = prot;
    m.flags = flags;
    m.inode = inode;
    m.off = off;
    m.owner = owner;
    m.serial = ++O.mmaps;
    m.proc = os::proc();
    O.maps[a] = m;
    if (inode >= 0)
        O.inodes[(size_t)inode].maps++;
    shadow_fill(a, l, owner == 0 && g_meta_oracle ? 3 : 0);
    note(a - ARENA_BASE);
    return p;
}

// returns false if some byte of the range is not mapped
static bool do_unmap(uintptr_t a, size_t len) {
    size_t l = up(len, PG);
    uintptr_t e = a + l, c = a;
    auto it = O.maps.upper_bound(a);
    if (it != O.maps.begin())
        --it;
    for (auto i = it; i != O.maps.end() && i->first < e; ++i) { // verify
        if (i->second.addr + i->second.len <= a)
            continue;
        if (i->second.addr > c)
            return false;
        c = i->second.addr + i->second.len;
    }
    if (c < e)
        return false;
    while (true) {
        it = O.maps.upper_bound(a);
        if (it != O.maps.begin())
            --it;
        while (it != O.maps.end() && it->second.addr + it->second.len <= a)
            ++it;
        if (it == O.maps.end() || it->first >= e)
            break;
        Map m = it->second;
        O.maps.erase(it);
        int delta = -1;
        if (m.addr < a) {
            Map h = m;
            h.len = a - m.addr;
            O.maps[h.addr] = h;
            delta++;
        }
        if (m.addr + m.len > e) {
            Map t = m;
            t.addr = e;
            t.len = m.addr + m.len - e;
            t.off = m.off + (e - m.addr);
            O.maps[t.addr] = t;
            delta++;
        }
        if (m.inode >= 0) {
            O.inodes[(size_t)m.inode].maps += delta;
            inode_put(m.inode);
        }
    }
    __real_mmap((void *)a, l, PROT_NONE,
                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    shadow_fill(a, l, 0);
    O.freed.push_back({a, l});
    if (O.freed.size() > 64)
        O.freed.erase(O.freed.begin());
    return true;
}

// ---------------------------------------------------------------- harness API
namespace os {
void *reserve(size_t size, size_t align) {
    Unchecked u;
    void *p = do_map(size, align, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0, 2, 0);
    if (p == MAP_FAILED)
        harness_error("arena exhausted (%zu)", size);
    return p;
}
void release(void *p, size_t size) {
    Unchecked u;
    if (!do_unmap((uintptr_t)p, size))
        harness_error("release of a range not reserved");
}
const std::map<uintptr_t, Map> &maps() { return O.maps; }
size_t mapped_bytes(int owner) {
    size_t n = 0;
    for (auto &m : O.maps)
        if (owner < 0 || m.second.owner == owner)
            n += m.second.len;
    return n;
}
size_t mapped_count(int owner) {
    size_t n = 0;
    for (auto &m : O.maps)
        if (owner < 0 || m.second.owner == owner)
            n++;
    return n;
}
std::string maps_describe(int owner) {
    std::string s;
    int k = 0;
    for (auto &m : O.maps)
        if ((owner < 0 || m.second.owner == owner) && k++ < 6) {
            char b[128];
            snprintf(b, sizeof b, " [%#lx+%#zx inode %d off %#zx owner %d]",
                     (unsigned long)m.second.addr, m.second.len,
                     m.second.inode, m.second.off, m.second.owner);
            s += b;
        }
    return s;
}
int open_fds(int p) {
    int n = 0;
    for (int i = 0; i < 8; i++)
        if (p < 0 || p == i)
            n += (int)O.procs[i].fds.size();
    return n;
}
std::string fds_describe() {
    std::string s;
    for (int i = 0; i < 8; i++)
        for (auto &f : O.procs[i].fds) {
            char b[160];
            snprintf(b, sizeof b, " [proc %d fd %d %s]", i, f.first,
                     f.second.inode >= 0
                         ? O.inodes[(size_t)f.second.inode].path.c_str()
                         : "pidfd");
            s += b;
        }
    return s;
}
int fd_inode(int p, int fd) {
    auto it = O.procs[p].fds.find(fd);
    return it == O.procs[p].fds.end() ? -1 : it->second.inode;
}
int inode_of_path(const char *path) {
    auto it = O.paths.find(path);
    return it == O.paths.end() ? -1 : it->second;
}
int create_file(const char *path, size_t size, bool chardev) {
    Unchecked u;
    int i = new_inode(path);
    Inode &n = O.inodes[(size_t)i];
    n.links = 1;
    n.chardev = chardev;
    n.sync = chardev;
    n.size = size;
    if (size)
        __real_ftruncate(n.real, (off_t)size);
    O.paths[path] = i;
    return i;
}
void remove_file(const char *path) {
    Unchecked u;
    auto it = O.paths.find(path);
    if (it == O.paths.end())
        return;
    int i = it->second;
    O.paths.erase(it);
    O.inodes[(size_t)i].links--;
    inode_put(i);
}
size_t file_count() { return O.paths.size(); }
size_t file_size(int inode) { return O.inodes[(size_t)inode].size; }
void set_disk_limit(size_t bytes) { O.disk_limit = bytes; }
bool file_read(int inode, size_t off, void *buf, size_t n) {
    return pread(O.inodes[(size_t)inode].real, buf, n, (off_t)off) ==
           (ssize_t)n;
}
int inode_links(int inode) { return O.inodes[(size_t)inode].links; }
void set_map_sync(int inode, bool on) { O.inodes[(size_t)inode].sync = on; }
int pid_of(int p) { return O.procs[p].pid; }

void separate_processes(bool on) { O.separate = on; }
void proc_exit(int p) {
    Unchecked u;
    while (!O.procs[p].fds.empty()) {
        auto it = O.procs[p].fds.begin();
        int i = it->second.inode;
        O.procs[p].fds.erase(it);
        if (i >= 0) {
            O.inodes[(size_t)i].fds--;
            inode_put(i);
        }
    }
    std::vector<Map> mine;
    for (auto &m : O.maps)
        if (m.second.proc == p && m.second.owner != 2)
            mine.push_back(m.second);
    for (auto &m : mine)
        do_unmap(m.addr, m.len);
    O.procs[p].pid += 7;
}
void set_env(const char *name, const char *value) {
    if (value)
        O.env[name] = value;
    else
        O.env.erase(name);
}
std::vector<Bind> &binds() { return O.binds; }
void set_bind_missing(bool on) { O.bind_missing = on; }
std::vector<Advice> &advices() { return O.advices; }
long live_bitmaps() { return O.bitmaps; }
long live_topologies() { return O.topologies; }
size_t meta_live() { return O.meta.size(); }
size_t meta_live_bytes() {
    size_t n = 0;
    for (auto &m : O.meta)
        n += m.second.size;
    return n;
}
uint64_t meta_mark() { return fresh_serial(); }
size_t meta_live_since(uint64_t mark) {
    size_t n = 0;
    for (auto &m : O.meta)
        n += m.second.serial > mark;
    return n;
}
std::string meta_describe(size_t max, uint64_t since) {
    std::string s;
    std::map<std::string, int> by;
    for (auto &m : O.meta) {
        if (m.second.serial <= since)
            continue;
        std::string b;
        for (int i = 0; i < m.second.n && i < 3; i++)
            b += (i ? " < " : "") + symbolize(m.second.pc[i]);
        by[b + " (" + std::to_string(m.second.size) + " B)"]++;
    }
    for (auto &e : by) {
        if (!max--)
            break;
        s += "; " + std::to_string(e.second) + "x " + e.first;
    }
    return s;
}
uint64_t mmap_calls() { return O.mmaps; }
bool range_mapped(uintptr_t a, size_t len, int owner, bool writable) {
    uintptr_t c = a, e = a + len;
    auto it = O.maps.upper_bound(a);
    if (it != O.maps.begin())
        --it;
    for (; it != O.maps.end() && it->first < e; ++it) {
        const Map &m = it->second;
        if (m.addr + m.len <= c)
            continue;
        if (m.addr > c)
            return false;
        if (owner >= 0 && m.owner != owner)
            return false;
        if (writable && !(m.prot & PROT_WRITE))
            return false;
        c = m.addr + m.len;
    }
    return c >= e;
}
void on_dlopen(std::function<bool(const char *, int, void **)> f) {
    O.dlopen_hook = std::move(f);
}
void on_dlsym(std::function<bool(void *, const char *, void **)> f) {
    O.dlsym_hook = std::move(f);
}
void on_dlclose(std::function<bool(void *)> f) { O.dlclose_hook = std::move(f); }
void on_memattr(
    std::function<bool(int, unsigned, uint64_t, uint64_t, uint64_t *)> f) {
    O.memattr = std::move(f);
}
void set_memfd_secret(bool ok) { O.secret_ok = ok; }
void set_owner(int owner) { O.in_os_alloc = owner; }
} // namespace os

// ---------------------------------------------------------------- descriptors
static int fd_alloc(Fd f) {
    Proc &p = O.procs[os::proc()];
    int n = 3;
    while (p.fds.count(n))
        n++;
    p.fds[n] = f;
    if (f.inode >= 0)
        O.inodes[(size_t)f.inode].fds++;
    note((uint64_t)n);
    return n;
}
static Fd *fd_get(int fd) {
    Proc &p = O.procs[os::proc()];
    auto it = p.fds.find(fd);
    return it == p.fds.end() ? nullptr : &it->second;
}

static void meta_add(void *p, size_t size, void *pool) {
    Meta m;
    m.size = size;
    m.pool = pool;
    m.serial = fresh_serial();
    m.n = backtrace_raw(m.pc, 6);
    auto it = O.meta.upper_bound((uintptr_t)p + size - 1);
    if (it != O.meta.begin()) {
        --it;
        if (it->first + it->second.size > (uintptr_t)p)
            violate("metadata-overlap",
                    "metadata block %p+%zu overlaps a live one %#lx+%zu", p,
                    size, (unsigned long)it->first, it->second.size);
    }
    O.meta[(uintptr_t)p] = m;
    poison(p, size, 0);
    if (g_meta_oracle && size % 8 && (uintptr_t)p % 8 == 0 && in_arena((uintptr_t)p))
        *shadow_of((uintptr_t)p + size) = (uint8_t)(0x80 | size % 8);
    // contents of fresh metadata are unspecified
    if (g_meta_oracle && !unchecked())
        memset(p, 0xa5, size);
}
static bool meta_del(void *p, void *pool, const char *what) {
    auto it = O.meta.find((uintptr_t)p);
    if (it == O.meta.end())
        violate("metadata-double-free", "%s of %p, which is not a live block",
                what, p);
    if (it->second.pool != pool)
        violate("metadata-wrong-pool", "%s of %p into a different allocator",
                what, p);
    if (g_meta_oracle)
        poison(p, (it->second.size + 7) & ~(size_t)7, 1);
    O.meta.erase(it);
    return true;
}
} // namespace sim

using namespace sim;

// the reason given for a refused call differs from call to call
static std::map<int, int> g_fault_errno;
static int fault_errno() {
    static const int e[] = {ENOMEM, EAGAIN, EPERM, EIO};
    int v = e[(unsigned)(task_id() + current_op()) % 4];
    Unchecked u;
    return g_fault_errno[task_id()] = v;
}
int sim::os::last_fault_errno() {
    int v = g_fault_errno[task_id()];
    g_fault_errno[task_id()] = 0;
    return v;
}
extern "C" {
void *__wrap_mmap(void *hint, size_t len, int prot, int flags, int fd,
                  off_t off) {
    if (!self())
        return __real_mmap(hint, len, prot, flags, fd, off);
    event();
    if (!len || off % (off_t)PG || off < 0) {
        errno = EINVAL;
        return MAP_FAILED;
    }
    if (len > ARENA_SIZE / 2) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    int owner = O.in_os_alloc ? 0 : 1;
    if (flags & MAP_ANONYMOUS) {
        if (fault(owner == 0 ? F_BAMMAP : F_MMAP)) {
            errno = ENOMEM;
            return MAP_FAILED;
        }
        void *p = do_map(len, PG, prot, flags, -1, 0, owner, (uintptr_t)hint);
        if (g_trace)
            trace("mmap(%#zx, prot %d) = %p", len, prot, p);
        return p;
    }
    Fd *f = fd_get(fd);
    if (!f || f->inode < 0) {
        errno = EBADF;
        return MAP_FAILED;
    }
    Inode &n = O.inodes[(size_t)f->inode];
    if (flags & MAP_SYNC && (flags & 3) == MAP_SHARED_VALIDATE && !n.sync) {
        errno = EOPNOTSUPP;
        return MAP_FAILED;
    }
    if (n.chardev &&
        ((size_t)off % DAX_ALIGN || len % DAX_ALIGN ||
         (size_t)off + len > n.size || (flags & 3) == MAP_PRIVATE)) {
        errno = EINVAL;
        return MAP_FAILED;
    }
    if (fault(F_MMAP_FILE)) {
        errno = fault_errno();
        return MAP_FAILED;
    }
    // DAX file systems align big mappings like the device does
    void *p = do_map(len, n.chardev || (n.sync && len >= DAX_ALIGN) ? DAX_ALIGN : PG, prot, flags, f->inode,
                     (size_t)off, owner, (uintptr_t)hint);
    if (g_trace)
        trace("mmap(%#zx, fd %d, off %#lx) = %p", len, fd, (long)off, p);
    return p;
}
int __wrap_munmap(void *addr, size_t len) {
    if (!self())
        return __real_munmap(addr, len);
    event();
    if ((uintptr_t)addr % PG || !len) {
        errno = EINVAL;
        return -1;
    }
    int owner = O.in_os_alloc ? 0 : 1;
    if (owner && fault(F_MUNMAP)) {
        errno = fault_errno();
        return -1;
    }
    if (g_trace)
        trace("munmap(%p, %#zx)", addr, len);
    for (auto it = O.maps.lower_bound((uintptr_t)addr);
         it != O.maps.end() && it->first < (uintptr_t)addr + len; ++it)
        if (O.separate && it->second.proc != os::proc() && it->second.owner != 2)
            violate("bad-munmap", "munmap(%p, %zu) covers memory of another process", addr,
                    len);
    if (!in_arena((uintptr_t)addr) || !do_unmap((uintptr_t)addr, len))
        violate("bad-munmap",
                "munmap(%p, %zu) covers memory that is not mapped", addr, len);
    return 0;
}
int __wrap_madvise(void *addr, size_t len, int adv) {
    if (!self())
        return __real_madvise(addr, len, adv);
    event();
    O.advices.push_back({(uintptr_t)addr, len, adv, task_id()});
    if (fault(F_MADVISE)) {
        errno = fault_errno();
        return -1;
    }
    if ((uintptr_t)addr % PG) {
        errno = EINVAL;
        return -1;
    }
    if (adv != MADV_DONTNEED && adv != 8 /*MADV_FREE*/) {
        errno = EINVAL;
        return -1;
    }
    if (!os::range_mapped((uintptr_t)addr, up(len, PG), -1, false)) {
        errno = ENOMEM;
        return -1;
    }
    return __real_madvise(addr, len, adv);
}

static int open_path(const std::string &key, int flags) {
    auto it = O.paths.find(key);
    if (fault(F_OPEN)) {
        errno = EMFILE;
        return -1;
    }
    int i;
    if (it == O.paths.end()) {
        if (!(flags & O_CREAT)) {
            errno = ENOENT;
            return -1;
        }
        i = new_inode(key.c_str());
        O.inodes[(size_t)i].links = 1;
        O.paths[key] = i;
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) {
            errno = EEXIST;
            return -1;
        }
        i = it->second;
    }
    Fd f;
    f.inode = i;
    int fd = fd_alloc(f);
    if (g_trace)
        trace("open(%s) = %d", key.c_str(), fd);
    return fd;
}
int __wrap_open(const char *path, int flags, ...) {
    if (!self()) {
        va_list ap;
        va_start(ap, flags);
        int mode = va_arg(ap, int);
        va_end(ap);
        return (int)__real_syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    }
    event();
    return open_path(path, flags);
}
int __wrap_shm_open(const char *name, int flags, mode_t) {
    event();
    return open_path(std::string("shm:") + (*name == '/' ? name + 1 : name),
                     flags);
}
int __wrap_shm_unlink(const char *name) {
    event();
    std::string key = std::string("shm:") + (*name == '/' ? name + 1 : name);
    if (!O.paths.count(key)) {
        errno = ENOENT;
        return -1;
    }
    os::remove_file(key.c_str());
    return 0;
}
int __wrap_close(int fd) {
    if (!self())
        return __real_close(fd);
    event();
    Proc &p = O.procs[os::proc()];
    auto it = p.fds.find(fd);
    if (it == p.fds.end()) {
        if (fd >= 0)
            violate("double-close", "close(%d): not an open descriptor", fd);
        errno = EBADF;
        return -1;
    }
    if (g_trace)
        trace("close(%d)", fd);
    int i = it->second.inode;
    p.fds.erase(it);
    if (i >= 0) {
        O.inodes[(size_t)i].fds--;
        inode_put(i);
    }
    if (fault(F_CLOSE)) {
        errno = EIO;
        return -1;
    }
    return 0;
}
static void fill_stat(struct stat *st, int inode) {
    memset(st, 0, sizeof *st);
    Inode &n = O.inodes[(size_t)inode];
    st->st_mode = n.chardev ? (S_IFCHR | 0600) : (S_IFREG | 0600);
    st->st_size = n.chardev ? 0 : (off_t)n.size;
    st->st_ino = (ino_t)inode + 1;
    st->st_blksize = 4096;
}
int __wrap_stat(const char *path, struct stat *st) {
    if (!self())
        return (int)__real_syscall(SYS_newfstatat, AT_FDCWD, path, st, 0);
    event();
    if (fault(F_STAT)) {
        errno = EIO;
        return -1;
    }
    auto it = O.paths.find(path);
    if (it == O.paths.end()) {
        errno = ENOENT;
        return -1;
    }
    fill_stat(st, it->second);
    return 0;
}
int __wrap_fstat(int fd, struct stat *st) {
    if (!self())
        return (int)__real_syscall(SYS_fstat, fd, st);
    event();
    Fd *f = fd_get(fd);
    if (!f || f->inode < 0) {
        errno = EBADF;
        return -1;
    }
    if (fault(F_STAT)) {
        errno = EIO;
        return -1;
    }
    fill_stat(st, f->inode);
    return 0;
}
static bool disk_full(int inode, size_t size) {
    size_t used = 0;
    for (size_t i = 0; i < O.inodes.size(); i++)
        used += (int)i == inode ? size : O.inodes[i].size;
    return size > O.inodes[(size_t)inode].size && used > O.disk_limit;
}
int __wrap_ftruncate(int fd, off_t size) {
    if (!self())
        return __real_ftruncate(fd, size);
    event();
    Fd *f = fd_get(fd);
    if (!f || f->inode < 0) {
        errno = EBADF;
        return -1;
    }
    Inode &n = O.inodes[(size_t)f->inode];
    if (size < 0 || n.chardev) {
        errno = EINVAL;
        return -1;
    }
    if (fault(F_FTRUNC) || disk_full(f->inode, (size_t)size)) {
        errno = ENOSPC;
        return -1;
    }
    if (__real_ftruncate(n.real, size)) // e.g. EFBIG for an absurd size
        return -1;
    n.size = (size_t)size;
    return 0;
}
int __wrap_posix_fallocate(int fd, off_t off, off_t len) {
    if (!self())
        return __real_posix_fallocate(fd, off, len);
    event();
    Fd *f = fd_get(fd);
    if (!f || f->inode < 0)
        return EBADF;
    Inode &n = O.inodes[(size_t)f->inode];
    if (off < 0 || len <= 0)
        return EINVAL;
    if (n.chardev)
        return ENODEV;
    if (off + len < off || (size_t)(off + len) > (1ull << 46))
        return EFBIG;
    if (fault(F_FALLOC) ||
        disk_full(f->inode, (size_t)(off + len)))
        return ENOSPC;
    if ((size_t)(off + len) > n.size) {
        if (__real_ftruncate(n.real, off + len))
            return errno;
        n.size = (size_t)(off + len);
    }
    return 0;
}
long __wrap_syscall(long nr, long a, long b, long c, long d, long e, long f) {
    if (!self())
        return __real_syscall(nr, a, b, c, d, e, f);
    event();
    switch (nr) {
    case SYS_gettid:
        return 100000 + os::proc() * 100 + task_id();
    case 434: { // pidfd_open
        if (fault(F_PIDFD)) {
            errno = EPERM;
            return -1;
        }
        for (int i = 0; i < 8; i++)
            if (O.procs[i].pid == (int)a) {
                Fd x;
                x.pidfd = i;
                return fd_alloc(x);
            }
        errno = ESRCH;
        return -1;
    }
    case 438: { // pidfd_getfd
        Fd *p = fd_get((int)a);
        if (!p || p->pidfd < 0) {
            errno = EBADF;
            return -1;
        }
        if (fault(F_PIDFD)) {
            errno = EPERM;
            return -1;
        }
        auto &t = O.procs[p->pidfd].fds;
        auto it = t.find((int)b);
        if (it == t.end()) {
            errno = EBADF;
            return -1;
        }
        return fd_alloc(it->second);
    }
    case 447: // memfd_secret
        if (!O.secret_ok) {
            errno = ENOSYS;
            return -1;
        }
        /* fallthrough */
    case 319: { // memfd_create
        if (fault(F_OPEN)) {
            errno = EMFILE;
            return -1;
        }
        Fd x;
        x.inode = new_inode(nr == 447 ? "memfd_secret" : "memfd");
        return fd_alloc(x);
    }
    }
    return __real_syscall(nr, a, b, c, d, e, f);
}
int __wrap_getpid(void) {
    return self() ? O.procs[os::proc()].pid : (int)__real_syscall(SYS_getpid);
}
char *__wrap_getenv(const char *name) {
    if (!self())
        return nullptr;
    auto it = O.env.find(name);
    return it == O.env.end() ? nullptr : (char *)it->second.c_str();
}
void *__wrap_dlopen(const char *file, int mode) {
    if (!self())
        return __real_dlopen(file, mode);
    event();
    if (fault(F_DLOPEN))
        return nullptr;
    void *r = nullptr;
    if (O.dlopen_hook && O.dlopen_hook(file ? file : "", mode, &r))
        return r;
    return nullptr; // nothing else is installed in the simulated system
}
void *__wrap_dlsym(void *h, const char *name) {
    if (!self())
        return __real_dlsym(h, name);
    event();
    if (fault(F_DLOPEN)) {
        if (O.dlsym_hook)
            O.dlsym_hook(h, name, nullptr); // tells the stub it looks absent
        return nullptr;
    }
    void *r = nullptr;
    if (O.dlsym_hook && O.dlsym_hook(h, name, &r))
        return r;
    return nullptr;
}
int __wrap_dlclose(void *h) {
    if (!self())
        return __real_dlclose(h);
    event();
    if (O.dlclose_hook && O.dlclose_hook(h))
        return 0;
    violate("bad-dlclose", "dlclose of a handle that is not open");
}
char *__wrap_dlerror(void) { return (char *)"simulated loader error"; }

// ------------------------------------------------------------ metadata seam
struct OsAllocScope {
    int old;
    OsAllocScope() : old(O.in_os_alloc) { O.in_os_alloc = 1; }
    ~OsAllocScope() { O.in_os_alloc = old; }
};
void *__wrap_ba_os_alloc(size_t size) {
    InBA b;
    NoPreempt np; // the owner mark is global
    OsAllocScope s;
    return __real_ba_os_alloc(size);
}
void __wrap_ba_os_free(void *p, size_t size) {
    InBA b;
    NoPreempt np;
    OsAllocScope s;
    __real_ba_os_free(p, size);
}
void *__wrap_umf_ba_global_alloc(size_t size) {
    event();
    if (!in_ba() && fault(F_META))
        return nullptr;
    void *p;
    {
        InBA b;
        p = __real_umf_ba_global_alloc(size);
    }
    if (p && !in_ba())
        meta_add(p, size, nullptr);
    return p;
}
void *__wrap_umf_ba_global_aligned_alloc(size_t size, size_t al) {
    event();
    if (!in_ba() && fault(F_META))
        return nullptr;
    void *p;
    {
        InBA b;
        p = __real_umf_ba_global_aligned_alloc(size, al);
    }
    if (p && !in_ba()) {
        meta_add(p, size, nullptr);
        if (al && (uintptr_t)p % al)
            violate("metadata-misaligned", "%p is not aligned to %zu", p, al);
    }
    return p;
}
void __wrap_umf_ba_global_free(void *p) {
    event();
    if (p && !in_ba())
        meta_del(p, nullptr, "free");
    InBA b;
    __real_umf_ba_global_free(p);
}
size_t __wrap_umf_ba_global_malloc_usable_size(void *p) {
    InBA b;
    return __real_umf_ba_global_malloc_usable_size(p);
}
void __wrap_umf_ba_destroy_global(void) {
    InBA b;
    __real_umf_ba_destroy_global();
}
void *__wrap_umf_ba_create(size_t size) {
    void *p;
    {
        InBA b;
        p = __real_umf_ba_create(size);
    }
    if (p)
        O.bapools[p] = size;
    return p;
}
void *__wrap_umf_ba_alloc(void *pool) {
    event();
    if (!in_ba() && fault(F_META))
        return nullptr;
    if (!O.bapools.count(pool))
        violate("use-after-free", "allocation from a destroyed fixed-size "
                                  "metadata allocator %p", pool);
    void *p;
    {
        InBA b;
        p = __real_umf_ba_alloc(pool);
    }
    if (p && !in_ba())
        meta_add(p, O.bapools[pool], pool);
    return p;
}
void __wrap_umf_ba_free(void *pool, void *p) {
    event();
    if (p && !in_ba())
        meta_del(p, pool, "free");
    if (!O.bapools.count(pool))
        violate("use-after-free", "free into a destroyed fixed-size metadata "
                                  "allocator %p", pool);
    InBA b;
    __real_umf_ba_free(pool, p);
}
void __wrap_umf_ba_destroy(void *pool) {
    event();
    if (!O.bapools.erase(pool))
        violate("double-destroy", "metadata allocator %p destroyed twice",
                pool);
    for (auto it = O.meta.begin(); it != O.meta.end();)
        if (it->second.pool == pool)
            it = O.meta.erase(it);
        else
            ++it;
    InBA b;
    __real_umf_ba_destroy(pool);
}
void *__wrap_umf_ba_linear_create(size_t n) {
    InBA b;
    return __real_umf_ba_linear_create(n);
}
void *__wrap_umf_ba_linear_alloc(void *pool, size_t n) {
    event();
    if (!in_ba() && fault(F_META))
        return nullptr;
    InBA b;
    void *p = __real_umf_ba_linear_alloc(pool, n);
    if (p)
        poison(p, n, 0);
    return p;
}
int __wrap_umf_ba_linear_free(void *pool, void *p) {
    InBA b;
    return __real_umf_ba_linear_free(pool, p);
}
void __wrap_umf_ba_linear_destroy(void *pool) {
    InBA b;
    __real_umf_ba_linear_destroy(pool);
}
size_t __wrap_umf_ba_linear_pool_contains_pointer(void *pool, void *p) {
    InBA b;
    return __real_umf_ba_linear_pool_contains_pointer(pool, p);
}

// ------------------------------------------------------------ hwloc seam
int __wrap_hwloc_topology_init(hwloc_topology_t *t) {
    event();
    if (fault(F_TOPOLOGY)) {
        errno = ENOMEM;
        return -1;
    }
    int r = __real_hwloc_topology_init(t);
    if (!r)
        O.topologies++;
    return r;
}
int __wrap_hwloc_topology_load(hwloc_topology_t t) {
    event();
    if (fault(F_TOPOLOGY)) {
        errno = ENOMEM;
        return -1;
    }
    return __real_hwloc_topology_load(t);
}
void __wrap_hwloc_topology_destroy(hwloc_topology_t t) {
    event();
    O.topologies--;
    __real_hwloc_topology_destroy(t);
}
hwloc_bitmap_t __wrap_hwloc_bitmap_alloc(void) {
    event();
    if (fault(F_META))
        return nullptr;
    hwloc_bitmap_t b = __real_hwloc_bitmap_alloc();
    O.bitmaps += b != nullptr;
    return b;
}
hwloc_bitmap_t __wrap_hwloc_bitmap_dup(hwloc_const_bitmap_t s) {
    event();
    if (fault(F_META))
        return nullptr;
    hwloc_bitmap_t b = __real_hwloc_bitmap_dup(s);
    O.bitmaps += b != nullptr;
    return b;
}
void __wrap_hwloc_bitmap_free(hwloc_bitmap_t b) {
    event();
    if (b)
        O.bitmaps--;
    __real_hwloc_bitmap_free(b);
}
int __wrap_hwloc_set_area_membind(hwloc_topology_t, const void *addr,
                                  size_t len, hwloc_const_bitmap_t set,
                                  hwloc_membind_policy_t policy, int flags) {
    event();
    if (fault(F_MEMBIND)) {
        errno = EXDEV;
        return -1;
    }
    if (!len)
        return 0;
    os::Bind b;
    b.seq = now();
    b.addr = (uintptr_t)addr;
    b.len = len;
    b.policy = (int)policy;
    b.flags = (unsigned)flags;
    b.task = task_id();
    int i;
    for (i = hwloc_bitmap_first(set); i >= 0; i = hwloc_bitmap_next(set, i))
        b.nodes.push_back((unsigned)i);
    if (!os::range_mapped(b.addr, b.len, -1, false))
        violate("bind-unmapped",
                "NUMA binding of a range that is not mapped: %p+%zu", addr,
                len);
    O.binds.push_back(b);
    if (O.bind_missing) {
        errno = ENOSYS;
        return -1;
    }
    return 0;
}
int __wrap_hwloc_memattr_get_value(hwloc_topology_t t, hwloc_memattr_id_t id,
                                   hwloc_obj_t target,
                                   struct hwloc_location *init,
                                   unsigned long flags, hwloc_uint64_t *value) {
    event();
    if (fault(F_TOPOLOGY)) {
        errno = EINVAL;
        return -1;
    }
    if (O.memattr) {
        uint64_t v;
        unsigned ini = init ? (unsigned)hwloc_bitmap_first(
                                  init->type == HWLOC_LOCATION_TYPE_CPUSET
                                      ? init->location.cpuset
                                      : init->location.object->cpuset)
                            : 0;
        if (O.memattr((int)id, target->os_index, ini, flags, &v)) {
            *value = v;
            return 0;
        }
        errno = EINVAL;
        return -1;
    }
    return __real_hwloc_memattr_get_value(t, id, target, init, flags, value);
}
} // extern "C"
