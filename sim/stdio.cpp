// The C library's streams and wall clock, as the library sees them.
#include "internal.h"
#include <errno.h>
#include <stdarg.h>
#include <sys/time.h>
#include <time.h>

extern "C" {
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);
int __real_fputs(const char *, FILE *);
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
int __real_fputc(int, FILE *);
int __real_putc(int, FILE *);
int __real_puts(const char *);
int __real_putchar(int);
int __real_fflush(FILE *);
int __real_vfprintf(FILE *, const char *, va_list);
int __real_vprintf(const char *, va_list);
time_t __real_time(time_t *);
int __real_gettimeofday(struct timeval *, void *);
int __real_clock_gettime(clockid_t, struct timespec *);
}

namespace sim {
namespace io {
static std::map<std::string, Stream> &S() {
    static auto *m = new std::map<std::string, Stream>;
    return *m;
}
static bool installed = false, clobber = false;
static std::vector<std::string> prefixes;
static int64_t clk = 1700000000, clk_step = 0;
static bool clk_jumps = false;
static std::map<int, std::vector<int64_t>> seen;

static ssize_t on_write(void *cookie, const char *buf, size_t n) {
    Stream &s = *(Stream *)cookie;
    s.writes++;
    if (fault(F_WRITE)) {
        // none or a part of it reaches the file
        s.failed = true;
        size_t k = n > 1 && addr_rand() % 2 ? addr_rand() % n : 0;
        s.data.append(buf, k);
        errno = ENOSPC;
        return (ssize_t)k;
    }
    s.data.append(buf, n);
    if (clobber && self() && addr_rand() % 2)
        errno = ENOTTY;
    return (ssize_t)n;
}
static int on_close(void *cookie) {
    ((Stream *)cookie)->open_now--;
    return 0;
}
// a reader of its own position; the file may change under it
struct Reader {
    Stream *s;
    off64_t pos = 0;
};
static ssize_t on_read(void *cookie, char *buf, size_t n) {
    Reader &r = *(Reader *)cookie;
    event();
    if (fault(F_READ)) {
        errno = EIO;
        return -1;
    }
    r.s->reads++;
    size_t left = (size_t)r.pos < r.s->data.size() ? r.s->data.size() - (size_t)r.pos : 0;
    if (n > left)
        n = left;
    if (n > 1 && addr_rand() % 4 == 0) // a short read
        n = 1 + addr_rand() % (n - 1);
    memcpy(buf, r.s->data.data() + r.pos, n);
    r.pos += (off64_t)n;
    return (ssize_t)n;
}
static int on_seek(void *cookie, off64_t *o, int whence) {
    Reader &r = *(Reader *)cookie;
    event();
    if (fault(F_STAT) || r.s->no_seek) {
        errno = ESPIPE;
        return -1;
    }
    off64_t p = *o + (whence == SEEK_END   ? (off64_t)r.s->data.size()
                      : whence == SEEK_CUR ? r.pos
                                           : 0);
    if (p < 0) {
        errno = EINVAL;
        return -1;
    }
    *o = r.pos = p;
    return 0;
}
static int on_close_reader(void *cookie) {
    Reader *r = (Reader *)cookie;
    r->s->open_now--;
    delete r;
    return 0;
}
static FILE *make_reader(Stream *s) {
    Unchecked u;
    cookie_io_functions_t f = {};
    f.read = on_read;
    f.seek = on_seek;
    f.close = on_close_reader;
    FILE *x = fopencookie(new Reader{s}, "r", f);
    if (!x)
        harness_error("fopencookie");
    s->open_now++;
    s->opens++;
    return x;
}
static FILE *make(Stream *s) {
    cookie_io_functions_t f = {};
    f.write = on_write;
    f.close = on_close;
    FILE *x = fopencookie(s, "a", f);
    if (!x)
        harness_error("fopencookie");
    s->exists = true;
    s->open_now++;
    s->opens++;
    return x;
}
void install(int mode) {
    if (installed)
        return;
    stdout = make(&S()["<stdout>"]);
    stderr = make(&S()["<stderr>"]);
    setvbuf(stdout, nullptr, mode == 0 ? _IONBF : mode == 1 ? _IOLBF : _IOFBF, 0);
    setvbuf(stderr, nullptr, _IONBF, 0);
    installed = true;
}
void serve(const char *p) { prefixes.push_back(p); }
static bool served(const char *path) {
    for (auto &p : prefixes)
        if (!p.empty() && !strncmp(path, p.c_str(), p.size()))
            return true;
    return false;
}
Stream &stream(const std::string &n) { return S()[n]; }
std::map<std::string, Stream> &streams() { return S(); }
void clobber_errno(bool on) { clobber = on; }
void set_clock(int64_t now, int64_t step, bool jumps) {
    clk = now;
    clk_step = step;
    clk_jumps = jumps;
}
std::vector<int64_t> clock_values() {
    auto v = seen[task_id()];
    seen[task_id()].clear();
    return v;
}
static int64_t tick() {
    if (clk_step)
        clk += (int64_t)(addr_rand() % (uint64_t)(clk_step + 1));
    if (clk_jumps && addr_rand() % 16 == 0)
        clk += (int64_t)(addr_rand() % 20000000) - 10000000;
    if (clk < 0)
        clk = 1;
    seen[task_id()].push_back(clk);
    return clk;
}
static bool live() { return self() && !unchecked() && installed; }
} // namespace io
} // namespace sim
using namespace sim;

extern "C" {
FILE *__wrap_fopen(const char *path, const char *mode) {
    if (!io::live() || !io::served(path))
        return __real_fopen(path, mode);
    event();
    if (fault(F_OPEN)) {
        errno = EMFILE;
        return nullptr;
    }
    if (path[strlen(path) - 1] == '/' || strstr(path, "/missing/")) {
        errno = ENOENT;
        return nullptr;
    }
    if (mode[0] == 'r' && !strchr(mode, '+')) {
        auto it = io::S().find(path);
        if (it == io::S().end() || !it->second.exists) {
            errno = ENOENT;
            return nullptr;
        }
        trace("fopen %s %s", path, mode);
        return io::make_reader(&it->second);
    }
    io::Stream &s = io::S()[path];
    if (mode[0] == 'w')
        s.data.clear();
    else if (mode[0] != 'a' || strchr(mode, 'x'))
        harness_error("fopen mode %s", mode);
    trace("fopen %s %s", path, mode);
    return io::make(&s);
}
int __wrap_fclose(FILE *f) {
    if (io::live())
        event();
    return __real_fclose(f);
}
// the simulator's own trace is not an event
#define PASS(RET, NAME, PARAMS, ARGS, F)                                       \
    RET __wrap_##NAME PARAMS {                                                 \
        if (io::live() && F != g_err)                                          \
            event();                                                           \
        return __real_##NAME ARGS;                                             \
    }
PASS(int, fputs, (const char *s, FILE *f), (s, f), f)
PASS(size_t, fwrite, (const void *p, size_t a, size_t b, FILE *f), (p, a, b, f), f)
PASS(int, fputc, (int c, FILE *f), (c, f), f)
PASS(int, putc, (int c, FILE *f), (c, f), f)
PASS(int, puts, (const char *s), (s), stdout)
PASS(int, putchar, (int c), (c), stdout)
PASS(int, fflush, (FILE *f), (f), f)
PASS(int, vfprintf, (FILE *f, const char *s, va_list a), (f, s, a), f)
PASS(int, vprintf, (const char *s, va_list a), (s, a), stdout)
int __wrap_fprintf(FILE *f, const char *s, ...) {
    va_list a;
    va_start(a, s);
    int r = __wrap_vfprintf(f, s, a);
    va_end(a);
    return r;
}
int __wrap_printf(const char *s, ...) {
    va_list a;
    va_start(a, s);
    int r = __wrap_vprintf(s, a);
    va_end(a);
    return r;
}
time_t __wrap_time(time_t *t) {
    if (!io::live())
        return __real_time(t);
    event();
    time_t v = (time_t)io::tick();
    if (t)
        *t = v;
    return v;
}
int __wrap_gettimeofday(struct timeval *tv, void *z) {
    if (!io::live())
        return __real_gettimeofday(tv, z);
    event();
    tv->tv_sec = (time_t)io::tick();
    tv->tv_usec = 0;
    return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
    if (!io::live() || (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE))
        return __real_clock_gettime(c, ts);
    event();
    ts->tv_sec = (time_t)io::tick();
    ts->tv_nsec = 0;
    return 0;
}
void __wrap___stack_chk_fail(void) {
    violate("stack-overflow", "a buffer on the stack was overrun");
}
}
