#!/usr/bin/env python3
"""Builds the simulator and /repo's sources (instrumented) into .build/.

Objects are cached by content (source, every header, flags), never by time
stamp, so the result always reflects /repo's current working tree."""
import fcntl, glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("UMF_REPO", "/repo")
OUT = os.path.join(HERE, ".build")
OBJ = os.path.join(OUT, "obj")
INC = [REPO + "/include", REPO + "/src"] + sorted(
    d for d in glob.glob(REPO + "/src/*") if os.path.isdir(d)) + [
    "/usr/include/level_zero"]
DEFS = ["-DUMF_NO_CUDA_PROVIDER=1", "-DUMF_VERSION=0.11.0-sim",
        '-DUMF_ALL_CMAKE_VARIABLES="sim"']
CC = ["clang", "-std=gnu11", "-g1", "-O1", "-fPIC", "-fsanitize=thread",
      "-fstack-protector-strong", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-w"]
CXX = ["clang++", "-std=c++17", "-g1", "-O1", "-fPIC", "-Wall", "-Wno-unused-function"]
SKIP = ("windows", "macosx")
WRAPS = """mmap munmap madvise open close fstat stat ftruncate posix_fallocate
shm_open shm_unlink syscall getpid getenv dlopen dlsym dlclose dlerror
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock
pthread_mutex_unlock pthread_rwlock_init pthread_rwlock_destroy
pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once
sched_yield __assert_fail abort exit __stack_chk_fail
fopen fclose fputs fwrite fputc putc fflush fprintf vfprintf vprintf printf puts
putchar time gettimeofday clock_gettime
hwloc_topology_init hwloc_topology_load hwloc_topology_destroy
hwloc_bitmap_alloc hwloc_bitmap_dup hwloc_bitmap_free hwloc_set_area_membind
hwloc_memattr_get_value""".split()
META_WRAPS = """ba_os_alloc ba_os_free umf_ba_global_alloc
umf_ba_global_aligned_alloc umf_ba_global_free umf_ba_global_malloc_usable_size
umf_ba_destroy_global umf_ba_create umf_ba_alloc umf_ba_free umf_ba_destroy
umf_ba_linear_create umf_ba_linear_alloc umf_ba_linear_free umf_ba_linear_destroy
umf_ba_linear_pool_contains_pointer""".split()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace"))
    return r.returncode == 0


def main():
    os.makedirs(OBJ, exist_ok=True)
    lock = open(os.path.join(OUT, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    headers = sorted(glob.glob(REPO + "/include/**/*", recursive=True) +
                     glob.glob(REPO + "/src/**/*.h", recursive=True))
    hh = sha(*[x for p in headers if os.path.isfile(p) for x in (p, read(p))])
    sh = sha(*[x for p in sorted(glob.glob(HERE + "/sim/*.h") + glob.glob(HERE + "/scen/*.h"))
               for x in (p, read(p))])
    inc = ["-I" + d for d in INC]
    jobs = []  # (cmd, obj)

    def add(src, cmd, extra):
        name = os.path.relpath(src, "/").replace("/", "_")
        obj = os.path.join(OBJ, "%s-%s.o" % (name, sha(read(src), " ".join(cmd), extra)))
        jobs.append((cmd + ["-c", src, "-o", obj], obj))
        return obj

    umf, proxy, simo = [], [], []
    for src in sorted(glob.glob(REPO + "/src/**/*.c", recursive=True)):
        b = os.path.basename(src)
        if any(s in b for s in SKIP):
            continue
        cmd = CC + DEFS + inc
        if "/proxy_lib/" in src:
            # the C library names it replaces get a prefix of their own
            if b == "proxy_lib_linux.c":
                # no automatic start: the simulator calls it
                cmd = cmd + ["-D__attribute__(x)="]
            proxy.append(add(src, cmd + ["-DPROXY_LIB_USES_SCALABLE_POOL=1", "-include",
                                         HERE + "/sim/proxy_names.h"], hh + sh))
            continue
        if b == "libumf_linux.c":
            # no automatic initialisation: the simulator calls umfInit itself
            cmd = cmd + ["-D__attribute__(x)="]
        umf.append(add(src, cmd, hh))
    for src in sorted(glob.glob(HERE + "/sim/*.cpp") + glob.glob(HERE + "/scen/*.cpp")):
        simo.append(add(src, CXX + ["-I" + HERE + "/sim", "-I" + HERE + "/scen"] + DEFS + inc, hh + sh))

    todo = [j for j in jobs if not os.path.exists(j[1])]

    def build(j):
        cmd, obj = j
        tmp = obj + ".tmp"
        c = cmd[:-1] + [tmp]
        if not run(c):
            return False
        os.rename(tmp, obj)
        return True

    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        if not all(list(ex.map(build, todo))):
            return 2
    keep = set(o for _, o in jobs)
    for o in glob.glob(OBJ + "/*"):
        if o not in keep and not o.endswith(".so"):
            os.unlink(o)
    exe = os.path.join(OUT, "umfsim")
    wl = ["-Wl,--wrap=" + w for w in WRAPS + META_WRAPS]
    link = ["clang++", "-no-pie", "-o", exe + ".tmp"] + simo + umf + proxy + wl + [
        "-Wl,--dynamic-list=" + HERE + "/sim/exports.list",
        "-lhwloc", "-lpthread", "-ldl", "-lm"]
    key = sha(" ".join(link), read(HERE + "/sim/exports.list"))
    stamp = os.path.join(OUT, "link.key")
    if not os.path.exists(exe) or not os.path.exists(stamp) or read(stamp).decode() != key:
        if not run(link):
            return 2
        os.rename(exe + ".tmp", exe)
        with open(stamp, "w") as f:
            f.write(key)
    # a second image of the library, loaded several times as separate processes
    so = os.path.join(OUT, "libumfsim.so")
    link = ["clang", "-shared", "-o", so + ".tmp"] + umf + [
        "-Wl,--wrap=" + w for w in WRAPS + ["ba_os_alloc", "ba_os_free"]] + ["-Wl,-Bsymbolic", "-lhwloc"]
    key = sha(" ".join(link))
    stamp = os.path.join(OUT, "so.key")
    if not os.path.exists(so) or not os.path.exists(stamp) or read(stamp).decode() != key:
        if not run(link):
            return 2
        os.rename(so + ".tmp", so)
        with open(stamp, "w") as f:
            f.write(key)
    return 0


sys.exit(main())
