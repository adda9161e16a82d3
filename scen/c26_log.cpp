// C26: the log. Messages at or above the configured level appear exactly once,
// whole, in order and in the documented form; nothing else does.
#include "common.h"
#include "utils_log.h"
#undef LOG_DEBUG
#undef LOG_INFO
#undef LOG_FATAL
#include <algorithm>
#include <errno.h>
#include <sys/stat.h>
#include <time.h>
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_proxy.h>
#include <umf/pools/pool_scalable.h>
#include <umf/providers/provider_devdax_memory.h>
#include <umf/providers/provider_file_memory.h>
#include <umf/providers/provider_os_memory.h>
using namespace simx;
namespace {
enum { LOGM, PLOGM, CYCLE, HOLD, DROP, API, NOPS };
const char *const level_name[] = {"debug", "info", "warning", "error", "fatal"};
const char *const level_str[] = {"DEBUG", "INFO ", "WARN ", "ERROR", "FATAL"};
const char *const funcs[] = {"f", "umfPoolMalloc", "a_function_with_quite_a_long_name_as_C_allows",
                             "utils_mmap"};
const int errnos[] = {0, ENOMEM, EINVAL, ENOSPC, EBADF, EINTR, 4242, -1, ENOSYS};
struct Msg {
    int task, level;
    std::string body;   // "func: text[: error]"
    std::string token;  // appears in this message only
    std::string pidtid; // what the pid option adds
    std::vector<int64_t> times;
    size_t cut; // longest part that must be present when truncated
    bool faulty;
    bool hit = false;
};
struct Line {
    size_t pos;
    std::string text;
};
struct Log : Scenario {
    int level = 3, flush = 3, ts = 0, pid = 0, out = 0;
    // out: 0 none (UMF_LOG not set), 1 stdout, 2 stderr, 3 file, 4 disabled
    std::string env, path, prior;
    std::vector<Msg> msgs;
    std::map<int, int> refs; // per task
    uint64_t next = 0;
    bool hold_main = false;
    bool open_fault = false;
    Baseline base;
    const char *op_name(uint32_t c) override {
        static const char *n[] = {"log", "plog", "init_cycle", "init", "teardown", "api"};
        return n[c % NOPS];
    }
    const char *real_parts() override {
        return "utils_log, utils_common (UMF_LOG), libumf, providers and pools as "
               "sources of messages; the C library's streams and their buffering";
    }
    const char *stub_parts() override {
        return "files behind the streams, environment, wall clock, thread ids";
    }
    void generate(Rng &r, Program &p, bool thorough) override {
        p.cfg["set"] = r.chance(9, 10);
        p.cfg["out"] = r.chance(1, 2) ? 3 : (int64_t)r.below(8);
        p.cfg["level"] = (int64_t)r.below(7); // 5: not given, 6: invalid
        p.cfg["flush"] = (int64_t)r.below(7);
        p.cfg["ts"] = (int64_t)r.below(4);
        p.cfg["pid"] = (int64_t)r.below(4);
        p.cfg["order"] = (int64_t)r.below(120);
        p.cfg["name"] = (int64_t)r.below(8);
        p.cfg["buf"] = (int64_t)r.below(3);
        p.cfg["prior"] = (int64_t)r.below(2);
        p.cfg["clobber"] = (int64_t)r.below(2);
        p.cfg["clkstep"] = (int64_t)r.below(3);
        p.cfg["hold"] = (int64_t)r.below(2);
        int nt = (int)r.range(1, 4), k = (int)r.range(2, thorough ? 24 : 12);
        int cyc = r.chance(1, 3) ? 40 : 10;
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < k; i++) {
                int x = (int)r.below(100), c;
                if (x < cyc)
                    c = (int)r.range(CYCLE, DROP);
                else if (x < cyc + 15)
                    c = API;
                else
                    c = r.chance(1, 3) ? PLOGM : LOGM;
                int64_t len;
                switch (r.below(9)) {
                case 8: len = -r.range(1, 8); break; // fills the buffer exactly
                case 0: len = r.range(8100, 8300); break;
                case 1: len = r.range(8180, 8192); break;
                case 2: len = r.range(300, 20000); break;
                case 3: len = r.range(100, 600); break;
                default: len = r.range(0, 60);
                }
                p.add((uint32_t)t, (uint32_t)c, (int64_t)r.below(5), len,
                      (int64_t)r.below(4), (int64_t)r.below(9), (int64_t)r.next() & 0xffff);
            }
        if (r.chance(1, 3))
            pick_faults(r, p, {F_WRITE, F_OPEN, F_MMAP, F_META, F_CLOSE, F_MUNMAP}, 100);
    }
    void setup(const Program &p) override {
        setenv("TZ", "XYZ-5:30", 1); // the zone of the timestamps
        tzset();
        io::install((int)p.get("buf"));
        io::serve("/log/");
        io::set_clock(1600000000 + (p.get("name") * 7777777), p.get("clkstep"),
                      p.get("clkstep") == 2);
        io::clobber_errno(p.get("clobber"));
        std::string opt[5];
        int n = 0, l = (int)p.get("level"), o = (int)p.get("out");
        if (l < 5)
            opt[n++] = std::string("level:") + level_name[level = l];
        else if (l == 6)
            opt[n++] = "level:verbose";
        l = (int)p.get("flush");
        if (l < 5)
            opt[n++] = std::string("flush:") + level_name[flush = l];
        else if (l == 6)
            opt[n++] = "flush:always";
        l = (int)p.get("ts");
        if (l < 2)
            opt[n++] = l ? "timestamp:yes" : "timestamp:no", ts = l;
        else if (l == 3)
            opt[n++] = "timestamp:1";
        l = (int)p.get("pid");
        if (l < 2)
            opt[n++] = l ? "pid:yes" : "pid:no", pid = l;
        else if (l == 3)
            opt[n++] = "pid:1";
        static const char *const names[] = {
            "/log/umf.log", "/log/a b,c.log", "/log/level:info/pid:no/x",
            "/log/output:stderr/umf", "/log/timestamp:yes", "/log/u", "", ""};
        path = names[p.get("name") & 7];
        if (path.empty())
            path = "/log/" + std::string(p.get("name") == 6 ? 250 : 300, 'n');
        switch (o) {
        case 0: opt[n++] = "output:stdout"; out = 1; break;
        case 1: opt[n++] = "output:stderr"; out = 2; break;
        case 2: out = 4; break;
        case 4: opt[n++] = "output:none"; out = 4; break;
        case 5: opt[n++] = "output:file"; out = 4; break;
        case 6: opt[n++] = "output:file,/log/missing/x"; out = 4; break;
        default:
            opt[n++] = "output:file," + path;
            out = path.size() <= 255 ? 3 : 4;
        }
        uint64_t ord = (uint64_t)p.get("order");
        for (int i = n; i > 1; i--) {
            std::swap(opt[i - 1], opt[ord % (uint64_t)i]);
            ord /= (uint64_t)i;
        }
        for (int i = 0; i < n; i++)
            env += (i ? ";" : "") + opt[i];
        if (!p.get("set"))
            out = 0;
        if (out == 0 || out == 4)
            level = 4, flush = 3, ts = pid = 0; // only fatal messages
        if (out == 3 && p.get("prior")) {
            prior = "a line of an earlier process\n";
            io::stream(path).data = prior;
            io::stream(path).exists = true;
        }
        os::set_env("UMF_LOG", out ? env.c_str() : nullptr);
        trace("UMF_LOG=\"%s\"", out ? env.c_str() : "");
        lib_init();
        hold_main = p.get("hold");
        if (!hold_main)
            umfTearDown();
        check_streams();
    }
    std::string dest_name() {
        return out == 1 ? "<stdout>" : out == 3 ? path : "<stderr>";
    }
    void check_streams() {
        for (auto &s : io::streams())
            if (s.second.open_now > 1)
                violate("log-file-leak", "the log file is open %d times", s.second.open_now);
    }
    void log(const Op &op) {
        int lv = (int)(op.a[0] % 5);
        // the library is in use while it logs
        if (!hold_main && !refs[task_id()]) {
            if (umfInit())
                return;
            refs[task_id()]++;
        }
        const char *fn = funcs[op.a[2] & 3];
        size_t len = (size_t)op.a[1];
        bool plog = op.code % NOPS == PLOGM;
        int e = errnos[op.a[3] % 9];
        char eb[256];
        std::string tail = plog ? ": " + std::string(strerror_r(e, eb, sizeof eb)) : "";
        if (op.a[1] < 0)
            len = (size_t)(8196 + op.a[1]) - strlen(fn) - 2 - tail.size();
        if (len > 30000)
            len = 30000;
        char tok[32];
        snprintf(tok, sizeof tok, "<%lu>", (unsigned long)++next);
        std::string text = tok;
        for (size_t i = 0; text.size() < len; i++)
            text += (char)('a' + (op.a[4] + (int64_t)i * 7) % 26);
        Msg m;
        m.task = task_id();
        m.level = lv;
        m.token = tok;
        m.body = std::string(fn) + ": " + text;
        m.body += tail;
        m.cut = 8000;
        char pt[80];
        snprintf(pt, sizeof pt, "PID:%-6lu TID:%-6lu ",
                 (unsigned long)os::pid_of(os::proc()),
                 (unsigned long)(100000 + os::proc() * 100 + task_id()));
        m.pidtid = pt;
        io::clock_values();
        uint64_t f0 = faults_fired_kind(F_WRITE);
        int set = plog ? e : errnos[(op.a[4] >> 3) % 9];
        errno = set;
        auto fnp = plog ? utils_plog : utils_log;
        if (op.a[4] & 1)
            fnp((utils_log_level_t)lv, fn, "%s", text.c_str());
        else if (len < 600)
            fnp((utils_log_level_t)lv, fn, text.c_str());
        else
            fnp((utils_log_level_t)lv, fn, "%.*s%s", 300, text.c_str(), text.c_str() + 300);
        int got = errno;
        if (got != set)
            violate("log-changes-errno", "errno was %d before a message was logged and is "
                    "%d afterwards", set, got);
        m.times = io::clock_values();
        m.faulty = faults_fired_kind(F_WRITE) != f0;
        io::Stream &d = io::stream(dest_name());
        bool due = lv >= level;
        if (due && lv >= flush && !d.failed && !open_fault && !fopen_failed() &&
            d.data.find(m.token) == std::string::npos)
            violate("log-not-flushed", "a message of level %s is not written yet when the call "
                    "returns (flush level %s)", level_name[lv], level_name[flush]);
        if (due && lv >= flush)
            probe("flushed message");
        if (m.body.size() > 8191)
            probe("message longer than the buffer");
        msgs.push_back(m);
    }
    bool fopen_failed() { return faults_fired_kind(F_OPEN) != 0; }
    // calls that have something to log
    void api(const Op &op) {
        umf_memory_provider_handle_t h = nullptr;
        umf_memory_pool_handle_t q = nullptr;
        void *x = nullptr;
        switch (op.a[4] % 7) {
        case 0: {
            umf_os_memory_provider_params_handle_t pp = nullptr;
            if (umfOsMemoryProviderParamsCreate(&pp))
                break;
            if (!umfMemoryProviderCreate(umfOsMemoryProviderOps(), pp, &h)) {
                if (!umfMemoryProviderAlloc(h, 4096, 0, &x))
                    umfMemoryProviderFree(h, x, 4096);
                umfMemoryProviderAlloc(h, 4096, 3, &x);
                umfMemoryProviderDestroy(h);
            }
            umfOsMemoryProviderParamsDestroy(pp);
            break;
        }
        case 1: {
            umf_file_memory_provider_params_handle_t pp = nullptr;
            umfFileMemoryProviderParamsCreate(&pp, "/missing/dir/file");
            if (pp) {
                if (!umfMemoryProviderCreate(umfFileMemoryProviderOps(), pp, &h))
                    umfMemoryProviderDestroy(h);
                umfFileMemoryProviderParamsDestroy(pp);
            }
            break;
        }
        case 2: umfPoolCreate(nullptr, nullptr, nullptr, 0, &q); break;
        case 3: umfPoolByPtr((void *)0x1000); break;
        case 4: {
            umf_disjoint_pool_params_handle_t dp = nullptr;
            if (!umfDisjointPoolParamsCreate(&dp)) {
                umfDisjointPoolParamsSetMinBucketSize(dp, 3);
                umfDisjointPoolParamsDestroy(dp);
            }
            break;
        }
        case 5: umfOsMemoryProviderParamsSetShmName(nullptr, "x"); break;
        default: {
            umf_os_memory_provider_params_handle_t pp = nullptr;
            if (umfOsMemoryProviderParamsCreate(&pp))
                break;
            if (!umfMemoryProviderCreate(umfOsMemoryProviderOps(), pp, &h)) {
                if (!umfPoolCreate(umfProxyPoolOps(), h, nullptr,
                                   UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &q)) {
                    x = umfPoolMalloc(q, 100);
                    if (x)
                        umfPoolFree(q, x);
                    umfFree((void *)0x1000);
                    umfPoolDestroy(q);
                } else
                    umfMemoryProviderDestroy(h);
            }
            umfOsMemoryProviderParamsDestroy(pp);
        }
        }
    }
    void exec(const Op &op) override {
        int t = task_id();
        if (fopen_failed())
            open_fault = true;
        switch (op.code % NOPS) {
        case LOGM:
        case PLOGM: log(op); break;
        case CYCLE:
            if (!umfInit())
                umfTearDown();
            break;
        case HOLD:
            if (refs[t] < 3 && !umfInit())
                refs[t]++;
            break;
        case DROP:
            if (refs[t]) {
                refs[t]--;
                umfTearDown();
            }
            break;
        case API:
            if (!umfInit()) {
                api(op);
                umfTearDown();
            }
        }
        check_streams();
    }
    static bool digits(const std::string &s, size_t at, size_t n) {
        for (size_t i = 0; i < n; i++)
            if (at + i >= s.size() || s[at + i] < '0' || s[at + i] > '9')
                return false;
        return true;
    }
    // length of the header of a line, 0 if it has none; level: set
    size_t header(const std::string &s, bool wts, bool wpid, int *lv, std::string *tsv,
                  std::string *pv) {
        size_t i = 0;
        if (s.empty() || s[i++] != '[')
            return 0;
        if (wts) { // 2024-01-02T03:04:05
            if (!(digits(s, i, 4) && s[i + 4] == '-' && digits(s, i + 5, 2) &&
                  s[i + 7] == '-' && digits(s, i + 8, 2) && s[i + 10] == 'T' &&
                  digits(s, i + 11, 2) && s[i + 13] == ':' && digits(s, i + 14, 2) &&
                  s[i + 16] == ':' && digits(s, i + 17, 2) && s[i + 19] == ' '))
                return 0;
            *tsv = s.substr(i, 20);
            i += 20;
        }
        if (wpid) {
            size_t j = i;
            if (s.compare(i, 4, "PID:"))
                return 0;
            i += 4;
            while (i < s.size() && s[i] != 'T')
                i++;
            if (s.compare(i, 4, "TID:"))
                return 0;
            i += 4;
            while (digits(s, i, 1))
                i++;
            while (i < s.size() && s[i] == ' ')
                i++;
            *pv = s.substr(j, i - j);
        }
        for (int l = 0; l < 5; l++)
            if (!s.compare(i, 5, level_str[l])) {
                *lv = l;
                i += 5;
                if (s.compare(i, 6, " UMF] "))
                    return 0;
                return i + 6;
            }
        return 0;
    }
    static std::string stamp(int64_t v) {
        time_t t = (time_t)v;
        struct tm tm;
        localtime_r(&t, &tm);
        char b[64];
        strftime(b, sizeof b, "%Y-%m-%dT%H:%M:%S ", &tm);
        return b;
    }
    void finish() override {
        for (auto &r : refs)
            while (r.second-- > 0)
                umfTearDown();
        if (hold_main)
            umfTearDown();
        // what is still buffered reaches the files when the process ends
        { fflush(nullptr); }
        check_streams();
        bool any_failed = open_fault || fopen_failed();
        for (auto &s : io::streams())
            any_failed |= s.second.failed;
        std::map<std::string, Msg *> by_token;
        for (auto &m : msgs)
            by_token[m.token] = &m;
        for (auto &st : io::streams()) {
            const std::string &name = st.first;
            std::string d = st.second.data;
            bool dest = name == dest_name();
            if (name == path && !prior.empty()) {
                if (d.compare(0, prior.size(), prior))
                    violate("log-overwritten", "what the log file contained before is gone");
                d = d.substr(prior.size());
            }
            if (!dest && !d.empty() && name != "<stderr>" && !any_failed)
                violate("log-wrong-output", "something was written to %s with UMF_LOG=\"%s\"",
                        name.c_str(), out ? env.c_str() : "");
            if (st.second.failed)
                continue; // lines can be lost or cut
            std::map<int, uint64_t> last;
            size_t i = 0, ln = 0;
            while (i < d.size()) {
                size_t e = d.find('\n', i);
                if (e == std::string::npos)
                    violate("log-line-cut", "the log ends in the middle of a line");
                std::string s = d.substr(i, e - i);
                i = e + 1;
                ln++;
                int lv = -1;
                std::string tsv, pv;
                size_t h = header(s, ts, pid, &lv, &tsv, &pv);
                bool plain = false;
                if (!h && (any_failed || !dest)) {
                    h = header(s, false, false, &lv, &tsv, &pv);
                    plain = true;
                }
                if (!h)
                    violate("log-malformed", "line %zu of %s does not have the documented form: "
                            "\"%.200s\"", ln, name.c_str(), s.c_str());
                size_t a = s.find('<', h), b = a == std::string::npos ? a : s.find('>', a);
                Msg *m = nullptr;
                if (b != std::string::npos) {
                    auto it = by_token.find(s.substr(a, b - a + 1));
                    if (it != by_token.end())
                        m = it->second;
                }
                if (!m) {
                    // a message of the library itself
                    if (!dest && !any_failed && !(name == "<stderr>" && lv >= 3))
                        violate("log-wrong-output", "\"%.200s\" was written to %s", s.c_str(),
                                name.c_str());
                    if (dest && lv < level && !any_failed && out != 0 && out != 4)
                        violate("log-below-level", "\"%.200s\" with level %s", s.c_str(),
                                level_name[level]);
                    if ((out == 0 || out == 4) && lv < (out == 4 ? 3 : 4))
                        violate("log-below-level", "\"%.200s\" although logging is off",
                                s.c_str());
                    continue;
                }
                if (!dest && !any_failed)
                    violate("log-wrong-output", "\"%.200s\" was written to %s instead of %s",
                            s.c_str(), name.c_str(), dest_name().c_str());
                if (m->hit)
                    violate("log-twice", "\"%.200s\" was logged twice", s.c_str());
                m->hit = true;
                if (lv != m->level)
                    violate("log-malformed", "\"%.200s\" was logged at level %s", s.c_str(),
                            level_name[m->level]);
                if (lv < (any_failed ? 0 : level))
                    violate("log-below-level", "\"%.200s\" with level %s", s.c_str(),
                            level_name[level]);
                if (pid && !plain && pv != m->pidtid)
                    violate("log-malformed", "\"%.120s\" names another process or thread "
                            "(expected \"%s\")", s.c_str(), m->pidtid.c_str());
                if (ts && !plain && !m->times.empty()) {
                    bool ok = false;
                    for (auto v : m->times)
                        ok |= stamp(v) == tsv;
                    if (!ok)
                        violate("log-malformed", "\"%.120s\" has a time the clock did not show "
                                "during the call", s.c_str());
                }
                std::string body = s.substr(h);
                if (body != m->body) {
                    static const std::string tr = "[truncated...]";
                    size_t k = body.size() < tr.size() ? 0 : body.size() - tr.size();
                    if (m->body.size() < m->cut || body.compare(k, tr.size(), tr) ||
                        k < m->cut || k > m->body.size() || body.compare(0, k, m->body, 0, k))
                        violate("log-garbled",
                                "a message of %zu characters was logged as \"%.80s...%s\" "
                                "(%zu characters)", m->body.size(), body.c_str(),
                                body.size() > 60 ? body.c_str() + body.size() - 60 : "",
                                body.size());
                    probe("truncated message");
                }
                uint64_t id = strtoull(m->token.c_str() + 1, nullptr, 10);
                if (id < last[m->task] && !any_failed)
                    violate("log-reordered", "messages of thread %d are out of order", m->task);
                last[m->task] = id;
            }
        }
        if (any_failed)
            return;
        for (auto &m : msgs)
            if (m.level >= level && !m.hit)
                violate("log-lost", "\"%.100s\" (level %s) is not in the log "
                        "(UMF_LOG=\"%.300s\")", m.body.c_str(), level_name[m.level],
                        out ? env.c_str() : "");
        if (msgs.size() > 10)
            probe("more than ten messages");
    }
};
SIM_SCENARIO("C26.log", Log)
} // namespace
