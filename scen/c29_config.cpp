// C29: loading control settings from a text or a file.
#include "common.h"
#include <ctl/ctl.h>
#include <deque>
#include <limits.h>
#include <stddef.h>
using namespace simx;
namespace {
struct Pair {
    int x;
    int flag;
    char s[8];
};
struct Obj {
    std::vector<std::string> journal; // what the handlers were given
    bool bad_ctx = false;
};
std::deque<Obj> objs;
int g_refused; // the value that its handler does not take
Obj &object(void *ctx) {
    Obj &o = objs[(size_t)task_id() % objs.size()];
    if (ctx && ctx != &o)
        violate("wrong-object", "a setting was applied to another object");
    point();
    return o;
}
void source_ok(umf_ctl_query_source_t s) {
    if (s != CTL_QUERY_CONFIG_INPUT)
        violate("wrong-source", "a setting came with source %d", (int)s);
}
#define H(name)                                                                        \
    int name(void *ctx, umf_ctl_query_source_t src, void *arg,                         \
             umf_ctl_index_utlist_t *idx, const char *extra, umf_ctl_query_type_t qt)
#define U (void)idx, (void)extra, (void)qt, source_ok(src)
H(w_num) {
    U;
    int v = *(int *)arg;
    Obj &o = object(ctx);
    if (v == g_refused)
        return -1;
    o.journal.push_back("num=" + std::to_string(v));
    return v == g_refused + 1 ? 7 : 0; // what is not negative is no error
}
H(w_big) {
    U;
    object(ctx).journal.push_back("big=" + std::to_string(*(long long *)arg));
    return 0;
}
H(w_byte) {
    U;
    object(ctx).journal.push_back("byte=" + std::to_string(*(uint8_t *)arg));
    return 0;
}
H(w_flag) {
    U;
    object(ctx).journal.push_back("flag=" + std::to_string(*(int *)arg));
    return 0;
}
H(w_str) {
    U;
    const char *s = (const char *)arg;
    if (!memchr(s, 0, 16))
        violate("wrong-value", "a string argument is not terminated");
    object(ctx).journal.push_back(std::string("str=") + s);
    return 0;
}
H(w_pair) {
    U;
    Pair p = *(Pair *)arg;
    if (!memchr(p.s, 0, 8))
        violate("wrong-value", "a string argument is not terminated");
    object(ctx).journal.push_back("pair=" + std::to_string(p.x) + "," +
                                  std::to_string(p.flag) + "," + p.s);
    return 0;
}
H(w_item) {
    U;
    long i = -1;
    for (auto *l = idx; l; l = l->next)
        if (l->name && !strcmp(l->name, "slot"))
            i = l->value;
    object(ctx).journal.push_back("item" + std::to_string(i) + "=" +
                                  std::to_string(*(int *)arg));
    return 0;
}
H(w_sub) {
    (void)idx, source_ok(src);
    if (qt != CTL_QUERY_WRITE)
        violate("wrong-type", "a setting reached the subtree as query type %d", (int)qt);
    object(ctx).journal.push_back(std::string("sub:") + extra + "=" + (char *)arg);
    return 0;
}
H(other) {
    (void)ctx, (void)arg, (void)src, (void)idx, (void)extra, (void)qt;
    violate("wrong-entry", "a setting reached an entry that cannot be set");
}
struct Arg1 {
    size_t n;
    ctl_argument_parser p[4];
};
const Arg1 a_int = {sizeof(int), {{0, sizeof(int), ctl_arg_integer}, {}}},
           a_big = {sizeof(long long), {{0, sizeof(long long), ctl_arg_integer}, {}}},
           a_byte = {sizeof(uint8_t), {{0, sizeof(uint8_t), ctl_arg_integer}, {}}},
           a_flag = {sizeof(int), {{0, sizeof(int), ctl_arg_boolean}, {}}},
           a_str = {16, {{0, 16, ctl_arg_string}, {}}},
           a_pair = {sizeof(Pair),
                     {{offsetof(Pair, x), sizeof(int), ctl_arg_integer},
                      {offsetof(Pair, flag), sizeof(int), ctl_arg_boolean},
                      {offsetof(Pair, s), 8, ctl_arg_string},
                      {}}};
umf_ctl_node_t leafs[12], leafs_slot[2];
void build_tree() {
    memset(leafs, 0, sizeof leafs);
    memset(leafs_slot, 0, sizeof leafs_slot);
    int k = 0;
    auto leaf = [](umf_ctl_node_t &n, const char *name, node_callback wr, const Arg1 *a) {
        n.name = name;
        n.type = CTL_NODE_LEAF;
        n.cb[CTL_QUERY_WRITE] = wr;
        n.arg = (const ctl_argument *)a;
    };
    leaf(leafs[k++], "num", w_num, &a_int);
    leaf(leafs[k++], "big", w_big, &a_big);
    leaf(leafs[k++], "byte", w_byte, &a_byte);
    leaf(leafs[k++], "flag", w_flag, &a_flag);
    leaf(leafs[k++], "str", w_str, &a_str);
    leaf(leafs[k++], "pair", w_pair, &a_pair);
    leaf(leafs[k], "ro", nullptr, nullptr);
    leafs[k++].cb[CTL_QUERY_READ] = other;
    leaf(leafs[k], "go", nullptr, nullptr);
    leafs[k++].cb[CTL_QUERY_RUNNABLE] = other;
    leafs[k].name = "sub";
    leafs[k].type = CTL_NODE_SUBTREE;
    leafs[k++].cb[CTL_QUERY_SUBTREE] = w_sub;
    leaf(leafs_slot[0], "item", w_item, &a_int);
    leafs[k].name = "slot";
    leafs[k].type = CTL_NODE_INDEXED;
    leafs[k].children = leafs_slot;
}

// one setting: its text and what it has to do
struct Setting {
    std::string text, want; // want empty: cannot be applied
    bool syntax = false;    // not even of the form name=value
};
std::string number(Rng &r, long long v) {
    char b[40];
    switch (r.below(5)) {
    case 0:
        snprintf(b, sizeof b, v < 0 ? "-0x%llx" : "0x%llx",
                 v < 0 ? -(unsigned long long)v : (unsigned long long)v);
        break;
    case 1:
        snprintf(b, sizeof b, v < 0 ? "-0%llo" : "0%llo",
                 v < 0 ? -(unsigned long long)v : (unsigned long long)v);
        break;
    case 2:
        snprintf(b, sizeof b, "%+lld", v);
        break;
    default:
        snprintf(b, sizeof b, "%lld", v);
    }
    return b;
}
std::string word(Rng &r, size_t n) {
    static const char c[] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-+/:.!\"'$%&\\*";
    std::string s;
    while (s.size() < n)
        s += c[r.below(sizeof c - 1)];
    return s;
}
const long long EDGES[] = {0, 1, -1, 2, 7, 9, 127, 128, 255, 256, 32767, 65535, 65536,
                           INT_MAX, (long long)INT_MAX + 1, INT_MIN,
                           (long long)INT_MIN - 1, 4294967295ll, 4294967296ll,
                           4294967297ll, LLONG_MAX, LLONG_MIN + 1};
Setting make_setting(Rng &r, bool may_fail) {
    for (;;) {
        Setting s;
        long long v = r.chance(1, 2) ? EDGES[r.below(sizeof EDGES / sizeof *EDGES)]
                                     : (long long)r.below(100000) - 5000;
        bool y = r.chance(1, 2);
        static const char *yes[] = {"y", "Y", "1", "yes", "YES"},
                          *no[] = {"n", "N", "0", "no", "No"};
        std::string f = (y ? yes : no)[r.below(5)];
        switch (r.below(may_fail ? 14 : 8)) {
        case 0:
            if (r.chance(1, 12))
                v = g_refused;
            s.text = "n.num=" + number(r, v);
            if (v >= INT_MIN && v <= INT_MAX && v != g_refused)
                s.want = "num=" + std::to_string(v);
            break;
        case 1:
            s.text = "n.big=" + number(r, v);
            s.want = "big=" + std::to_string(v);
            break;
        case 2:
            if (r.chance(1, 2))
                v = (long long)r.below(258);
            s.text = "n.byte=" + number(r, v);
            if (v >= 0 && v <= 255)
                s.want = "byte=" + std::to_string(v);
            break;
        case 3:
            s.text = "n.flag=" + f;
            s.want = "flag=" + std::to_string(y);
            break;
        case 4: {
            std::string w = word(r, r.range(1, r.chance(1, 4) ? 40 : 16));
            s.text = "n.str=" + w;
            if (w.size() < 16)
                s.want = "str=" + w;
            break;
        }
        case 5: {
            std::string w = word(r, r.range(1, 8));
            s.text = "n.pair=" + number(r, v) + "," + f + "," + w;
            if (v >= INT_MIN && v <= INT_MAX && w.size() < 8)
                s.want = "pair=" + std::to_string(v) + "," + std::to_string(y) + "," + w;
            break;
        }
        case 6: {
            int i = (int)r.below(40);
            s.text = "n." + std::to_string(i) + ".item=" + number(r, v);
            if (v >= INT_MIN && v <= INT_MAX)
                s.want = "item" + std::to_string(i) + "=" + std::to_string(v);
            break;
        }
        case 7: {
            static const char *e[] = {"a", "a.b", "n.num", "x.0.y", "very.long.rest.of.name"};
            std::string x = e[r.below(5)], w = word(r, r.range(1, 60));
            s.text = "n.sub." + x + "=" + w;
            s.want = "sub:" + x + "=" + w;
            break;
        }
        case 8: { // unknown or not to be set
            static const char *e[] = {"n.ro=1", "n.go=1", "n=1", "n.nothing=2", "nn.num=3",
                                      "n.num.x=4", "num=5", "n.numb=6", "n.nu=7",
                                      "N.num=8", ".=9", "n.num.num=1", "n.2=4",
                                      "n.pair.x=1", "n.ro.n.num=4", "1.num=4"};
            s.text = e[r.below(16)];
            break;
        }
        case 9: { // not a number, not a truth value, too little
            static const char *e[] = {"n.num=abc", "n.num=-", "n.big=x1", "n.byte=z",
                                      "n.flag=t", "n.flag=2", "n.flag=true", "n.pair=1",
                                      "n.pair=1,y", "n.pair=a,y,b", "n.pair=1,q,b",
                                      "n.3.item=q", "n.num=99999999999999999999",
                                      "n.big=9223372036854775808", "n.byte=4294967296",
                                      "n.num=4294967301"};
            s.text = e[r.below(16)];
            break;
        }
        case 10: {
            static const char *e[] = {"n.num", "n.num=", "=5", "n.num=1=2", "=", "garbage",
                                      "n.str=a=b", "n.sub.x"};
            s.text = e[r.below(8)];
            s.syntax = true;
            break;
        }
        default:
            continue;
        }
        if (!may_fail && s.want.empty())
            continue;
        return s;
    }
}
std::string blank(Rng &r) {
    static const char *b[] = {"", "", " ", "\t", "\n", "\r\n", "  \n", "\v\f", "\n\n"};
    return b[r.below(9)];
}
std::string comment(Rng &r) {
    static const char *b[] = {"# a comment\n", "#n.num=77;\n", "# ; = # .\n", "#\n",
                              "#;n.nothing=1;\r\n"};
    return b[r.below(5)];
}

enum { TEXT, FILE_, APPEND, NOPS };
struct Config : Scenario {
    struct Loading { // a file being loaded
        std::string path;
        std::vector<std::string> added;
    };
    std::map<int, Loading> loading;
    struct ctl *tree = nullptr;
    Baseline base;
    uint64_t mark = 0;
    int serial = 0;
    const char *op_name(uint32_t c) override {
        static const char *n[] = {"load_text", "load_file", "append"};
        return n[c % NOPS];
    }
    const char *real_parts() override { return "ctl, base allocator, the C library's streams"; }
    const char *stub_parts() override { return "files"; }
    void generate(Rng &r, Program &p, bool thorough) override {
        log_cfg(r, p, 12);
        p.cfg["refuse"] = (int64_t)r.below(100);
        int nt = r.chance(1, 3) ? 1 : (int)r.range(2, 4);
        int k = (int)r.range(2, thorough ? 10 : 6);
        bool append = nt > 1 && r.chance(1, 2);
        for (int t = 1; t <= nt; t++)
            for (int i = 0; i < k; i++) {
                int c = append && r.chance(1, 3) ? APPEND : r.chance(2, 3) ? FILE_ : TEXT;
                p.add((uint32_t)t, (uint32_t)c, (int64_t)r.below(1 << 30), // seed
                      r.chance(1, 10) ? (int64_t)r.below(60) : (int64_t)r.below(8),
                      r.chance(1, 2) ? 0 : (int64_t)r.range(1, 3), // 1/n can fail
                      (int64_t)r.below(64));                       // extras
            }
        pick_faults(r, p, {F_META, F_READ, F_READ, F_STAT, F_OPEN, F_BAMMAP, F_CLOSE}, 60);
    }
    void setup(const Program &p) override {
        io::install(0);
        io::serve("/cfg/");
        base = baseline();
        log_setup(p);
        lib_init();
        g_refused = (int)p.get("refuse");
        objs.clear();
        objs.resize(p.ntasks + 1);
        tree = ctl_new();
        if (!tree)
            violate("create-failed", "ctl_new");
        build_tree();
        ctl_register_module_node(tree, "n", leafs);
        mark = os::meta_mark();
    }
    void exec(const Op &op) override {
        int me = task_id();
        if (op.code % NOPS == APPEND) {
            for (auto &l : loading)
                if (l.first != me && ((int64_t)l.first + op.a[3]) % 3 != 0) {
                    Rng r((uint64_t)op.a[0]);
                    Setting s = make_setting(r, false);
                    io::stream(l.second.path).data += "\n;" + s.text + "\n";
                    l.second.added.push_back(s.want);
                    probe("a file grew while it was read");
                    break;
                }
            return;
        }
        bool file = op.code % NOPS == FILE_, sloppy = op.a[3] % 8 == 7, nul = false;
        Obj &o = objs[(size_t)me % objs.size()];
        o.journal.clear();
        Rng r((uint64_t)op.a[0]);
        std::vector<Setting> l;
        std::string text;
        int kind = file ? (int)(op.a[3] / 8 % 8) : 7;
        for (int64_t i = 0; i < op.a[1]; i++) {
            l.push_back(make_setting(r, op.a[2] && r.chance(1, (unsigned)op.a[2] * 3)));
            if (i || r.chance(1, 6))
                text += r.chance(1, 8) ? ";;" : ";";
            if (!file) {
                text += l.back().text;
                continue;
            }
            if (r.chance(1, 3))
                text += comment(r);
            for (char c : l.back().text)
                text += (r.chance(1, 12) ? blank(r) : r.chance(1, 60) ? comment(r) : "") + c;
            text += blank(r);
            if (r.chance(1, 8))
                text += comment(r);
        }
        if (r.chance(1, 3))
            text += ";";
        if (file && r.chance(1, 8))
            text += "# the last line is not terminated";
        if (file && kind == 0 && r.chance(1, 2)) { // blocks that never reached the disk
            size_t at = r.below(text.size() + 1);
            if (at == 0 || text.rfind('#', at - 1) == std::string::npos ||
                (text.rfind('\n', at - 1) != std::string::npos &&
                 text.rfind('\n', at - 1) > text.rfind('#', at - 1))) {
                nul = true;
                for (size_t i = at, n = r.chance(1, 2) ? text.size() : at + r.below(9);
                     i < text.size() && i < n; i++)
                    text[i] = 0;
                text.insert(at, 1, '\0');
            }
        }
        bool huge = false;
        if (file && kind == 1 && r.chance(1, 4)) {
            huge = r.chance(1, 2);
            text = "#" + std::string(huge ? (1 << 20) + r.below(100) : r.below(1 << 20), 'x') +
                   "\n" + text;
            huge = text.size() > (1 << 20);
        }
        std::string path;
        bool missing = false, unseekable = false;
        if (file) {
            path = "/cfg/" + std::to_string(me) + "." + std::to_string(serial++);
            missing = kind == 2 && r.chance(1, 3);
            unseekable = kind == 3 && r.chance(1, 3);
            if (!missing) {
                io::Stream &s = io::stream(path);
                s.data = text;
                s.exists = true;
                s.no_seek = unseekable;
            }
            loading[me].path = path;
        }
        std::string copy = file ? path : text;
        uint64_t f0 = faults_fired();
        int rc = file ? ctl_load_config_from_file(tree, sloppy ? nullptr : &o, copy.c_str())
                      : ctl_load_config_from_string(tree, sloppy ? nullptr : &o, copy.c_str());
        bool fired = faults_fired() != f0;
        if (copy != (file ? path : text))
            violate("name-modified", "loading a configuration changed the caller's string");
        std::vector<std::string> added;
        if (file) {
            if (io::stream(path).open_now)
                violate("leak:file", "a configuration file is left open");
            added = loading[me].added;
            loading.erase(me);
            io::stream(path).data.clear();
        }
        if (rc != 0 && rc != -1)
            violate("config-result", "loading a configuration returned %d", rc);
        if (missing || unseekable) {
            if (rc == 0)
                violate("config-result", "a file that cannot be read was loaded");
            if (!o.journal.empty())
                violate("config-wrong", "a file that cannot be read set %s",
                        o.journal[0].c_str());
            return;
        }
        // what has to be applied: everything up to the first that cannot be;
        // without an object those are skipped
        std::vector<std::string> want;
        bool bad = false;
        for (auto &s : l) {
            if (s.want.empty() && (!sloppy || s.syntax)) {
                bad = true;
                break;
            }
            if (!s.want.empty())
                want.push_back(s.want);
        }
        size_t sure = want.size();
        if (!bad)
            for (auto &a : added)
                want.push_back(a);
        // the entries that were set, in order
        size_t i = 0, skipped = 0;
        for (auto &j : o.journal) {
            if (sloppy && fired)
                while (i < want.size() && want[i] != j)
                    i++, skipped++;
            if (i >= want.size())
                violate("config-wrong", "entry %s was set; it must not be",
                        j.c_str());
            if (want[i] != j)
                violate("config-wrong", "entry %s was set instead of %s", j.c_str(),
                        want[i].c_str());
            i++;
        }
        if (rc == 0) {
            if (bad)
                violate("config-result", "a configuration with a setting that cannot be "
                                         "applied was loaded: '%.100s'", text.c_str());
            if (i < sure && !(sloppy && fired))
                violate("config-lost", "a configuration was loaded without %s",
                        want[i].c_str());
        } else if (!fired && added.empty() && !nul && !huge) {
            if (!bad)
                violate("spurious-failure", "loading '%.200s' failed", text.c_str());
            if (i < sure)
                violate("config-lost", "a configuration was loaded up to a wrong setting, "
                                       "but without %s", want[i].c_str());
        }
        probe(rc ? "configuration refused" : "configuration loaded");
        if (nul)
            probe("file with lost blocks");
        if (rc && o.journal.size() < want.size() && fired)
            probe("loading interrupted by a fault");
    }
    void finish() override {
        if (os::meta_live_since(mark))
            violate("leak:metadata", "loading configurations left allocations: %s",
                    os::meta_describe(4, mark).c_str());
        ctl_delete(tree);
        umfTearDown();
        check_no_leak(base, "configurations");
    }
};
SIM_SCENARIO("C29.config", Config)
} // namespace
