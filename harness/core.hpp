// Explicit-state exploration of the real library code.
//
// The library objects are linked with their .data and .bss renamed to the sections libdata and libbss,
// so that "everything the library remembers" (including statics nobody has written yet) is one memory
// region that can be saved, restored and hashed.  A state is that region plus the world W of the harness
// (environment + reference monitor).  A transition is one call into the library or one environment event.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <deque>
#include <string>
#include <vector>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef u64 Ev; // type:8 | arg:8 | burst1+1:8 | k1:16 | burst2+1:8 | k2:16

#if defined(__SANITIZE_ADDRESS__)
#define NOSAN __attribute__((no_sanitize("address"), noinline))
#else
#define NOSAN
#endif

extern "C" {
extern char __start_libdata[], __stop_libdata[], __start_libbss[], __stop_libbss[];
}

// ---- access points of instrumented library code (see tsan_rt.hpp) ----
static bool inj_active = false; // a library call made by the main program is running
static bool in_isr = false;     // an interrupt is running
static u32 inj_cnt = 0;
static u32 inj_k1 = ~0u, inj_k2 = ~0u;
static int inj_b1 = -1, inj_b2 = -1;
static int inj_fired = 0;
static bool inj_disabled = false; // the interrupt was not possible at that point
static bool fire_burst(int b);    // defined by the harness
static inline void point()
{
#ifdef INSN // preemption points are the machine instructions of the library (insn.hpp)
    return;
#endif
    if (!inj_active || in_isr)
        return;
    u32 k = inj_cnt++;
    if (k == inj_k1)
    {
        in_isr = true;
        if (!fire_burst(inj_b1))
            inj_disabled = true;
        inj_fired++;
        in_isr = false;
    }
    if (k == inj_k2)
    {
        in_isr = true;
        if (!fire_burst(inj_b2))
            inj_disabled = true;
        inj_fired++;
        in_isr = false;
    }
}

// ---- violations ----
static const char *g_viol_kind = 0;
static char g_viol_msg[4096];
static bool g_verbose = false;
static void viol(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
static void viol(const char *kind, const char *fmt, ...)
{
    if (g_viol_kind)
        return;
    g_viol_kind = kind;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g_viol_msg, sizeof g_viol_msg, fmt, ap);
    va_end(ap);
}
#define LOG(...)             \
    do                       \
    {                        \
        if (g_verbose)       \
            printf(__VA_ARGS__); \
    } while (0)

// ---- options ----
struct Opts
{
    std::string kinds;  // comma separated kinds that count as violations of the property being checked, or "all"
    std::string out;    // directory for the replay file
    std::string name;   // name of this run
    u64 max_states = 3000000;
    double max_sec = 600;
    std::string replay; // events to replay
    std::vector<std::pair<std::string, std::string>> kv;
    long get(const char *k, long d) const
    {
        for (auto &p : kv)
            if (p.first == k)
                return strtol(p.second.c_str(), 0, 0);
        return d;
    }
    std::string gets(const char *k, const char *d) const
    {
        for (auto &p : kv)
            if (p.first == k)
                return p.second;
        return d;
    }
};
static Opts opts;
static int g_argc;
static char **g_argv;
static void parse_opts(int argc, char **argv)
{
    g_argc = argc;
    g_argv = argv;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        size_t e = a.find('=');
        if (e == std::string::npos)
        {
            fprintf(stderr, "bad option %s\n", argv[i]);
            exit(2);
        }
        std::string k = a.substr(0, e), v = a.substr(e + 1);
        if (k == "kinds")
            opts.kinds = v;
        else if (k == "out")
            opts.out = v;
        else if (k == "name")
            opts.name = v;
        else if (k == "max_states")
            opts.max_states = strtoull(v.c_str(), 0, 0);
        else if (k == "max_sec")
            opts.max_sec = atof(v.c_str());
        else if (k == "replay")
            opts.replay = v;
        else
            opts.kv.push_back({k, v});
    }
}
static bool kind_relevant(const char *k)
{
    if (opts.kinds.empty() || opts.kinds == "all" || !strcmp(k, "CRASH") || !strcmp(k, "HANG"))
        return true;
    std::string s = "," + opts.kinds + ",";
    return s.find("," + std::string(k) + ",") != std::string::npos;
}
static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static std::string jesc(const std::string &s)
{
    std::string r;
    for (char c : s)
    {
        if (c == '"' || c == '\\')
            r += '\\', r += c;
        else if ((u8)c < 32)
            r += ' ';
        else
            r += c;
    }
    return r;
}
static std::string cmdline_without(const char *const *drop)
{
    std::string s;
    for (int i = 1; i < g_argc; i++)
    {
        bool d = false;
        for (const char *const *p = drop; *p; p++)
            if (!strncmp(g_argv[i], *p, strlen(*p)))
                d = true;
        if (!d)
            s += std::string(s.empty() ? "" : " ") + g_argv[i];
    }
    return s;
}

// Writes the replay file and the line that run.py turns into VIOLATION.
static void report_violation(const std::string &events, const std::string &trace)
{
    static const char *const drop[] = {"out=", "replay=", "kinds=", "max_states=", "max_sec=", 0};
    std::string path = opts.out + "/" + opts.name + ".txt";
    if (!opts.out.empty())
    {
        FILE *f = fopen(path.c_str(), "w");
        if (f)
        {
            fprintf(f, "kind: %s\nwhat: %s\nargs: %s\nevents: %s\n\n%s", g_viol_kind, g_viol_msg, cmdline_without(drop).c_str(), events.c_str(), trace.c_str());
            fclose(f);
        }
    }
    printf("@VIOL {\"kind\":\"%s\",\"what\":\"%s\",\"replay\":\"%s\"}\n", g_viol_kind, jesc(g_viol_msg).c_str(), path.c_str());
    fflush(stdout);
}

// ---- crash and hang of the code under test ----
static std::string (*g_where)() = 0; // events leading to what is being executed now
static volatile u64 g_progress = 0;
static u64 g_last_progress = 0;
static int g_stuck = 0;
static void on_fatal(int sig)
{
    static volatile int once = 0;
    if (once++)
        _exit(3);
    g_viol_kind = 0;
    if (sig == SIGVTALRM)
        viol("HANG", "a call into the library did not return");
    else
        viol("CRASH", "the library crashed (signal %d)", sig);
    report_violation(g_where ? g_where() : "", "");
    printf("@DONE\n");
    fflush(stdout);
    _exit(1);
}
static void on_timer(int)
{
    if (g_progress != g_last_progress)
    {
        g_last_progress = g_progress;
        g_stuck = 0;
    }
    else if (++g_stuck >= 10)
        on_fatal(SIGVTALRM);
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_set_death_callback(void (*)(void));
extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:handle_abort=0:exitcode=1:detect_stack_use_after_return=0:allocator_may_return_null=1";
}
static void on_asan()
{
    g_viol_kind = 0;
    viol("CRASH", "AddressSanitizer or UndefinedBehaviorSanitizer stopped the library (its report is on standard error)");
    report_violation(g_where ? g_where() : "", "");
    printf("@DONE\n");
    fflush(stdout);
    _exit(1);
}
extern "C" void __ubsan_on_report(void) { on_asan(); } // called by the UndefinedBehaviorSanitizer when it reports
#endif
static void install_guards()
{
    static char alt[1 << 16];
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, 0);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_flags = SA_ONSTACK;
    sa.sa_handler = on_fatal;
#if !defined(__SANITIZE_ADDRESS__)
    sigaction(SIGSEGV, &sa, 0);
    sigaction(SIGBUS, &sa, 0);
#else
    __asan_set_death_callback(on_asan);
#endif
    sigaction(SIGFPE, &sa, 0);
    sigaction(SIGILL, &sa, 0);
    sigaction(SIGABRT, &sa, 0);
    sa.sa_handler = on_timer;
    sa.sa_flags |= SA_RESTART;
    sigaction(SIGVTALRM, &sa, 0);
    struct itimerval it = {{1, 0}, {1, 0}};
    setitimer(ITIMER_VIRTUAL, &it, 0);
}

// ---- saving and restoring the library ----
static NOSAN void raw_copy(char *d, const char *s, size_t n)
{
#if defined(__SANITIZE_ADDRESS__)
    volatile char *vd = d;
    const volatile char *vs = s;
    size_t i = 0;
    if (!(((uintptr_t)d | (uintptr_t)s) & 7))
        for (; i + 8 <= n; i += 8)
            *(volatile u64 *)(d + i) = *(const volatile u64 *)(s + i);
    for (; i < n; i++)
        vd[i] = vs[i];
#else
    memcpy(d, s, n);
#endif
}
static size_t lib_d() { return __stop_libdata - __start_libdata; }
static size_t lib_b() { return __stop_libbss - __start_libbss; }
static size_t lib_size() { return lib_d() + lib_b(); }
static void lib_save(char *p)
{
    raw_copy(p, __start_libdata, lib_d());
    raw_copy(p + lib_d(), __start_libbss, lib_b());
}
static void lib_load(const char *p)
{
    raw_copy(__start_libdata, p, lib_d());
    raw_copy(__start_libbss, p + lib_d(), lib_b());
}
static char *lib_pristine = 0; // as at program start
static void lib_keep_pristine()
{
    lib_pristine = (char *)malloc(lib_size() + 1);
    lib_save(lib_pristine);
}

// ---- 128-bit hash ----
struct H128
{
    u64 a, b;
};
static inline u64 mix(u64 x)
{
    x ^= x >> 32;
    x *= 0xd6e8feb86659fd93ull;
    x ^= x >> 32;
    x *= 0xd6e8feb86659fd93ull;
    x ^= x >> 32;
    return x;
}
static H128 hash_bytes(const char *p, size_t n)
{
    u64 a = 0x9E3779B97F4A7C15ull ^ n, b = 0xC2B2AE3D27D4EB4Full + n;
    size_t i = 0;
    for (; i + 8 <= n; i += 8)
    {
        u64 v;
        memcpy(&v, p + i, 8);
        a = (a ^ v) * 0x9FB21C651E98DF25ull;
        a ^= a >> 29;
        b = (b + v) * 0xA0761D6478BD642Full;
        b ^= b >> 31;
        b += a;
    }
    u64 v = 0;
    memcpy(&v, p + i, n - i);
    a = (a ^ v) * 0x9FB21C651E98DF25ull;
    a ^= a >> 29;
    b = (b + v) * 0xA0761D6478BD642Full;
    b ^= b >> 31;
    return {mix(a), mix(b + a)};
}

// ---- the explorer ----
// The harness supplies: world memory, gen(), apply(), settle() (checked in every new state, may wreck it),
// ev_str() and root().
static void *world_ptr;
static size_t world_size;
static void root();                      // bring library and world to the initial state
static void canon();                     // forget what no future behaviour or check depends on
static int gen(Ev *out);                 // events possible now
static void apply(Ev e);                 // execute one
static void settle();                    // liveness and other checks on the current state
static std::string ev_str(Ev e);
static int bursts_for(Ev e, int *out);   // interrupt bursts that may hit this call (indices), 0 if none
static int inj_bound = 0;                // number of preemption points per call explored
#define SETTLE_EV ((Ev)0xFF)

static size_t snap_size() { return lib_size() + world_size; }
static void snap_save(char *p)
{
    lib_save(p);
    memcpy(p + lib_size(), world_ptr, world_size);
}
static void snap_load(const char *p)
{
    lib_load(p);
    memcpy(world_ptr, p + lib_size(), world_size);
}
static u8 ev_type(Ev e) { return e & 0xFF; }
static u8 ev_arg(Ev e) { return (e >> 8) & 0xFF; }
static Ev mkev(u8 t, u8 a = 0) { return (Ev)t | ((Ev)a << 8); }

// number of access points the last call went through
static u32 last_points = 0;
#ifdef INSN
#include "insn.hpp"
#endif
static void run_event(Ev e)
{
    g_progress++;
    if (ev_type(e) == 0xFF)
    {
        settle();
        return;
    }
    int b1 = (int)((e >> 16) & 0xFF) - 1, b2 = (int)((e >> 40) & 0xFF) - 1;
    inj_k1 = b1 >= 0 ? (u32)((e >> 24) & 0xFFFF) : ~0u;
    inj_k2 = b2 >= 0 ? (u32)((e >> 48) & 0xFFFF) : ~0u;
    inj_b1 = b1;
    inj_b2 = b2;
    inj_cnt = 0;
    inj_fired = 0;
    inj_disabled = false;
#ifdef INSN
    insn::run(e);
#else
    apply(e);
#endif
    canon();
    last_points = inj_cnt;
    inj_k1 = inj_k2 = ~0u;
}

struct Node
{
    H128 h;
    Ev ev;
    u32 parent;
};
static std::vector<Node> nodes;
static std::vector<u32> table_; // index+1
static u64 tmask;
static u64 n_cut = 0;
static u32 cur_parent;
static Ev cur_ev;

static void table_grow()
{
    u64 n = table_.empty() ? 1 << 16 : table_.size() * 2;
    table_.assign(n, 0);
    tmask = n - 1;
    for (u32 i = 0; i < nodes.size(); i++)
    {
        u64 j = nodes[i].h.a & tmask;
        while (table_[j])
            j = (j + 1) & tmask;
        table_[j] = i + 1;
    }
}
static bool insert(const H128 &h, Ev e, u32 parent)
{
    if (nodes.size() * 2 >= table_.size())
        table_grow();
    u64 j = h.a & tmask;
    while (table_[j])
    {
        const Node &n = nodes[table_[j] - 1];
        if (n.h.a == h.a && n.h.b == h.b)
            return false;
        j = (j + 1) & tmask;
    }
    nodes.push_back({h, e, parent});
    table_[j] = nodes.size();
    return true;
}
static std::vector<Ev> path_to(u32 node)
{
    std::vector<Ev> r;
    while (node)
    {
        r.push_back(nodes[node].ev);
        node = nodes[node].parent;
    }
    return std::vector<Ev>(r.rbegin(), r.rend());
}
static std::string evs_text(const std::vector<Ev> &v)
{
    std::string s;
    char b[32];
    for (Ev e : v)
    {
        snprintf(b, sizeof b, "%llx ", (unsigned long long)e);
        s += b;
    }
    return s;
}
static std::string explore_where()
{
    std::vector<Ev> p = path_to(cur_parent);
    p.push_back(cur_ev);
    return evs_text(p);
}
// Replays a path from the root; returns true if it ends in a violation of the given kind (any if 0).
static bool replay_path(const std::vector<Ev> &p, const char *kind, std::string *trace)
{
    g_viol_kind = 0;
    root();
    for (size_t i = 0; i < p.size(); i++)
    {
        if (trace)
            *trace += ev_str(p[i]) + "\n";
        if (g_verbose)
            printf("%s\n", ev_str(p[i]).c_str());
        run_event(p[i]);
        if (g_viol_kind)
        {
            if (trace)
                *trace += std::string("==> ") + g_viol_kind + ": " + g_viol_msg + "\n";
            return i + 1 == p.size() && (!kind || !strcmp(kind, g_viol_kind));
        }
    }
    return false;
}
static u64 other_kinds = 0;
static std::string other_example;

// returns true when the exploration must stop
static bool handle_viol(u32 parent, Ev e)
{
    const char *k = g_viol_kind;
    std::string msg = g_viol_msg;
    if (!kind_relevant(k))
    {
        if (!other_kinds++)
            other_example = std::string(k) + ": " + msg;
        n_cut++;
        g_viol_kind = 0;
        return false;
    }
    std::vector<Ev> p = path_to(parent);
    p.push_back(e);
    std::string t1, t2;
    bool r1 = replay_path(p, 0, &t1);
    bool r2 = replay_path(p, 0, &t2);
    if (!r1 || !r2 || t1 != t2 || !g_viol_kind)
    {
        fprintf(stderr, "replay diverged: %s / %s\n%s----\n%s", k, msg.c_str(), t1.c_str(), t2.c_str());
        printf("@DIVERGED\n");
        fflush(stdout);
        exit(4);
    }
    report_violation(evs_text(p), t1);
    return true;
}

struct Stats
{
    u64 states = 0, transitions = 0, settled = 0, max_depth = 0, inj_runs = 0, points = 0;
    bool complete = false;
    bool violated = false;
};
static void (*extra_stats)(std::string &) = 0;

static Stats explore()
{
    Stats st;
    size_t SS = snap_size();
    std::vector<char> cur(SS), tmp(SS);
    struct Fr
    {
        char *s;
        u32 id;
        u32 depth;
    };
    std::deque<Fr> q;
    double t0 = now();
    g_where = explore_where;
    root();
    if (g_viol_kind)
    {
        // the initial state itself is wrong
        report_violation("", "");
        st.violated = true;
        return st;
    }
    snap_save(cur.data());
    nodes.push_back({hash_bytes(cur.data(), SS), 0, 0});
    table_grow();
    {
        char *c = (char *)malloc(SS);
        memcpy(c, cur.data(), SS);
        q.push_back({c, 0, 0});
    }
    bool capped = false;
    Ev evs[4096];
    int bl[256];
    auto visit = [&](Ev e, const Fr &f) -> bool { // state after e is current
        st.transitions++;
        if (g_viol_kind)
            return handle_viol(f.id, e);
        snap_save(tmp.data());
        if (insert(hash_bytes(tmp.data(), SS), e, f.id))
        {
            u32 id = nodes.size() - 1;
            if (f.depth + 1 > st.max_depth)
                st.max_depth = f.depth + 1;
            cur_parent = id;
            cur_ev = SETTLE_EV;
            run_event(SETTLE_EV);
            st.settled++;
            if (g_viol_kind && handle_viol(id, SETTLE_EV))
                return true;
            if (nodes.size() >= opts.max_states)
                capped = true;
            else
            {
                char *c = (char *)malloc(SS);
                memcpy(c, tmp.data(), SS);
                q.push_back({c, id, f.depth + 1});
            }
        }
        return false;
    };
    u64 tick = 0;
    while (!q.empty() && !st.violated)
    {
        Fr f = q.front();
        q.pop_front();
        if ((++tick & 63) == 0 && now() - t0 > opts.max_sec)
            capped = true;
        if (capped)
        {
            free(f.s);
            for (auto &x : q)
                free(x.s);
            break;
        }
        snap_load(f.s);
        int n = gen(evs);
        for (int i = 0; i < n && !st.violated; i++)
        {
            snap_load(f.s);
            cur_parent = f.id;
            cur_ev = evs[i];
            run_event(evs[i]);
            u32 pts = last_points;
            if (visit(evs[i], f))
            {
                st.violated = true;
                break;
            }
            if (!inj_bound)
                continue;
            snap_load(f.s);
            int nb = bursts_for(evs[i], bl);
            if (!nb)
                continue;
            st.points += pts;
            for (int b = 0; b < nb && !st.violated; b++)
            {
                for (u32 k = 0;; k++)
                {
                    Ev e = evs[i] | ((Ev)(bl[b] + 1) << 16) | ((Ev)k << 24);
                    snap_load(f.s);
                    cur_parent = f.id;
                    cur_ev = e;
                    run_event(e);
                    if (!inj_fired)
                    {
                        g_viol_kind = 0;
                        break;
                    }
                    if (inj_disabled)
                    {
                        g_viol_kind = 0;
                        if (k > 5000)
                            break;
                        continue;
                    }
                    st.inj_runs++;
                    u32 pts2 = last_points;
                    if (visit(e, f))
                    {
                        st.violated = true;
                        break;
                    }
                    if (inj_bound < 2)
                        continue;
                    for (int b2 = 0; b2 < nb && !st.violated; b2++)
                        for (u32 k2 = k + 1; k2 < pts2 + 1; k2++)
                        {
                            Ev e2 = e | ((Ev)(bl[b2] + 1) << 40) | ((Ev)k2 << 48);
                            snap_load(f.s);
                            cur_ev = e2;
                            run_event(e2);
                            if (inj_fired < 2 || inj_disabled)
                            {
                                g_viol_kind = 0;
                                if (inj_fired < 2)
                                    break;
                                continue;
                            }
                            st.inj_runs++;
                            if (visit(e2, f))
                            {
                                st.violated = true;
                                break;
                            }
                        }
                    if (st.violated)
                        break;
                }
            }
        }
        free(f.s);
    }
    st.states = nodes.size();
    st.complete = !capped && !st.violated;
    return st;
}

// Executes every pair of states' paths again for a sample of nodes chosen by index (no randomness): the
// state reached by re-executing the recorded events from the initial state must be the recorded state.
static u64 n_mismatch = 0;
static u64 revalidate(u64 n)
{
    u64 ok = 0, total = nodes.size();
    if (total < 2)
        return 0;
    std::vector<char> tmp(snap_size());
    for (u64 i = 0; i < n; i++)
    {
        u32 id = 1 + (u32)((i * 2654435761ull) % (total - 1));
        std::vector<Ev> p = path_to(id);
        g_viol_kind = 0;
        root();
        for (Ev e : p)
            run_event(e);
        snap_save(tmp.data());
        H128 h = hash_bytes(tmp.data(), tmp.size());
        if (h.a != nodes[id].h.a || h.b != nodes[id].h.b)
        {
            n_mismatch++;
            continue;
        }
        ok++;
    }
    return ok;
}

static int explorer_main()
{
    install_guards();
    lib_keep_pristine();
    if (!opts.replay.empty())
    {
        std::vector<Ev> p;
        const char *s = opts.replay.c_str();
        char *e;
        for (;;)
        {
            while (*s == ' ' || *s == ',')
                s++;
            if (!*s)
                break;
            p.push_back(strtoull(s, &e, 16));
            if (e == s)
                break;
            s = e;
        }
        g_verbose = true;
        static std::vector<Ev> *rp = &p;
        g_where = []() { return evs_text(*rp); };
        bool r = replay_path(p, 0, 0);
        if (g_viol_kind)
            printf("==> %s: %s\n", g_viol_kind, g_viol_msg);
        printf(r ? "VIOLATION REPRODUCED\n" : "NO VIOLATION\n");
        return r ? 1 : 0;
    }
    double t0 = now();
    Stats st = explore();
    u64 rv = st.violated ? 0 : revalidate(opts.get("revalidate", 300));
    std::string ex;
    if (extra_stats)
        extra_stats(ex);
    if (!st.violated && nodes.size() > 1)
    { // the last state found, which is one of the deepest, as a sample of what was explored
        std::vector<Ev> p = path_to(nodes.size() - 1);
        std::string t;
        for (size_t i = 0; i < p.size(); i++)
            t += (i ? "; " : "") + ev_str(p[i]);
        printf("@SAMPLE {\"events\":\"%s\"}\n", jesc(t).c_str());
    }
    printf("@STAT {\"name\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"settled\":%llu,\"depth\":%llu,\"preempted_calls\":%llu,\"points\":%llu,\"complete\":%s,\"revalidated\":%llu,\"mismatch\":%llu,\"cut_other\":%llu,\"other\":\"%s\",\"sec\":%.2f%s}\n",
           opts.name.c_str(), (unsigned long long)st.states, (unsigned long long)st.transitions, (unsigned long long)st.settled, (unsigned long long)st.max_depth, (unsigned long long)st.inj_runs, (unsigned long long)st.points,
           st.complete ? "true" : "false", (unsigned long long)rv, (unsigned long long)n_mismatch, (unsigned long long)n_cut, jesc(other_example).c_str(), now() - t0, ex.c_str());
    printf("@DONE\n");
    fflush(stdout);
    return st.violated ? 1 : 0;
}
