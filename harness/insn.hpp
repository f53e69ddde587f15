// Interrupts between the machine instructions of the library as an optimising compiler made it (no instrumentation).
// A call is first executed with breakpoints at all its preemption points, the instructions of the library (section libtext)
// that access memory or call, which gives the sequence in which it meets them. To interrupt it at the k-th, it is executed
// again from the same state with a breakpoint there. The points come from the file <binary>.pts (disassembler, see run.py).
#pragma once
#include <ucontext.h>
#include <algorithm>
extern "C" {
extern char __start_libtext[], __stop_libtext[];
}
namespace insn
{
enum Mode
{
    OFF,
    REC,      // a breakpoint waits at every point
    REC_STEP, // one was met: stepping over the instruction
    RUN,      // a breakpoint waits at the point
    RUN_STEP  // it was met, but not for the last time: stepping over the instruction
};
static volatile Mode mode = OFF;
static std::vector<u8> is_pt;
static std::vector<u32> trace;
static std::vector<char> key, before;
static Ev key_ev = ~0ull;
static std::vector<u32> pts;
static std::vector<u8> orig;
static u8 *bp;
static u8 bp_byte;
static int bp_left;
static u32 rec_at;
static u8 *lib0() { return (u8 *)__start_libtext; }
static bool in_lib(u64 ip) { return ip >= (u64)__start_libtext && ip < (u64)__stop_libtext; }
static void set_bp(u8 *p)
{
    bp = p;
    bp_byte = *p;
    *(volatile u8 *)p = 0xCC;
}
static void clear_bp()
{
    if (bp)
        *(volatile u8 *)bp = bp_byte;
    bp = 0;
}
static void on_trap(int, siginfo_t *, void *v)
{
    greg_t *g = ((ucontext_t *)v)->uc_mcontext.gregs;
    const greg_t TF = 0x100;
    switch (mode)
    {
    case OFF:
        g[REG_EFL] &= ~TF;
        break;
    case REC: {
        u32 at = (u32)((u64)g[REG_RIP] - 1 - (u64)lib0());
        if (!in_lib(g[REG_RIP] - 1) || !is_pt[at])
            break;
        g[REG_RIP]--;
        if (inj_active && !in_isr)
            trace.push_back(at);
        *(volatile u8 *)(lib0() + at) = orig[at];
        rec_at = at;
        mode = REC_STEP;
        g[REG_EFL] |= TF;
        break;
    }
    case REC_STEP:
        *(volatile u8 *)(lib0() + rec_at) = 0xCC;
        mode = REC;
        g[REG_EFL] &= ~TF;
        break;
    case RUN: {
        if (!bp || (u64)g[REG_RIP] != (u64)bp + 1)
            break;
        u8 *p = bp;
        g[REG_RIP]--;
        clear_bp();
        if (bp_left || !inj_active || in_isr)
        {
            if (inj_active && !in_isr)
                bp_left--;
            bp = p;
            mode = RUN_STEP;
            g[REG_EFL] |= TF;
            break;
        }
        mode = OFF;
        in_isr = true;
        if (!fire_burst(inj_b1))
            inj_disabled = true;
        inj_fired++;
        in_isr = false;
        break;
    }
    case RUN_STEP:
        set_bp(bp);
        mode = RUN;
        g[REG_EFL] &= ~TF;
        break;
    }
}
static void init()
{
    char f[4096];
    ssize_t n = readlink("/proc/self/exe", f, sizeof f - 8);
    strcpy(f + n, ".pts");
    FILE *h = fopen(f, "r");
    if (!h)
        printf("no %s\n", f), exit(2);
    is_pt.assign(__stop_libtext - __start_libtext, 0);
    unsigned long a;
    while (fscanf(h, "%lx", &a) == 1)
        if (in_lib(a))
        {
            is_pt[a - (u64)lib0()] = 1;
            pts.push_back(a - (u64)lib0());
        }
    fclose(h);
    orig.assign(lib0(), (u8 *)__stop_libtext);
    u64 p0 = (u64)lib0() & ~4095ull, p1 = ((u64)__stop_libtext + 4095) & ~4095ull;
    if (mprotect((void *)p0, p1 - p0, PROT_READ | PROT_WRITE | PROT_EXEC))
        perror("mprotect"), exit(2);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGTRAP, &sa, 0);
    key.resize(snap_size());
    before.resize(snap_size());
}
static void record(Ev e)
{
    trace.clear();
    for (u32 p : pts)
        *(volatile u8 *)(lib0() + p) = 0xCC;
    mode = REC;
    apply(e);
    mode = OFF;
    for (u32 p : pts)
        *(volatile u8 *)(lib0() + p) = orig[p];
}
// apply(e), interrupted at the k-th point
static void run(Ev e)
{
    if (inj_k1 == ~0u)
    {
        int bl[256];
        if (!inj_bound || !bursts_for(e & 0xFFFF, bl))
        {
            apply(e);
            return;
        }
        if (is_pt.empty())
            init();
        snap_save(key.data());
        key_ev = e & 0xFFFF;
        record(e);
        inj_cnt = trace.size();
        return;
    }
    if (is_pt.empty())
        init();
    snap_save(before.data());
    if (key_ev != (e & 0xFFFF) || memcmp(before.data(), key.data(), before.size()))
    {
        bool v = g_verbose;
        const char *vk = g_viol_kind;
        g_verbose = false;
        u32 k1 = inj_k1;
        inj_k1 = ~0u;
        key_ev = e & 0xFFFF;
        memcpy(key.data(), before.data(), before.size());
        record(e & 0xFFFF);
        snap_load(before.data());
        inj_k1 = k1;
        g_verbose = v;
        g_viol_kind = vk;
    }
    if (inj_k1 < trace.size())
    {
        u32 at = trace[inj_k1];
        bp_left = (int)std::count(trace.begin(), trace.begin() + inj_k1, at);
        mode = RUN;
        set_bp(lib0() + at);
        apply(e);
        mode = OFF;
        clear_bp();
    }
    else
        apply(e);
    inj_cnt = trace.size();
}
}
