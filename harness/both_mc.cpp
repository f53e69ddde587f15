// Both roles in one program: explores every interleaving of what the master and the slave do, each with its own bus,
// and with the interrupts of either striking the main program of the other.  The monitors are those of the single
// roles: neither role may behave differently because the other one is there.
#define BOTH
#define WORLD __attribute__((section("world")))
#include "tsan_rt.hpp"
#include "master_env.hpp"
#include "slave_env.hpp"
extern "C" {
extern char __start_world[], __stop_world[];
}
namespace M
{
static void apply(Ev);
#include "master_mc.cpp"
}
namespace S
{
#include "slave_mc.cpp"
}
#define SOFF 0x40
static Ev se(Ev e) { return e - SOFF; }
static bool is_s(Ev e) { return ev_type(e) >= SOFF && ev_type(e) != 0xFF; }
static int nmb() { return M::bursts.size(); }
static bool fire_burst(int b)
{
    if (b < 0)
        return true;
    return b < nmb() ? M::fire_burst(b) : S::fire_burst(b - nmb());
}
static int bursts_for(Ev e, int *out)
{
    int t = is_s(e) ? ev_type(e) - SOFF : ev_type(e);
    if (is_s(e) ? t != S::E_POLL : t != M::E_POLL && t != M::E_APP)
        return 0;
    int n = nmb() + S::bursts.size();
    for (int i = 0; i < n; i++)
        out[i] = i;
    return n;
}
static std::string burst_str(int b)
{
    std::string s;
    if (b < nmb())
        for (int i = 0; i < M::bursts[b].n; i++)
            s += std::string(i ? ", " : "master: ") + M::ev1(M::bursts[b].e[i].t, M::bursts[b].e[i].a);
    else
        for (int i = 0; i < S::bursts[b - nmb()].n; i++)
            s += std::string(i ? ", " : "slave: ") + S::ev1(S::bursts[b - nmb()].e[i].t, S::bursts[b - nmb()].e[i].a);
    return s;
}
static std::string ev_str(Ev e)
{
    if (ev_type(e) == 0xFF)
        return "(then: bus silent until every request has its outcome, N requests made and answered; four valid requests to the slave)";
    std::string s = is_s(e) ? "slave: " + S::ev1(ev_type(e) - SOFF, ev_arg(e)) : "master: " + M::ev1(ev_type(e), ev_arg(e));
    for (int w = 0; w < 2; w++)
    {
        int b = (int)((e >> (w ? 40 : 16)) & 0xFF) - 1;
        int k = (int)((e >> (w ? 48 : 24)) & 0xFFFF);
        if (b >= 0)
            s += ", interrupted at memory access " + std::to_string(k) + " by " + burst_str(b);
    }
    return s;
}
static void canon()
{
    M::canon();
    S::canon();
}
static int order = 0;
static void root()
{
    lib_load(lib_pristine);
    memset(&mw, 0, sizeof mw);
    memset(&sw, 0, sizeof sw);
    if (order)
        s_boot();
    m_init();
    if (!order)
        s_boot();
}
static int gen(Ev *o)
{
    int n = M::gen(o);
    int k = S::gen(o + n);
    for (int i = 0; i < k; i++)
        o[n + i] += SOFF;
    return n + k;
}
static void apply(Ev e)
{
    if (is_s(e))
        S::apply(se(e));
    else
    {
        M::apply(e);
        if (!g_viol_kind)
            s_data_ok(M::ev1(ev_type(e), ev_arg(e)).c_str());
    }
}
static void settle()
{
    m_settle();
    if (!g_viol_kind)
        s_settle();
    if (!g_viol_kind)
        m_settle();
}
static void stats(std::string &s)
{
    M::stats(s);
    char b[200];
    snprintf(b, sizeof b, ",\"replies\":%llu,\"silent_frames\":%llu", (unsigned long long)s_obs_send, (unsigned long long)s_obs_silent);
    s += b;
}
int main(int argc, char **argv)
{
    parse_opts(argc, argv);
    m_config();
    if (opts.get("mirror", 0))
    { // the master's requests to its slaves are, byte for byte, what the slave receives on its own bus
        rq_set(0, FC_RHR, SID, 1, 2, 0);
        rq_set(1, FC_WSC, SID, 2, 1, 1);
        rq_set(4, FC_RIR, SID, 3, 1, 0);
        rq_set(5, FC_WSR, SID, 1, 1, 0xBE01);
        rq_set(6, FC_RDI, SID, 0, 3, 0);
        frames_init();
    }
    order = opts.get("order", 0);
    inj_bound = opts.get("inj", 0);
    M::make_bursts();
    auto all = opts.kv;
    opts.kv.clear();
    for (auto &p : all)
        if (p.first.substr(0, 2) == "s_")
            opts.kv.push_back({p.first.substr(2), p.second});
    s_config();
    S::make_bursts();
    opts.kv = all;
    world_ptr = __start_world;
    world_size = __stop_world - __start_world;
    extra_stats = stats;
    return explorer_main();
}
