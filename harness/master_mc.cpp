// Explores every behaviour of the master role reachable with a menu of requests and bus frames.
#include "tsan_rt.hpp"
#include "master_env.hpp"
// the slave role is not used here, but it is part of the linked library
#ifndef BOTH
const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return &md_driver; }
#endif

enum
{
    E_POLL = 1,
    E_TICK,
    E_APP,
    E_TXDONE,
    E_FRAME,
    E_HALF,
    E_REST,
    E_T15,
    E_T35,
    E_FE,
    E_INIT,
    E_ARM
};
static std::string ev1(int t, int a)
{
    switch (t)
    {
    case E_POLL:
        return "manager called";
    case E_TICK:
        return "1 ms timer tick";
    case E_APP:
        return "application requests: " + rq_str(a);
    case E_TXDONE:
        return "transmission done";
    case E_FRAME:
        return std::string("frame arrives: ") + F_NAME[a];
    case E_HALF:
        return std::string("first half of a frame arrives: ") + F_NAME[a];
    case E_REST:
        return "second half of the frame arrives";
    case E_T15:
        return "1.5 character times of silence";
    case E_T35:
        return "3.5 character times of silence";
    case E_FE:
        return "frame error";
    case E_INIT:
        return "master initialised again";
    case E_ARM:
        return a ? "application will initialise again and request from its next callback" : "application will request from its next callback";
    }
    return "?";
}
// With a long response timeout: tstep=K lets the timer advance by K ticks at a time (to the next multiple of K), except for
// one tick per request that may come between two memory accesses of a call.
static u32 opt_tstep = 1;
static bool do_isr(int t, int a)
{
    switch (t)
    {
    case E_TICK:
        return me_tick();
    case E_TXDONE:
        return me_txdone();
    case E_FRAME:
        return me_frame(a, 0);
    case E_HALF:
        return me_frame(a, 1);
    case E_REST:
        return me_rest();
    case E_T15:
        return me_t15();
    case E_T35:
        return me_t35();
    case E_FE:
        return me_fe();
    }
    return false;
}
struct Burst
{
    int n;
    struct
    {
        int t, a;
    } e[12];
};
static std::vector<Burst> bursts;
static void add_burst(std::initializer_list<std::pair<int, int>> l)
{
    Burst b;
    b.n = 0;
    for (auto &p : l)
    {
        b.e[b.n].t = p.first;
        b.e[b.n].a = p.second;
        b.n++;
    }
    bursts.push_back(b);
}
static void make_bursts()
{
    int lvl = opts.get("bursts", 1);
    add_burst({{E_TXDONE, 0}});
    add_burst({{E_TICK, 0}});
    add_burst({{E_T15, 0}});
    add_burst({{E_T35, 0}});
    if (opt_fe)
        add_burst({{E_FE, 0}});
    for (int i = 0; i < n_frame_menu; i++)
        add_burst({{E_FRAME, frame_menu[i]}});
    add_burst({{E_T15, 0}, {E_T35, 0}});
    for (int i = 0; i < n_frame_menu; i++)
        add_burst({{E_FRAME, frame_menu[i]}, {E_T15, 0}, {E_T35, 0}});
    if (lvl > 0)
        for (int i = 0; i < n_frame_menu; i++)
        {
            add_burst({{E_TXDONE, 0}, {E_FRAME, frame_menu[i]}});
            add_burst({{E_TXDONE, 0}, {E_FRAME, frame_menu[i]}, {E_T15, 0}});
            add_burst({{E_TXDONE, 0}, {E_FRAME, frame_menu[i]}, {E_T15, 0}, {E_T35, 0}});
            add_burst({{E_FRAME, frame_menu[i]}, {E_T15, 0}});
        }
    if (opt_tstep > 1)
        return;
    Burst b;
    b.n = 0;
    for (int i = 0; i < cfg_TO && i < 11; i++)
        b.e[b.n].t = E_TICK, b.e[b.n++].a = 0;
    bursts.push_back(b);
}
static bool fire_burst(int b)
{
    if (b < 0)
        return true;
    if (opt_tstep > 1 && bursts[b].e[0].t == E_TICK && mw.itick++)
        return false;
    for (int i = 0; i < bursts[b].n; i++)
        if (!do_isr(bursts[b].e[i].t, bursts[b].e[i].a))
            return false;
    if (g_verbose)
    {
        std::string s;
        for (int i = 0; i < bursts[b].n; i++)
            s += std::string(i ? ", " : "") + ev1(bursts[b].e[i].t, bursts[b].e[i].a);
        printf("      [interrupts here: %s]\n", s.c_str());
    }
    return true;
}
static int bursts_for(Ev e, int *out)
{
    int t = ev_type(e);
    if (t != E_POLL && t != E_APP && t != E_INIT)
        return 0;
    int n = 0;
    for (size_t i = 0; i < bursts.size(); i++)
        if (t != E_INIT || bursts[i].n == 1) // the initialisation is shorter than any two events of the line
            out[n++] = i;
    return n;
}
static std::string ev_str(Ev e)
{
    if (ev_type(e) == 0xFF)
        return "(then: bus silent until every request has its outcome; N requests made and answered)";
    std::string s = ev1(ev_type(e), ev_arg(e));
    for (int w = 0; w < 2; w++)
    {
        int b = (int)((e >> (w ? 40 : 16)) & 0xFF) - 1;
        int k = (int)((e >> (w ? 48 : 24)) & 0xFFFF);
        if (b < 0)
            continue;
        s += ", interrupted at memory access " + std::to_string(k) + " by:";
        for (int i = 0; i < bursts[b].n; i++)
            s += std::string(i ? ", " : " ") + ev1(bursts[b].e[i].t, bursts[b].e[i].a);
    }
    return s;
}
static void canon()
{
    if (!mw.tx_busy)
        mw.tx_ptr = 0, mw.tx_len = 0;
    if (!mw.phase)
        mw.f_type = mw.f_req = mw.f_part = mw.f_fe = mw.f_dirty = mw.f_extra = 0;
    if (!opt_stray)
    {
        mw.lastk = 0;
        if (mw.hs != 2 && !mw.phase)
            mw.polls35 = READY;
    }
    if (!mw.out)
        mw.cand = 0;
    if (!opt_late)
        mw.stick = mw.wpoll = mw.lateP = 0;
}
static void root()
{
    lib_load(lib_pristine);
    memset(&mw, 0, sizeof mw);
    m_init();
}
static int gen(Ev *o)
{
    int n = 0;
    o[n++] = mkev(E_POLL);
    o[n++] = mkev(E_TICK);
    for (int i = 0; i < n_req_menu; i++)
        o[n++] = mkev(E_APP, req_menu[i]);
    if (mw.tx_busy || opt_spur)
        o[n++] = mkev(E_TXDONE);
    if (line_may_begin() && (mw.hs == 2 || opt_stray))
    {
        const int *m = mw.hs == 2 ? frame_menu : noise_menu;
        int c = mw.hs == 2 ? n_frame_menu : n_noise_menu;
        for (int i = 0; i < c; i++)
        {
            o[n++] = mkev(E_FRAME, m[i]);
            if (opt_split)
                o[n++] = mkev(E_HALF, m[i]);
        }
    }
    if (mw.phase && mw.f_part == 1)
        o[n++] = mkev(E_REST);
    if (mw.phase == 1 || (mw.phase == 2 && opt_rep15))
        o[n++] = mkev(E_T15);
    if (mw.phase == 2)
        o[n++] = mkev(E_T35);
    if (opt_fe && !mw.f_fe && (mw.phase || opt_fe > 1) && (mw.hs == 2 || opt_stray))
        o[n++] = mkev(E_FE);
    if (opt_reinit)
        o[n++] = mkev(E_INIT);
    if (opt_arm && !mw.arm)
    {
        o[n++] = mkev(E_ARM, 0);
        if (opt_arm > 1)
            o[n++] = mkev(E_ARM, 1);
    }
    return n;
}
static void apply(Ev e)
{
    int t = ev_type(e), a = ev_arg(e);
    switch (t)
    {
    case E_POLL:
        m_poll();
        break;
    case E_APP:
        m_app(a);
        break;
    case E_INIT:
        m_init();
        break;
    case E_ARM:
        mw.arm = 1 + a;
        break;
    case E_TICK:
        for (u32 i = opt_tstep - mw.tick % opt_tstep; i; i--)
            me_tick();
        break;
    default:
        do_isr(t, a);
    }
}
static void settle() { m_settle(); }
static void stats(std::string &s)
{
    char b[400];
    snprintf(b, sizeof b, ",\"sends\":%llu,\"retransmissions\":%llu,\"deliveries\":%llu,\"confirmations\":%llu,\"exceptions\":%llu,\"timeouts\":%llu,\"comm_errors\":%llu,\"refused\":%llu",
             (unsigned long long)m_obs_send, (unsigned long long)m_obs_retx, (unsigned long long)m_obs_deliver, (unsigned long long)m_obs_conf, (unsigned long long)m_obs_exc, (unsigned long long)m_obs_timeout, (unsigned long long)m_obs_comm, (unsigned long long)m_obs_refused);
    s += b;
}
#ifndef BOTH
int main(int argc, char **argv)
{
    parse_opts(argc, argv);
    m_config();
    inj_bound = opts.get("inj", 0);
    opt_tstep = opts.get("tstep", 1);
    make_bursts();
    world_ptr = &mw;
    world_size = sizeof mw;
    extra_stats = stats;
    return explorer_main();
}
#endif
