// Explores every behaviour of the slave role reachable with a menu of frames on the bus.
#include "tsan_rt.hpp"
#include "slave_env.hpp"
#ifndef BOTH
extern "C" {
#include "modbus_master_data_interface.h"
}
// the master role is not used here, but it is part of the linked library
const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return &sd_driver; }
extern "C" {
static void mcb() { viol("REPLY_CONTEXT", "the slave called the interface of a master application"); }
void modbus_master_coil_read(modbus_device_ID_t, modbus_adr_t, modbus_coil_disin_t) { mcb(); }
void modbus_master_disin_read(modbus_device_ID_t, modbus_adr_t, modbus_coil_disin_t) { mcb(); }
void modbus_master_hreg_read(modbus_device_ID_t, modbus_adr_t, modbus_reg_t) { mcb(); }
void modbus_master_inreg_read(modbus_device_ID_t, modbus_adr_t, modbus_reg_t) { mcb(); }
void modbus_master_coil_write(modbus_device_ID_t, modbus_adr_t, modbus_data_qty_t) { mcb(); }
void modbus_master_hreg_write(modbus_device_ID_t, modbus_adr_t, modbus_data_qty_t) { mcb(); }
void modbus_master_coil_exception(const modbus_read_data_t *) { mcb(); }
void modbus_master_disin_exception(const modbus_read_data_t *) { mcb(); }
void modbus_master_hreg_exception(const modbus_read_data_t *) { mcb(); }
void modbus_master_inreg_exception(const modbus_read_data_t *) { mcb(); }
void modbus_master_data_timeout_error(const modbus_master_error_report_t *) { mcb(); }
void modbus_master_communication_error(const modbus_master_error_report_t *) { mcb(); }
}
#endif
enum
{
    E_POLL = 1,
    E_TXDONE,
    E_FRAME,
    E_HALF,
    E_REST,
    E_T15,
    E_T35,
    E_FE,
    E_INIT,
    E_APP,
    E_REG
};
static std::string ev1(int t, int a)
{
    switch (t)
    {
    case E_POLL:
        return "check_modbus_request called";
    case E_TXDONE:
        return "transmission done";
    case E_FRAME:
        return std::string("frame arrives: ") + S_NAME[a];
    case E_HALF:
        return std::string("first half of a frame arrives: ") + S_NAME[a];
    case E_REST:
        return "second half of the frame arrives";
    case E_T15:
        return "1.5 character times of silence";
    case E_T35:
        return "3.5 character times of silence";
    case E_FE:
        return "frame error";
    case E_INIT:
        return "slave initialised again";
    case E_APP:
        return "application changes its values";
    case E_REG:
        return a == 0 ? "application registers its first variables as element 1" : a == 1 ? "application registers its second variables as element 1" : "application registers NULL as element 1";
    }
    return "?";
}
static bool do_isr(int t, int a)
{
    switch (t)
    {
    case E_TXDONE:
        return se_txdone();
    case E_FRAME:
        return se_frame(a, 0);
    case E_HALF:
        return se_frame(a, 1);
    case E_REST:
        return se_rest();
    case E_T15:
        return se_t15();
    case E_T35:
        return se_t35();
    case E_FE:
        return se_fe();
    }
    return false;
}
struct Burst
{
    int n;
    struct
    {
        int t, a;
    } e[6];
};
static std::vector<Burst> bursts;
static void add_burst(std::initializer_list<std::pair<int, int>> l)
{
    Burst b;
    b.n = 0;
    for (auto &p : l)
    {
        b.e[b.n].t = p.first;
        b.e[b.n].a = p.second;
        b.n++;
    }
    bursts.push_back(b);
}
static void make_bursts()
{
    add_burst({{E_TXDONE, 0}});
    add_burst({{E_T15, 0}});
    add_burst({{E_T35, 0}});
    add_burst({{E_T15, 0}, {E_T35, 0}});
    if (s_opt_fe)
        add_burst({{E_FE, 0}});
    if (s_opt_split)
        add_burst({{E_REST, 0}});
    for (int i = 0; i < n_s_menu; i++)
    {
        int f = s_menu[i];
        add_burst({{E_FRAME, f}});
        add_burst({{E_FRAME, f}, {E_T15, 0}});
        add_burst({{E_FRAME, f}, {E_T15, 0}, {E_T35, 0}});
        add_burst({{E_TXDONE, 0}, {E_FRAME, f}});
        add_burst({{E_TXDONE, 0}, {E_FRAME, f}, {E_T15, 0}});
        add_burst({{E_TXDONE, 0}, {E_FRAME, f}, {E_T15, 0}, {E_T35, 0}});
    }
}
static bool fire_burst(int b)
{
    if (b < 0)
        return true;
    if (sw.in_call && !sw.in_poll && inj_fired)
        return false;
    for (int i = 0; i < bursts[b].n; i++)
        if (!do_isr(bursts[b].e[i].t, bursts[b].e[i].a))
            return false;
    if (g_verbose)
    {
        std::string s;
        for (int i = 0; i < bursts[b].n; i++)
            s += std::string(i ? ", " : "") + ev1(bursts[b].e[i].t, bursts[b].e[i].a);
        printf("      [interrupts here: %s]\n", s.c_str());
    }
    return true;
}
static int bursts_for(Ev e, int *out)
{
    if (ev_type(e) != E_POLL && ev_type(e) != E_INIT)
        return 0;
    int n = 0;
    for (size_t i = 0; i < bursts.size(); i++)
        if (ev_type(e) == E_POLL || bursts[i].n == 1) // the initialisation is shorter than any two events of the line
            out[n++] = i;
    return n;
}
static std::string ev_str(Ev e)
{
    if (ev_type(e) == 0xFF)
        return "(then: line silent, four valid requests)";
    std::string s = ev1(ev_type(e), ev_arg(e));
    for (int w = 0; w < 2; w++)
    {
        int b = (int)((e >> (w ? 40 : 16)) & 0xFF) - 1;
        int k = (int)((e >> (w ? 48 : 24)) & 0xFFFF);
        if (b < 0)
            continue;
        s += ", interrupted at memory access " + std::to_string(k) + " by:";
        for (int i = 0; i < bursts[b].n; i++)
            s += std::string(i ? ", " : " ") + ev1(bursts[b].e[i].t, bursts[b].e[i].a);
    }
    return s;
}
static void root()
{
    lib_load(lib_pristine);
    memset(&sw, 0, sizeof sw);
    s_boot();
}
static void canon()
{
    if (!sw.tx_busy)
    {
        sw.tx_ptr = 0, sw.tx_len = 0;
        memset(sw.tx, 0, sizeof sw.tx);
    }
    if (!sw.phase)
        sw.f_type = sw.f_part = sw.f_dirty = sw.f_extra = sw.f_fe = 0;
}
static int gen(Ev *o)
{
    int n = 0;
    o[n++] = mkev(E_POLL);
    if (sw.tx_busy || s_opt_spur)
        o[n++] = mkev(E_TXDONE);
    if (s_line_may_begin())
        for (int i = 0; i < n_s_menu; i++)
        {
            o[n++] = mkev(E_FRAME, s_menu[i]);
            if (s_opt_split)
                o[n++] = mkev(E_HALF, s_menu[i]);
        }
    if (sw.phase && sw.f_part == 1)
        o[n++] = mkev(E_REST);
    if (sw.phase == 1 || (sw.phase == 2 && s_opt_rep15))
        o[n++] = mkev(E_T15);
    if (sw.phase == 2)
        o[n++] = mkev(E_T35);
    if (s_opt_fe)
        o[n++] = mkev(E_FE);
    if (s_opt_reinit)
        o[n++] = mkev(E_INIT);
    if (s_opt_app)
        o[n++] = mkev(E_APP);
    if (s_opt_reg)
        for (int i = 0; i < 3; i++)
            if (i != sw.own)
                o[n++] = mkev(E_REG, i);
    return n;
}
static void apply(Ev e)
{
    int t = ev_type(e), a = ev_arg(e);
    switch (t)
    {
    case E_POLL:
        s_poll();
        break;
    case E_INIT:
        s_init();
        break;
    case E_APP:
        s_app();
        break;
    case E_REG:
        sw.own = a;
        s_register1();
        break;
    default:
        do_isr(t, a);
    }
    if (!g_viol_kind)
        s_data_ok(ev1(t, a).c_str());
}
static void settle() { s_settle(); }
static void stats(std::string &s)
{
    char b[400];
    snprintf(b, sizeof b, ",\"replies\":%llu,\"read_replies\":%llu,\"write_replies\":%llu,\"exceptions\":%llu,\"failures\":%llu,\"silent_frames\":%llu",
             (unsigned long long)s_obs_send, (unsigned long long)s_obs_cat[R_READ], (unsigned long long)s_obs_cat[R_WRITE], (unsigned long long)s_obs_cat[R_INVALID], (unsigned long long)s_obs_cat[R_FAILURE], (unsigned long long)s_obs_silent);
    s += b;
}
#ifndef BOTH
int main(int argc, char **argv)
{
    parse_opts(argc, argv);
    s_config();
    inj_bound = opts.get("inj", 0);
    make_bursts();
    world_ptr = &sw;
    world_size = sizeof sw;
    extra_stats = stats;
    return explorer_main();
}
#endif
