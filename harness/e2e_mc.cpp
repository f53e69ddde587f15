// Both roles in one program, connected by a line: what the master's application learns has to be what the slave's
// application has.  Explores every interleaving of the two main programs, the interrupts and the faults of the line.
#include "tsan_rt.hpp"
#include "ref.hpp"
#include "modbus_master.h"
#include "modbus_slave.h"
#include "modbus_driver_interface.h"
extern "C" {
#include "modbus_master_data_interface.h"
extern const int cfg_N, cfg_TO, cfg_R;
}
#define TAB 4
#define READY 4
#define SID 9
#define MAXP 8
struct Side
{
    driver_subscr_cb_t cb15, cb35, cbtx, cbfe;
    modbus_req_resp_t *rx;
    u8 rx_on, tx_busy, tx_len;
    const u8 *tx;
    u8 polls; // since the last event of the line
};
struct World
{
    // the slave's application
    modbus_coil_disin_t c[TAB], d[TAB];
    modbus_reg_t ir[TAB], hr[TAB];
    u16 ec[TAB], ehr[TAB]; // before the request being processed
    u16 ed[TAB], eir[TAB];
    u16 snap[TAB];         // requested elements when the slave answered
    Side m, s;
    u8 phase; // of the frame that has arrived: 1 characters, 2 1.5 characters of silence
    u8 to;    // 1 it goes to the slave, 2 to the master
    u8 fault; // it is damaged
    u8 np, pend[MAXP];
    u8 hs, attempts;  // transmissions of the oldest request
    u8 req_ok;        // the last transmission of it arrived intact at the slave (not answered yet)
    u8 exec;          // it arrived intact at least once: its effect may have taken place
    u8 answered;      // the slave has answered the last transmission
    u8 resp_fault;    // the answer to the last transmission was damaged (1) or lost (2)
    u8 req_fault;     // the last transmission was damaged or lost
    u8 ticks;
    u8 soft; // not used: the line carries nothing but frames
    u8 out;
    u8 mpoll, spoll, incall;
    u8 flips;
    u8 dmask;
};
static World w;
static u64 o_send, o_reply, o_deliver, o_conf, o_exc, o_to, o_comm, o_fault;

#include "e2e_oracle.hpp"
static int faults[32], n_faults, order_;

// ---- drivers ----
static void m_drv_init(baud_t, parity_t)
{
    point();
    w.m.tx_busy = 0;
}
static void s_drv_init(baud_t, parity_t)
{
    point();
    w.s.tx_busy = 0;
}
static bool line_busy() { return w.m.tx_busy || w.s.tx_busy || w.phase; }
static void m_send(modbus_buf_t *b, modbus_buf_size_t n)
{
    point();
    LOG("      master transmits %s\n", hex(b, n).c_str());
    if (!started_by_master())
        return;
    w.m.tx_busy = 1;
    w.m.tx = b;
    w.m.tx_len = n;
    point();
}
static void s_send(modbus_buf_t *b, modbus_buf_size_t n)
{
    point();
    LOG("      slave transmits %s\n", hex(b, n).c_str());
    if (!started_by_slave())
        return;
    w.s.tx_busy = 1;
    w.s.tx = b;
    w.s.tx_len = n;
    point();
}
static void m_ena(modbus_req_resp_t *p) { w.m.rx = p, w.m.rx_on = 1, point(); }
static void s_ena(modbus_req_resp_t *p) { w.s.rx = p, w.s.rx_on = 1, point(); }
static void m_dis(void) { w.m.rx_on = 0; }
static void s_dis(void) { w.s.rx_on = 0; }
#define SUBS(x) \
    static void x##15(driver_subscr_cb_t c) { w.x.cb15 = c; } static void x##tx(driver_subscr_cb_t c) { w.x.cbtx = c; } static void x##35(driver_subscr_cb_t c) { w.x.cb35 = c; } static void x##fe(driver_subscr_cb_t c) { w.x.cbfe = c; }
SUBS(m)
SUBS(s)
static const modbus_RTU_driver_struct_t mdrv = {m_drv_init, m_send, m_ena, m_dis, m15, mtx, m35, mfe};
static const modbus_RTU_driver_struct_t sdrv = {s_drv_init, s_send, s_ena, s_dis, s15, stx, s35, sfe};
const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return &mdrv; }
const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return &sdrv; }

// ---- the line ----
enum
{
    L_OK,
    L_LOST,
    L_FIRST, // a bit of the address
    L_FN,    // of the function code
    L_DATA,  // of the third byte
    L_LAST,  // of the CRC
    L_BYTE4,
    L_CUT,   // the last character is missing
    L_ERROR, // a character error was detected
    L_HEAD,  // only the address arrives
    L_BURST, // 16 bits inverted
    L_N
};
static const char *const L_NAME[] = {"arrives intact", "is lost", "arrives with a wrong address", "arrives with a damaged function code", "arrives with a damaged third byte", "arrives with a damaged CRC", "arrives with a damaged fourth byte", "arrives without its last character", "arrives with a character error", "breaks off after the first character", "arrives with two inverted bytes"};
static bool may_arrive(int to) { return to == 1 ? w.s.polls >= READY : true; }
static bool txdone(int to, int f) // to 1: the master's transmission ends and has arrived at the slave
{
    Side &a = to == 1 ? w.m : w.s, &b = to == 1 ? w.s : w.m;
    if (!a.tx_busy || !may_arrive(to))
        return false;
    u8 x[260];
    int n = a.tx_len;
    memcpy(x, a.tx, n);
    a.tx_busy = 0;
    if (f)
        o_fault++;
    switch (f)
    {
    case L_FIRST:
        x[0] ^= 0x20;
        break;
    case L_FN:
        x[1] ^= 2;
        break;
    case L_DATA:
        x[2] ^= 0x80;
        break;
    case L_BYTE4:
        x[3] ^= 1;
        break;
    case L_LAST:
        x[n - 1] ^= 4;
        break;
    case L_CUT:
        n--;
        break;
    case L_HEAD:
        n = 1;
        break;
    case L_BURST:
        x[n / 2] ^= 0xFF;
        x[n / 2 + 1] ^= 0xFF;
        break;
    }
    if (to == 1)
    {
        w.hs = 2;
        w.ticks = 0;
        w.req_fault = f != 0;
    }
    else if (f == L_LOST)
        w.resp_fault = 2;
    if (f != L_LOST)
    {
        w.phase = 1;
        w.to = to;
        w.fault = f != 0;
        for (int i = 0; i < n; i++)
            if (b.rx && b.rx_on)
                b.rx->data[b.rx->len++] = x[i];
        if (f == L_ERROR)
            b.cbfe();
    }
    a.polls = READY;
    a.cbtx();
    return true;
}
static bool t15()
{
    if (w.phase != 1)
        return false;
    w.phase = 2;
    (w.to == 1 ? w.s : w.m).cb15();
    return true;
}
static bool t35()
{
    if (w.phase != 2)
        return false;
    w.phase = 0;
    if (w.to == 1)
    {
        if (!w.fault && w.np && RQ[w.pend[0]].id == SID)
            w.req_ok = w.exec = 1;
        w.s.polls = 0;
    }
    else
    {
        if (w.fault && !w.resp_fault)
            w.resp_fault = 1;
        w.m.polls = 0;
    }
    (w.to == 1 ? w.s : w.m).cb35();
    return true;
}
static bool waiting_for_answer() { return w.phase || w.s.tx_busy || (w.req_ok && !w.answered) || (w.answered && !w.resp_fault); }
static bool may_tick() { return !(w.hs == 2 && waiting_for_answer() && w.ticks + 2 >= cfg_TO); }
static bool tick()
{
    if (!may_tick())
        return false;
    if (w.hs == 2 && w.ticks < cfg_TO)
        w.ticks++;
    update_modbus_master_timout_timer();
    return true;
}

// ---- the main programs ----
static void m_poll()
{
    w.mpoll = 1;
    inj_active = true;
    update_modbus_master_manager();
    inj_active = false;
    w.mpoll = 0;
    if (w.out && !g_viol_kind)
        viol("VALUE", "only a part of the values was delivered");
    if (w.m.polls < READY)
        w.m.polls++;
}
static void s_poll()
{
    w.spoll = 1;
    inj_active = true;
    check_modbus_request();
    inj_active = false;
    w.spoll = 0;
    if (w.s.polls < READY)
        w.s.polls++;
    if (w.req_ok && !w.answered && w.s.polls >= READY && !w.phase)
        viol("REPLY", "the slave did not answer an intact request: %s", w.np ? RQ[w.pend[0]].name : "");
}
static void init_m() { modbus_master_init(RTU, 9600, EVEN); }
static void init_s() { modbus_slave_init(RTU, 9600, EVEN, SID); }
static void root()
{
    lib_load(lib_pristine);
    memset(&w, 0, sizeof w);
    data_init();
    if (order_)
        init_s();
    init_m();
    if (!order_)
        init_s();
    w.m.polls = w.s.polls = READY;
}
enum
{
    E_MPOLL = 1,
    E_SPOLL,
    E_TICK,
    E_APP,
    E_MTX,
    E_STX,
    E_T15,
    E_T35,
    E_FLIP
};
static std::string ev1(int t, int a)
{
    switch (t)
    {
    case E_MPOLL:
        return "master's manager called";
    case E_SPOLL:
        return "slave's manager called";
    case E_TICK:
        return "1 ms timer tick";
    case E_APP:
        return std::string("request: ") + RQ[a].name;
    case E_MTX:
        return std::string("the master's frame ") + L_NAME[a];
    case E_STX:
        return std::string("the slave's frame ") + L_NAME[a];
    case E_T15:
        return "1.5 character times of silence";
    case E_T35:
        return "3.5 character times of silence";
    case E_FLIP:
        return "the slave's inputs change";
    }
    return "?";
}
static bool isr(int t, int a)
{
    switch (t)
    {
    case E_TICK:
        return tick();
    case E_MTX:
        return txdone(1, a);
    case E_STX:
        return txdone(2, a);
    case E_T15:
        return t15();
    case E_T35:
        return t35();
    }
    return false;
}
static std::vector<std::vector<std::pair<int, int>>> bursts;
static bool fire_burst(int b)
{
    if (b < 0)
        return true;
    for (auto &p : bursts[b])
        if (!isr(p.first, p.second))
            return false;
    return true;
}
static int bursts_for(Ev e, int *out)
{
    int t = ev_type(e);
    if (t != E_MPOLL && t != E_SPOLL && t != E_APP)
        return 0;
    for (size_t i = 0; i < bursts.size(); i++)
        out[i] = i;
    return bursts.size();
}
static std::string ev_str(Ev e)
{
    if (ev_type(e) == 0xFF)
        return "(then: an undisturbed line until every request has its outcome; a write and a read)";
    std::string s = ev1(ev_type(e), ev_arg(e));
    for (int k = 0; k < 2; k++)
    {
        int b = (int)((e >> (k ? 40 : 16)) & 0xFF) - 1;
        if (b < 0)
            continue;
        s += ", interrupted at memory access " + std::to_string((int)((e >> (k ? 48 : 24)) & 0xFFFF)) + " by:";
        for (auto &p : bursts[b])
            s += " " + ev1(p.first, p.second);
    }
    return s;
}
static void canon()
{
    if (!w.m.tx_busy)
        w.m.tx = 0, w.m.tx_len = 0;
    if (!w.s.tx_busy)
        w.s.tx = 0, w.s.tx_len = 0;
    if (!w.phase)
        w.to = w.fault = 0;
}
static int gen(Ev *o)
{
    int n = 0;
    o[n++] = mkev(E_MPOLL);
    o[n++] = mkev(E_SPOLL);
    if (may_tick())
        o[n++] = mkev(E_TICK);
    for (int i = 0; i < n_menu; i++)
        o[n++] = mkev(E_APP, menu[i]);
    for (int s = 1; s <= 2; s++)
        if ((s == 1 ? w.m : w.s).tx_busy && may_arrive(s))
            for (int i = 0; i < n_faults; i++)
                o[n++] = mkev(s == 1 ? E_MTX : E_STX, faults[i]);
    if (w.phase == 1)
        o[n++] = mkev(E_T15);
    if (w.phase == 2)
        o[n++] = mkev(E_T35);
    if (opts.get("flip", 0))
        o[n++] = mkev(E_FLIP);
    return n;
}
static void apply(Ev e)
{
    int t = ev_type(e), a = ev_arg(e);
    switch (t)
    {
    case E_MPOLL:
        m_poll();
        break;
    case E_SPOLL:
        s_poll();
        break;
    case E_APP:
        request(a);
        break;
    case E_FLIP:
        app_flip();
        break;
    default:
        isr(t, a);
    }
    if (!g_viol_kind)
        data_check(ev1(t, a).c_str());
}
static void run_clean()
{
    int lim = cfg_N * (cfg_R + 2) * (cfg_TO + 20) + 60;
    for (int i = 0; i < lim && !g_viol_kind; i++)
    {
        if (!w.np && !w.m.tx_busy && !w.s.tx_busy && !w.phase && w.s.polls >= READY)
            return;
        if (w.m.tx_busy)
            txdone(1, 0);
        else if (w.s.tx_busy)
            txdone(2, 0);
        else if (w.phase == 1)
            t15();
        else if (w.phase == 2)
            t35();
        else if (i % 4 == 3)
            tick();
        s_poll();
        m_poll();
        if (!g_viol_kind)
            data_check("afterwards");
    }
    if (!g_viol_kind)
        viol("PROGRESS", "%d requests got no outcome", w.np);
}
static void settle()
{
    run_clean();
    static const int probe[] = {12, 0, 4, 3};
    for (int i = 0; i < 4 && !g_viol_kind; i++)
    {
        u64 before = o_deliver + o_conf;
        request(probe[i]);
        if (g_viol_kind)
            return;
        run_clean();
        if (!g_viol_kind && o_deliver + o_conf == before)
            viol("OUTCOME", "a request over an undisturbed line had no success: %s", RQ[probe[i]].name);
    }
}
int main(int argc, char **argv)
{
    parse_opts(argc, argv);
    list("reqs", "0,1", menu, n_menu, NRQ);
    list("faults", "0,1,5", faults, n_faults, 32);
    order_ = opts.get("order", 0);
    inj_bound = opts.get("inj", 0);
    bursts.push_back({{E_TICK, 0}});
    bursts.push_back({{E_T15, 0}});
    bursts.push_back({{E_T35, 0}});
    bursts.push_back({{E_T15, 0}, {E_T35, 0}});
    for (int i = 0; i < n_faults; i++)
        for (int t = E_MTX; t <= E_STX; t++)
        {
            bursts.push_back({{t, faults[i]}});
            bursts.push_back({{t, faults[i]}, {E_T15, 0}});
            bursts.push_back({{t, faults[i]}, {E_T15, 0}, {E_T35, 0}});
        }
    world_ptr = &w;
    world_size = sizeof w;
    extra_stats = stats;
    return explorer_main();
}
