// Master and slave on two modelled STM32 boards, with the drivers of the examples: USART (transmit register, shift
// register, receiver time-out) and the one-pulse timer, character by character.  Time passes in half characters.
#include "tsan_rt.hpp"
#include "ref.hpp"
#include "modbus_master.h"
#include "modbus_slave.h"
#include "modbus_driver_interface.h"
#include "board/stm32g070xx.h"
extern "C" {
#include "modbus_master_data_interface.h"
extern const int cfg_N, cfg_TO, cfg_R;
void m_usart_irq(void);
void m_timer_irq(void);
void s_usart_irq(void);
void s_timer_irq(void);
}
#define TAB 4
#define READY 4
#define SID 9
#define MAXP 8
#define CLK 64000000.0
struct Hw
{
    u32 cr1, cr2, cr3, brr, rtor, arr, psc, tcr1, tdier;
    u8 nvic_u, nvic_t;
    u8 tdr, tdr_full, sh, left; // left: half characters of the one being transmitted
    u8 fault;                   // what happens to it
    u8 rdr, rxne, rtof, rto_run, rto_cnt;
    u8 cnt, uif;
    u8 polls, lag; // of the main program; half characters since it was last called
    u8 quiet;      // half characters since the last character arrived here
    u8 faults;     // in the frame being transmitted
};
struct World
{
    modbus_coil_disin_t c[TAB], d[TAB];
    modbus_reg_t ir[TAB], hr[TAB];
    u16 ec[TAB], ehr[TAB];
    u16 ed[TAB], eir[TAB];
    u16 snap[TAB];
    Hw hw[2];
    u8 frame;    // on the line: 1 of the master, 2 of the slave; until 3.5 characters after its end
    u8 since;    // half characters since its end
    u8 maybe;    // it may or may not be understood: something else was on the line shortly before
    u8 bad;      // it was damaged
    u8 noise;    // half characters since the last stray character (from NQ on: long ago)
    u8 strays;
    u8 s_turn; // the slave's program has run in this half character: the master's, which does not affect it, ran before
    u8 np, pend[MAXP];
    u8 set;  // line settings in use, where they change
    u8 soft; // something else was on the line shortly before the request: any outcome that is not wrong will do
    u8 hs, attempts, req_ok, exec, answered, resp_fault, req_fault, ticks, out, mpoll, spoll, incall, flips, dmask;
};
static World w;
static u64 o_send, o_reply, o_deliver, o_conf, o_exc, o_to, o_comm, o_fault;
static u64 o_chars, o_irq;
#include "e2e_oracle.hpp"

enum
{
    CH_OK,
    CH_LOST,
    CH_LOW,  // the lowest bit is inverted
    CH_HIGH, // the highest bit is inverted
    CH_ALL,
};
static const char *const CH_NAME[] = {"intact", "lost", "with the lowest bit inverted", "with the highest bit inverted", "with all bits inverted"};
static const u8 CH_XOR[] = {0, 0, 1, 0x80, 0xFF};
static int max_lag, max_faults, max_strays, baud_, parity_;
static int T35, NQ, RTO_U[2], TIM_U[2];
static const u8 STRAY[] = {SID, 0x00, 0xFF};
fake_board_t fake_board[2];
// Repairs of known findings that could not be applied to the drivers as they are now (see build.sh): the hardware is made
// such that what they repair cannot strike.
static bool no_first, no_echo, no_slow, no_again;
static void unrepaired()
{
    char exe[4096];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 20);
    if (n <= 0)
        return;
    exe[n] = 0;
    strcpy(strrchr(exe, '/') + 1, "unrepaired");
    FILE *f = fopen(exe, "r");
    char l[100];
    while (f && fscanf(f, "%99s", l) == 1)
    {
        no_first |= !strcmp(l, "stray-before-first-request");
        no_echo |= !strcmp(l, "receive-as-transmitted");
        no_slow |= !strcmp(l, "below-2400-baud");
        no_again |= !strcmp(l, "settings-again");
    }
    if (f)
        fclose(f);
}

// ---- hardware ----
static bool transmitting(int b) { return w.hw[b].left || w.hw[b].tdr_full; }
static bool line_busy() { return w.hw[0].left || w.hw[1].left || (w.frame == 2 && w.hw[0].quiet < T35) || (w.frame == 1 && w.hw[1].quiet < T35 && !w.req_fault); }
static void load(int b)
{
    Hw &h = w.hw[b];
    h.sh = h.tdr;
    h.tdr_full = 0;
    h.left = 2;
    h.fault = CH_OK;
}
static void tdr_written(int b, u8 v)
{
    Hw &h = w.hw[b];
    bool first = !transmitting(b);
    h.tdr = v;
    h.tdr_full = 1;
    if (!(h.cr1 & USART_CR1_UE) || !(h.cr1 & USART_CR1_TE))
        return;
    if (first)
    {
        LOG("      %s begins to transmit\n", b ? "slave" : "master");
        if (!(b ? started_by_slave() : started_by_master()))
            return;
        w.frame = b + 1;
        w.since = w.bad = h.faults = 0;
        w.maybe = w.noise < NQ;
        if (w.maybe && !b)
            w.req_fault = w.soft = 1;
    }
    if (!h.left)
        load(b);
}
#define CR1_M1 (1u << 28)
#define CR2_STOP (3u << 12)
#define CR1_LOCKED (USART_CR1_PCE | USART_CR1_PS | USART_CR1_M0 | CR1_M1)
#define OFF(f) offsetof(fake_board_t, f)
static int board_of(const void *r) { return ((const char *)r - (const char *)fake_board) / sizeof(fake_board_t); }
static size_t off_of(const void *r) { return ((const char *)r - (const char *)fake_board) % sizeof(fake_board_t); }
extern "C" uint32_t hw_rd(const void *r)
{
    point();
    Hw &h = w.hw[board_of(r)];
    switch (off_of(r))
    {
    case OFF(usart2.CR1):
        return h.cr1;
    case OFF(usart2.CR2):
        return h.cr2;
    case OFF(usart2.CR3):
        return h.cr3;
    case OFF(usart2.BRR):
        return h.brr;
    case OFF(usart2.RTOR):
        return h.rtor;
    case OFF(usart2.ISR):
        return (h.rxne ? USART_ISR_RXNE_RXFNE : 0) | (h.tdr_full || (no_echo && !(h.cr1 & USART_CR1_TXEIE_TXFNFIE)) ? 0 : USART_ISR_TXE_TXFNF) | (h.rtof ? USART_ISR_RTOF : 0) | (h.left || h.tdr_full ? 0 : USART_ISR_TC);
    case OFF(usart2.RDR):
        h.rxne = 0;
        return h.rdr;
    case OFF(tim7.CR1):
        return h.tcr1;
    case OFF(tim7.DIER):
        return h.tdier;
    case OFF(tim7.SR):
        return h.uif ? TIM_SR_UIF : 0;
    case OFF(tim7.CNT):
        return h.cnt;
    case OFF(tim7.PSC):
        return h.psc;
    case OFF(tim7.ARR):
        return h.arr;
    }
    return 0;
}
extern "C" void hw_wr(const void *r, uint32_t v)
{
    point();
    int b = board_of(r);
    Hw &h = w.hw[b];
    switch (off_of(r))
    {
    case OFF(usart2.CR1):
        if (h.cr1 & USART_CR1_UE) // parity and character length can be changed only while it is disabled
            v = (v & ~CR1_LOCKED) | (h.cr1 & CR1_LOCKED);
        h.cr1 = v;
        if (!(v & USART_CR1_UE))
            h.left = h.tdr_full = h.rxne = h.rtof = h.rto_run = 0;
        break;
    case OFF(usart2.CR2):
        if (h.cr1 & USART_CR1_UE)
            v = (v & ~CR2_STOP) | (h.cr2 & CR2_STOP);
        h.cr2 = v;
        break;
    case OFF(usart2.CR3):
        h.cr3 = v;
        break;
    case OFF(usart2.BRR):
        if (!(h.cr1 & USART_CR1_UE))
            h.brr = v & 0xFFFF;
        break;
    case OFF(usart2.RTOR):
        h.rtor = v;
        break;
    case OFF(usart2.ICR):
        if (v & USART_ICR_RTOCF)
            h.rtof = 0;
        break;
    case OFF(usart2.TDR):
        tdr_written(b, v);
        break;
    case OFF(tim7.CR1):
        h.tcr1 = v;
        break;
    case OFF(tim7.DIER):
        h.tdier = v;
        break;
    case OFF(tim7.SR):
        if (!(v & TIM_SR_UIF))
            h.uif = 0;
        break;
    case OFF(tim7.EGR):
        if (v & TIM_EGR_UG)
        {
            h.cnt = 0;
            if (!(h.tcr1 & TIM_CR1_URS))
                h.uif = 1;
        }
        break;
    case OFF(tim7.CNT):
        h.cnt = v;
        break;
    case OFF(tim7.PSC):
        h.psc = v & 0xFFFF;
        break;
    case OFF(tim7.ARR):
        h.arr = v & 0xFFFF;
        break;
    }
}
extern "C" void hw_nvic(int b, int irq, int on)
{
    point();
    (irq == USART2_IRQn ? w.hw[b].nvic_u : w.hw[b].nvic_t) = on;
}
static void dispatch()
{
    bool was = in_isr;
    in_isr = true;
    for (int b = 0; b < 2; b++)
    {
        int level = 0; // how often an interrupt that nothing removes has been served in this half character
        for (;;)
        {
            Hw &h = w.hw[b];
            if (h.nvic_t && h.uif && (h.tdier & TIM_DIER_UIE))
            {
                o_irq++;
                LOG("      %s: timer interrupt\n", b ? "slave" : "master");
                b ? s_timer_irq() : m_timer_irq();
                if (h.uif && ++level > 2)
                    break;
                continue;
            }
            bool rx = h.rxne && (h.cr1 & USART_CR1_RXNEIE_RXFNEIE), tx = !h.tdr_full && (h.cr1 & USART_CR1_TXEIE_TXFNFIE), to = h.rtof && (h.cr1 & USART_CR1_RTOIE);
            if (!h.nvic_u || !(rx || tx || to))
                break;
            if (!rx && !tx && ++level > 2)
                break;
            if (++level > 40)
            {
                viol("PROGRESS", "%s: an interrupt does not end", b ? "slave" : "master");
                break;
            }
            o_irq++;
            LOG("      %s: interrupt%s%s%s\n", b ? "slave" : "master", rx ? " (character received)" : "", tx ? " (transmit register empty)" : "", to ? " (receiver time-out)" : "");
            level = rx || tx ? 0 : level;
            b ? s_usart_irq() : m_usart_irq();
        }
    }
    in_isr = was;
    if (w.hs == 1 && w.hw[0].left && !w.hw[0].tdr_full && !(w.hw[0].cr1 & USART_CR1_TXEIE_TXFNFIE))
        w.hs = 2, w.ticks = 0; // the last character is on its way
}
static void receive(int b, u8 v)
{
    Hw &h = w.hw[b];
    h.quiet = 0;
    if (!(h.cr1 & USART_CR1_UE) || !(h.cr1 & USART_CR1_RE) || (no_first && !(h.cr1 & USART_CR1_RXNEIE_RXFNEIE)))
        return;
    h.rdr = v; // a character that was not read is replaced (OVRDIS)
    h.rxne = 1;
    h.rto_run = (h.cr2 & USART_CR2_RTOEN) != 0;
    h.rto_cnt = 0;
}
static int undecided() // a character whose transmission has just begun
{
    for (int b = 0; b < 2; b++)
        if (w.hw[b].left == 2)
            return b;
    return -1;
}
static bool may_pass() { return w.hw[0].lag < max_lag && w.hw[1].lag < max_lag; }
static bool pass(int fault)
{
    if (!may_pass())
        return false;
    w.s_turn = 0;
    int u = undecided();
    if (fault)
    {
        if (u < 0 || w.hw[u].faults >= max_faults || w.maybe)
            return false;
        w.hw[u].fault = fault;
        w.hw[u].faults++;
        w.bad = 1;
        (u ? w.resp_fault : w.req_fault) = 1;
        o_fault++;
    }
    if (w.noise < NQ)
        w.noise++;
    for (int b = 0; b < 2; b++)
    {
        Hw &h = w.hw[b], &p = w.hw[!b];
        h.lag++;
        if (h.quiet < T35)
            h.quiet++;
        bool silent = !p.left || p.fault == CH_LOST; // nothing arrives here
        if (h.rto_run && silent && ++h.rto_cnt >= RTO_U[b])
            h.rto_run = h.rto_cnt = 0, h.rtof = 1;
        if (h.tcr1 & TIM_CR1_CEN)
            if (++h.cnt >= TIM_U[b])
            {
                h.cnt = 0;
                h.uif = 1;
                if (h.tcr1 & TIM_CR1_OPM)
                    h.tcr1 &= ~TIM_CR1_CEN;
            }
    }
    bool end[2] = {false, false};
    for (int b = 0; b < 2; b++)
    {
        Hw &h = w.hw[b];
        if (h.left && !--h.left)
        {
            o_chars++;
            LOG("      %s: %02X %s\n", b ? "slave -> master" : "master -> slave", h.sh, CH_NAME[h.fault]);
            if (h.fault != CH_LOST)
                receive(!b, h.sh ^ CH_XOR[h.fault]);
            h.fault = 0;
            end[b] = !h.tdr_full;
            if (h.tdr_full)
                load(b);
        }
    }
    if (w.frame && !transmitting(w.frame - 1))
    {
        w.since++;
        if (end[w.frame - 1])
            w.since = 0;
        if (w.since >= T35)
        {
            if (w.frame == 1)
            {
                if (!w.bad && w.np && RQ[w.pend[0]].id == SID)
                    w.req_ok = w.maybe ? 2 : 1, w.exec = 1;
                w.hw[1].polls = 0;
            }
            w.frame = w.maybe = w.bad = w.since = 0;
        }
    }
    dispatch();
    return true;
}
static bool may_stray() { return !w.hs && !w.hw[0].left && !w.hw[1].left && w.strays < max_strays; }
static bool stray(int k)
{
    if (!may_stray())
        return false;
    w.strays++;
    o_fault++;
    w.noise = 0;
    receive(0, STRAY[k]);
    receive(1, STRAY[k]);
    w.hw[0].quiet = w.hw[1].quiet = T35;
    dispatch();
    return true;
}
static bool waiting_for_answer() { return w.frame || transmitting(1) || w.hw[1].polls < READY || (w.req_ok && !w.answered) || (w.answered && !w.resp_fault); }
static bool may_tick() { return !(w.hs == 1 || (w.hs == 2 && waiting_for_answer() && w.ticks + 2 >= cfg_TO)); }
static bool tick()
{
    if (!may_tick())
        return false;
    LOG("      1 ms\n");
    if (w.hs == 2 && w.ticks < cfg_TO)
        w.ticks++;
    update_modbus_master_timout_timer();
    return true;
}

// ---- the main programs ----
static void m_poll()
{
    w.mpoll = 1;
    w.hw[0].lag = 0;
    inj_active = true;
    update_modbus_master_manager();
    inj_active = false;
    w.mpoll = 0;
    dispatch();
    if (w.out && !g_viol_kind)
        viol("VALUE", "only a part of the values was delivered");
}
static void s_poll()
{
    w.spoll = 1;
    w.hw[1].lag = 0;
    inj_active = true;
    check_modbus_request();
    inj_active = false;
    w.spoll = 0;
    dispatch();
    Hw &h = w.hw[1];
    if (h.polls < READY)
        h.polls++;
    if (w.req_ok && !w.answered && h.polls >= READY && w.frame != 1)
    {
        if (w.req_ok == 1)
            viol("REPLY", "the slave did not answer an intact request: %s", w.np ? RQ[w.pend[0]].name : "");
        w.req_ok = 0;
    }
}
// ---- settings ----
static void check_settings()
{
    const u32 UE = USART_CR1_UE | USART_CR1_RE | USART_CR1_TE;
    for (int b = 0; b < 2; b++)
    {
        Hw &h = w.hw[b];
        const char *n = b ? "slave" : "master";
        if ((h.cr1 & UE) != UE || !h.nvic_u || !h.nvic_t || !(h.cr2 & USART_CR2_RTOEN) || !(h.cr1 & USART_CR1_RTOIE) || !(h.tdier & TIM_DIER_UIE))
            viol("SETTINGS", "%s: USART, receiver time-out or interrupts are not enabled", n);
        double baud = h.brr ? CLK / h.brr : 0;
        if (baud < baud_ * 0.98 || baud > baud_ * 1.02)
            viol("SETTINGS", "%s: %g baud instead of %d", n, baud, baud_);
        int pce = (h.cr1 & USART_CR1_PCE) != 0, odd = (h.cr1 & USART_CR1_PS) != 0, len = 8 + ((h.cr1 & USART_CR1_M0) != 0) - ((h.cr1 & CR1_M1) != 0), stop = h.cr2 >> 12 & 3;
        if (pce != (parity_ != NONE) || (pce && odd != (parity_ == ODD)) || len - pce != 8 || stop != (pce ? 0 : 2))
            viol("SETTINGS", "%s: %d data bits, parity %s, stop bits %d for parity setting %d", n, len - pce, pce ? odd ? "odd" : "even" : "none", stop == 2 ? 2 : 1, parity_);
        double us = 1e6 / baud_, t15 = baud_ <= 19200 ? 16.5 * us : 750, t35 = baud_ <= 19200 ? 38.5 * us : 1750;
        double rto = h.rtor * us, tim = ((h.arr ? h.arr : -1) + 1.0) * (h.psc + 1.0) / (CLK / 1e6);
        if (rto < t15 * 0.999 || rto > t35)
            viol("SETTINGS", "%s: the receiver time-out is %g us at %d baud", n, rto, baud_);
        if (tim < t35 * 0.999 || tim > t35 * 1.2 + 10)
            viol("SETTINGS", "%s: the timer measures %g us at %d baud", n, tim, baud_);
        RTO_U[b] = (int)(rto / (5.5 * us) + 0.999);
        TIM_U[b] = (int)(tim / (5.5 * us) + 0.99);
    }
}
static const int BAUDS[] = {1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200, 230400};
static const int N_SET = 3 * sizeof BAUDS / sizeof *BAUDS;
static bool settings_vary;
static void use_settings(int k)
{
    w.set = k;
    baud_ = BAUDS[no_slow && k < 3 ? 1 : k / 3];
    parity_ = k % 3 == 0 ? NONE : k % 3 == 1 ? EVEN : ODD;
    T35 = baud_ <= 19200 ? 7 : (int)(1750e-6 * baud_ / 5.5 + 0.99);
    NQ = T35 + READY * max_lag; // then the slave has dealt with it
}
static void init_m() { modbus_master_init(RTU, baud_, (parity_t)parity_); }
static void init_s() { modbus_slave_init(RTU, baud_, (parity_t)parity_, SID); }
static void boot()
{
    lib_load(lib_pristine);
    memset(&w, 0, sizeof w);
    T35 = baud_ <= 19200 ? 7 : (int)(1750e-6 * baud_ / 5.5 + 0.99);
    NQ = T35 + READY * max_lag; // then the slave has dealt with it
    if (settings_vary)
        use_settings(opts.get("settings", 0) - 1);
    w.noise = NQ;
    w.hw[0].quiet = w.hw[1].quiet = T35;
    data_init();
    static const int order = opts.get("order", 0);
    if (order)
        init_s();
    init_m();
    if (!order)
        init_s();
    w.hw[0].polls = w.hw[1].polls = READY;
    if (!g_viol_kind)
        check_settings();
}
static void root() { boot(); }
enum
{
    E_MPOLL = 1,
    E_SPOLL,
    E_TICK,
    E_APP,
    E_T,
    E_STRAY,
    E_FLIP,
    E_REINIT,
    E_SET,
};
static std::string ev1(int t, int a)
{
    switch (t)
    {
    case E_MPOLL:
        return "master's manager called";
    case E_SPOLL:
        return "slave's manager called";
    case E_TICK:
        return "1 ms timer tick";
    case E_APP:
        return std::string("request: ") + RQ[a].name;
    case E_T:
        return a ? std::string("half a character passes; the one being transmitted arrives ") + CH_NAME[a] : "half a character passes";
    case E_STRAY:
        return "a stray character arrives";
    case E_FLIP:
        return "the slave's inputs change";
    case E_REINIT:
        return std::string(a ? "slave" : "master") + " initialised again";
    case E_SET:
        return "both initialised again with " + std::to_string(BAUDS[a / 3]) + " baud, parity " + (a % 3 == 0 ? "none" : a % 3 == 1 ? "even" : "odd");
    }
    return "?";
}
static bool isr(int t, int a)
{
    switch (t)
    {
    case E_TICK:
        return tick();
    case E_T:
        return pass(a);
    case E_STRAY:
        return stray(a);
    }
    return false;
}
static std::vector<std::vector<std::pair<int, int>>> bursts;
static bool may_reinit() { return !w.hs && !w.np && !line_busy() && !w.answered && !(w.req_ok && w.hw[1].polls < READY); }
static bool fire_burst(int b)
{
    if (b < 0)
        return true;
    for (auto &p : bursts[b])
        if (!isr(p.first, p.second))
            return false;
    return true;
}
static int bursts_for(Ev e, int *out)
{
    int t = ev_type(e);
    if (t != E_MPOLL && t != E_SPOLL && t != E_APP)
        return 0;
    for (size_t i = 0; i < bursts.size(); i++)
        out[i] = i;
    return bursts.size();
}
static std::string ev_str(Ev e)
{
    if (ev_type(e) == 0xFF)
        return "(then: an undisturbed line until every request has its outcome; a write and a read)";
    std::string s = ev1(ev_type(e), ev_arg(e));
    for (int k = 0; k < 2; k++)
    {
        int b = (int)((e >> (k ? 40 : 16)) & 0xFF) - 1;
        if (b < 0)
            continue;
        s += ", interrupted at access " + std::to_string((int)((e >> (k ? 48 : 24)) & 0xFFFF)) + " by:";
        for (auto &p : bursts[b])
            s += " " + ev1(p.first, p.second);
    }
    return s;
}
static void canon()
{
    for (int b = 0; b < 2; b++)
    {
        Hw &h = w.hw[b];
        if (!h.left)
            h.sh = h.fault = 0;
        if (!h.tdr_full)
            h.tdr = 0;
        if (!h.rxne)
            h.rdr = 0;
        if (!(h.tcr1 & TIM_CR1_CEN))
            h.cnt = 0;
        if (!transmitting(b))
            h.faults = 0;
    }
}
static int chf[8], n_chf;
static int gen(Ev *o)
{
    int n = 0;
    if (settings_vary)
    {
        for (int k = 0; k < N_SET; k++)
            o[n++] = mkev(E_SET, k);
        return n;
    }
    if (!w.s_turn)
    {
        o[n++] = mkev(E_MPOLL);
        if (may_tick())
            o[n++] = mkev(E_TICK);
        for (int i = 0; i < n_menu; i++)
            o[n++] = mkev(E_APP, menu[i]);
    }
    o[n++] = mkev(E_SPOLL);
    if (may_pass())
    {
        o[n++] = mkev(E_T, 0);
        int u = undecided();
        if (u >= 0 && w.hw[u].faults < max_faults && !w.maybe)
            for (int i = 0; i < n_chf; i++)
                o[n++] = mkev(E_T, chf[i]);
    }
    if (may_stray())
        for (size_t i = 0; i < sizeof STRAY; i++)
            o[n++] = mkev(E_STRAY, i);
    if (opts.get("flip", 0))
        o[n++] = mkev(E_FLIP);
    static const int re = opts.get("reinit", 0);
    if (re && may_reinit())
        o[n++] = mkev(E_REINIT, 0), o[n++] = mkev(E_REINIT, 1);
    return n;
}
static void apply(Ev e)
{
    int t = ev_type(e), a = ev_arg(e);
    switch (t)
    {
    case E_MPOLL:
        m_poll();
        break;
    case E_SPOLL:
        s_poll();
        w.s_turn = 1;
        break;
    case E_APP:
        request(a);
        break;
    case E_FLIP:
        app_flip();
        break;
    case E_REINIT:
        a ? init_s() : init_m();
        dispatch();
        check_settings();
        break;
    case E_SET:
        use_settings(a);
        for (int b = 0; b < 2 && no_again; b++)
            w.hw[b].cr1 &= ~(USART_CR1_UE | USART_CR1_TXEIE_TXFNFIE), w.hw[b].cr2 &= ~CR2_STOP, w.hw[b].rtor = 0;
        init_m();
        init_s();
        dispatch();
        w.noise = NQ;
        w.hw[0].quiet = w.hw[1].quiet = T35;
        check_settings();
        break;
    default:
        isr(t, a);
    }
    if (!g_viol_kind)
        data_check(ev1(t, a).c_str());
}
static void run_clean()
{
    int lim = cfg_N * (cfg_R + 2) * (cfg_TO * 8 + 120 + 4 * T35) + 200;
    for (int i = 0; i < lim && !g_viol_kind; i++)
    {
        bool idle = !transmitting(0) && !transmitting(1) && !w.frame && w.noise >= NQ;
        for (int b = 0; b < 2; b++)
            idle = idle && !(w.hw[b].tcr1 & TIM_CR1_CEN) && w.hw[b].polls >= READY;
        if (!w.np && idle)
            return;
        pass(0);
        if (i % 8 == 7)
            tick();
        s_poll();
        m_poll();
        if (!g_viol_kind)
            data_check("afterwards");
    }
    if (!g_viol_kind)
        viol("PROGRESS", "%d requests got no outcome (state %d, frame %d)", w.np, w.hs, w.frame);
}
static void settle()
{
    if (settings_vary)
        use_settings(w.set), check_settings();
    run_clean();
    static const int probe[] = {12, 0, 4, 3};
    for (int i = 0; i < 4 && !g_viol_kind; i++)
    {
        u64 before = o_deliver + o_conf;
        request(probe[i]);
        if (g_viol_kind)
            return;
        run_clean();
        if (!g_viol_kind && o_deliver + o_conf == before)
            viol("OUTCOME", "a request over an undisturbed line had no success: %s", RQ[probe[i]].name);
    }
}
static void more_stats(std::string &s)
{
    stats(s);
    char b[100];
    snprintf(b, sizeof b, ",\"characters\":%llu,\"interrupts\":%llu", (unsigned long long)o_chars, (unsigned long long)o_irq);
    s += b;
}
int main(int argc, char **argv)
{
    parse_opts(argc, argv);
    list("reqs", "0,1", menu, n_menu, NRQ);
    list("chars", "1,2", chf, n_chf, 8);
    max_lag = opts.get("lag", 1);
    max_faults = opts.get("faults", 1);
    max_strays = opts.get("strays", 0);
    unrepaired();
    baud_ = opts.get("baud", 9600);
    if (no_slow && baud_ < 2400)
        baud_ = 2400;
    parity_ = opts.get("parity", EVEN);
    settings_vary = opts.get("settings", 0) != 0;
    inj_bound = opts.get("inj", 0);
    bursts.push_back({{E_TICK, 0}});
    bursts.push_back({{E_T, 0}});
    bursts.push_back({{E_T, 1}});
    if (max_strays)
        bursts.push_back({{E_STRAY, 0}}), bursts.push_back({{E_T, 0}, {E_STRAY, 0}});
    world_ptr = &w;
    world_size = sizeof w;
    extra_stats = more_stats;
    return explorer_main();
}
