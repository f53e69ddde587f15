// Environment and reference monitor of the master role: the driver, the bus, the application, and the
// specification automaton that every observable action of the library has to be a step of.
#pragma once
#include "core.hpp"
#include "ref.hpp"
#include "modbus_master.h"
#include "modbus_driver_interface.h"
extern "C" {
#include "modbus_master_data_interface.h"
extern const int cfg_N, cfg_TO, cfg_R;
}

#ifndef MAXP
#define MAXP 16
#endif
#define READY 4 // calls of the manager after which it has dealt with everything that happened before
struct MW
{
    driver_subscr_cb_t cb15, cb35, cbtx, cbfe;
    modbus_req_resp_t *rx;
    const u8 *tx_ptr;
    u8 rx_on, tx_busy, tx_len;
    // the line
    u8 phase;   // 0 silent for 3.5 characters, 1 characters arriving, 2 silent for 1.5 characters
    u8 f_type, f_req, f_part; // frame on the line, request it is derived from, 1 first half 2 all of it
    u8 f_fe;    // a frame error was raised in it
    u8 f_dirty; // it began when the master could not be expected to be ready for it
    u8 f_extra; // extra characters after it
    // requests accepted and not yet finished, oldest first
    u8 np, pend[MAXP];
    u8 hs;      // oldest request: 0 not sent, 1 being transmitted, 2 transmitted
    u8 retries;
    u8 lastk;
    // since the end of the last transmission
    u8 bad, bad_crc, bad_frame; // a damaged response was seen (and how)
    u8 garbled;                 // traffic that makes any conclusion acceptable
    u8 t35;                     // silence after the last frame
    u8 own15;                   // a frame with the address of the slave has been received
    u8 good;                    // 1 + type of the complete intact answer
    u32 seen;                   // complete frames since the end of the transmission, by type
    u32 cand;                   // those the delivery in progress can stem from
    u32 tick, stick;
    u8 wpoll, lateP;
    u8 noena;   // a transmission was started and the reception not enabled yet: no response can begin within these few instructions
    u8 nfr;     // frames since the last event of the transmission for which the master was not ready
    u8 polls35; // calls of the manager since the line became silent
    u8 new35, in_call, in_poll;
    // delivery in progress
    u8 out;
    u16 ndel;
    // application
    u8 arm;    // issue a request from the next callback (2: initialise first)
    u8 anew;   // initialised in the present callback
    u8 live;   // initialised
    u8 inits;
    u8 sends_since; // saturating, only for logs
    u8 itick;       // tstep: ticks between two accesses since the end of the last transmission
};
#ifndef WORLD
#define WORLD
#endif
static MW mw WORLD;
static u64 m_dmask[32]; // values delivered, a delivery ends within one call of the manager
static u64 m_obs_deliver = 0, m_obs_timeout = 0, m_obs_comm = 0, m_obs_exc = 0, m_obs_retx = 0, m_obs_conf = 0, m_obs_send = 0, m_obs_refused = 0;

// ---- requests ----
#define NKIND 16
static RefReq RQ[NKIND];
static u8 rq_invalid[NKIND];
static int req_menu[NKIND], n_req_menu = 0;
static void rq_set(int k, u8 fn, u8 id, u16 adr, u16 qty, u16 val, bool invalid = false)
{
    RefReq &r = RQ[k];
    memset(&r, 0, sizeof r);
    r.fn = fn;
    r.id = id;
    r.adr = adr;
    r.qty = qty;
    r.val = val;
    for (int i = 0; i < 128; i++)
        r.data[i] = (u16)(0x1122 + 0x2317 * i + 0x0101 * k);
    for (int i = 0; i < 2000; i++)
        r.bits[i] = ((i * 7 + k) % 5) < 2;
    rq_invalid[k] = invalid;
}
static void rq_init()
{
    rq_set(0, FC_RHR, 5, 0x0102, 2, 0);
    rq_set(1, FC_WSC, 5, 0x0003, 1, 1);
    rq_set(2, FC_RC, 6, 0x00FF, 9, 0);
    rq_set(3, FC_WMR, 5, 0x0010, 2, 0);
    rq_set(4, FC_RIR, 1, 0xFFFE, 1, 0);
    rq_set(5, FC_WSR, 5, 0x0007, 1, 0x1234);
    rq_set(6, FC_RDI, 200, 0, 3, 0);
    rq_set(7, FC_WMC, 5, 0x0001, 10, 0);
    rq_set(8, FC_RHR, 5, 0, 126, 0, true);
    rq_set(9, FC_RC, 5, 0, 0, 0, true);
    rq_set(10, FC_WMR, 5, 0, 124, 0, true);
    rq_set(11, FC_WMC, 5, 0, 1969, 0, true);
    rq_set(12, FC_RDI, 5, 0, 2001, 0, true);
    rq_set(13, FC_RIR, 5, 0, 0, 0, true);
    rq_set(14, FC_RHR, 6, 0x0102, 2, 0);
    rq_set(15, FC_WSC, 5, 0x0003, 1, 0);
}
// the application's data: exactly as long as the request says, with inaccessible memory behind them
static char *app_data_end()
{
    static char *end = 0;
    if (!end)
    {
        size_t n = 0x80000;
        char *p = (char *)mmap(0, n + 0x1000, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED || mprotect(p + n, 0x1000, PROT_NONE))
            abort();
        end = p + n;
    }
    return end;
}
static int rq_call(const RefReq &r)
{
    int ret = -1, n;
    switch (r.fn)
    {
    case FC_RC:
        ret = modbus_master_read_coils(r.adr, r.qty, r.id);
        break;
    case FC_RDI:
        ret = modbus_master_read_discrete_inputs(r.adr, r.qty, r.id);
        break;
    case FC_RHR:
        ret = modbus_master_read_holding_reg(r.adr, r.qty, r.id);
        break;
    case FC_RIR:
        ret = modbus_master_read_input_reg(r.adr, r.qty, r.id);
        break;
    case FC_WSC:
        ret = modbus_master_write_single_coil(r.adr, r.id, r.val);
        break;
    case FC_WSR:
        ret = modbus_master_write_single_reg(r.adr, r.id, r.val);
        break;
    case FC_WMR:
    {
        modbus_reg_t *regs = (modbus_reg_t *)app_data_end() - r.qty;
        n = r.qty < 128 ? r.qty : 128;
        memcpy(regs, r.data, n * sizeof *regs);
        ret = modbus_master_write_multiple_reg(r.adr, r.qty, r.id, regs);
        memset(regs, 0xEE, n * sizeof *regs); // the application may reuse its data as soon as the call returns
        break;
    }
    case FC_WMC:
    {
        modbus_coil_disin_t *bits = (modbus_coil_disin_t *)app_data_end() - r.qty;
        n = r.qty < 2000 ? r.qty : 2000;
        for (int i = 0; i < n; i++)
            bits[i] = r.bits[i];
        ret = modbus_master_write_multiple_coils(r.adr, r.qty, r.id, bits);
        for (int i = 0; i < n; i++)
            bits[i] = !bits[i];
        break;
    }
    }
    return ret;
}
static const char *fc_name(u8 f)
{
    switch (f)
    {
    case 1:
        return "read coils";
    case 2:
        return "read discrete inputs";
    case 3:
        return "read holding registers";
    case 4:
        return "read input registers";
    case 5:
        return "write single coil";
    case 6:
        return "write single register";
    case 15:
        return "write multiple coils";
    case 16:
        return "write multiple registers";
    }
    return "?";
}
static std::string rq_str(int k)
{
    char b[128];
    snprintf(b, sizeof b, "%s adr=%u qty=%u id=%u%s", fc_name(RQ[k].fn), RQ[k].adr, RQ[k].qty, RQ[k].id, rq_invalid[k] ? " (invalid)" : "");
    return b;
}

// ---- frames that may be on the line ----
enum
{
    F_GOOD,
    F_GOOD2,
    F_EXC,
    F_EXC4,
    F_BADCRC,
    F_FOREIGN,
    F_WRONGFN,
    F_WRONGBC,
    F_TRUNC,
    F_EXCWRONGFN,
    F_LONG,
    F_BYTE,
    F_FOREIGNLONG,
    F_OTHERREQ,
    F_NONECHO,
    F_NOISE,
    F_EXCSHORT,
    F_MORE,
    F_EXCBADCRC,
    F_FOREIGNBAD,
    F_EXCLONG,
    F_BCFIELD,
    F_NTYPES
};
static const char *const F_NAME[] = {"good", "good with other values", "exception 2", "exception 4", "good with a damaged byte", "good but of another slave", "other function code", "other byte count or echo",
                                     "cut short, CRC valid", "exception of another function", "one byte too long, CRC valid", "a single byte", "long frame of another slave", "answer to another request",
                                     "other address repeated", "noise of another address", "exception cut short, CRC valid", "more data than requested", "damaged exception", "damaged frame of another slave",
                                     "exception with extra byte", "byte count field wrong, CRC valid"};
static int frame_menu[F_NTYPES], n_frame_menu = 0;
static int noise_menu[F_NTYPES], n_noise_menu = 0;
static bool sent_now; // a transmission was started in this call
static int opt_hostile = 0, opt_stray = 0, opt_fe = 0, opt_split = 0, opt_reinit = 0, opt_arm = 0, opt_spur = 0, opt_rep15 = 0, opt_late = 0;

static int other_fn(u8 fn)
{
    switch (fn)
    {
    case 1:
        return 2;
    case 2:
        return 1;
    case 3:
        return 4;
    case 4:
        return 3;
    case 5:
        return 6;
    case 6:
        return 5;
    case 15:
        return 16;
    default:
        return 15;
    }
}
static int recrc(u8 *f, int n_without) { return put_crc(f, n_without); }
static int build_frame(int type, int k, u8 *f)
{
    const RefReq &r = RQ[k];
    u16 v[2000];
    for (int i = 0; i < r.qty; i++)
        v[i] = fc_bits(r.fn) ? (i % 3 != 1) : (u16)(0xA55A + i * 0x1357);
    int n = ref_good_resp(r, v, f);
    switch (type)
    {
    case F_GOOD:
        return n;
    case F_GOOD2:
        for (int i = 0; i < r.qty; i++)
            v[i] = fc_bits(r.fn) ? (i % 3 == 1) : (u16)(0x0180 + i);
        return ref_good_resp(r, v, f);
    case F_EXC:
    case F_EXC4:
        f[1] = r.fn | 0x80;
        f[2] = type == F_EXC ? 2 : 4;
        return recrc(f, 3);
    case F_BADCRC:
        f[n - 3] ^= 0x10;
        return n;
    case F_FOREIGN:
        f[0] = r.id + 1;
        return recrc(f, n - 2);
    case F_WRONGFN:
        f[1] = other_fn(r.fn);
        return recrc(f, n - 2);
    case F_WRONGBC:
        if (fc_read(r.fn))
        {
            f[2] -= 1;
            return recrc(f, n - 3);
        }
        f[5] ^= 1;
        return recrc(f, n - 2);
    case F_TRUNC:
        return recrc(f, n - 3);
    case F_EXCWRONGFN:
        f[1] = other_fn(r.fn) | 0x80;
        f[2] = 2;
        return recrc(f, 3);
    case F_LONG:
        f[n - 2] = 0x55;
        return recrc(f, n - 1);
    case F_BYTE:
        return 1;
    case F_FOREIGNLONG:
        f[0] = r.id + 7;
        f[1] = 16;
        for (int i = 2; i < 30; i++)
            f[i] = 0x30 + i;
        return recrc(f, 30);
    case F_OTHERREQ:
    {
        int o = k;
        for (int i = 0; i < n_req_menu; i++)
            if (req_menu[i] == k)
                for (int j = 1; j < n_req_menu; j++)
                    if (!rq_invalid[req_menu[(i + j) % n_req_menu]])
                    {
                        o = req_menu[(i + j) % n_req_menu];
                        break;
                    }
        for (int i = 0; i < RQ[o].qty; i++)
            v[i] = fc_bits(RQ[o].fn) ? 1 : 0x7777;
        return ref_good_resp(RQ[o], v, f);
    }
    case F_NONECHO:
        if (!fc_read(r.fn))
            f[3] ^= 1;
        else
            f[2] = 0;
        return recrc(f, n - 2);
    case F_NOISE:
        f[0] = r.id ^ 0x80;
        f[1] = 0xFF;
        f[2] = 0x00;
        return 3;
    case F_EXCSHORT:
        f[1] = r.fn | 0x80;
        return recrc(f, 2);
    case F_MORE:
        if (fc_read(r.fn))
        {
            f[2] += 2;
            f[n - 2] = 0x12;
            f[n - 1] = 0x34;
            return recrc(f, n);
        }
        return recrc(f, n);
    case F_EXCBADCRC:
        f[1] = r.fn | 0x80;
        f[2] = 2;
        n = recrc(f, 3);
        f[2] = 3;
        return n;
    case F_FOREIGNBAD:
        f[0] = r.id ^ 4;
        return n;
    case F_EXCLONG:
        f[1] = r.fn | 0x80;
        f[2] = 2;
        f[3] = 0;
        return recrc(f, 4);
    case F_BCFIELD:
        if (fc_read(r.fn))
            f[2] = 1;
        else
            f[4] ^= 0x80;
        return recrc(f, n - 2);
    }
    return n;
}
// classification cache
static u8 fr_bytes[F_NTYPES][NKIND][300];
static u16 fr_len[F_NTYPES][NKIND];
static void frames_init()
{
    for (int t = 0; t < F_NTYPES; t++)
        for (int k = 0; k < NKIND; k++)
            if (!rq_invalid[k])
                fr_len[t][k] = build_frame(t, k, fr_bytes[t][k]);
}
static int fr_split = -1; // where a frame that arrives in two parts is split
static int cur_frame_len()
{
    int n = fr_len[mw.f_type][mw.f_req];
    if (mw.f_part == 1)
        n = fr_split < 0 ? n / 2 : fr_split;
    return n;
}

// ---- driver ----
static void md_init(baud_t, parity_t)
{
    point();
    mw.tx_busy = 0;
}
static void m_append(u8 b)
{
    if (mw.rx && mw.rx_on)
    {
        mw.rx->data[mw.rx->len] = b;
        mw.rx->len++;
    }
}
// a complete intact answer was received, but ignored
static const char *ignored(const char *otherwise)
{
    if (!mw.good || !mw.np || mw.garbled)
        return otherwise;
    const RefReq &r = RQ[mw.pend[0]];
    int c = ref_classify(r, fr_bytes[mw.good - 1][mw.pend[0]], fr_len[mw.good - 1][mw.pend[0]]);
    return c == CL_EXC ? "EXC_IGNORED" : c != CL_GOOD ? otherwise : fc_read(r.fn) ? "READ_IGNORED" : "WRITE_IGNORED";
}
static void m_finish();
static void md_send(modbus_buf_t *buf, modbus_buf_size_t len)
{
    point();
    m_obs_send++;
    LOG("      master transmits %s\n", hex(buf, len).c_str());
    if (!mw.in_call)
        viol("SEND_CONTEXT", "transmission started outside of the manager");
    if (mw.tx_busy)
        viol("SEND_BUSY", "a transmission was started while another one was running");
    if (!mw.np)
    {
        viol("SEND_NO_REQ", "a frame was transmitted although no accepted request is outstanding: %s", hex(buf, len).c_str());
        return;
    }
    if (mw.out)
        viol("DELIVER_PARTIAL", "the next transmission was started before all data of the response were delivered");
    if (mw.hs == 1)
        viol("SEND_BUSY", "the request was transmitted again before its transmission ended");
    else if (mw.hs == 2)
    {
        m_obs_retx++;
        if (!mw.bad || (!mw.t35 && !mw.garbled))
            viol(ignored("RETX_SPURIOUS"), "the request was transmitted again although no damaged response (followed by the silent interval) was received");
        if (mw.retries >= cfg_R)
            viol("RETX_MANY", "the request was repeated more than %d times", cfg_R);
        if (mw.phase != 0 && !mw.garbled)
            viol("SEND_EARLY", "the request was repeated while the line was not silent");
        mw.retries++;
    }
    mw.hs = 1;
    mw.noena = mw.noena != 2;
    u8 f[300];
    int n = ref_req_frame(RQ[mw.pend[0]], f);
    if (n != len || memcmp(f, buf, n))
    {
        bool other = false;
        for (int i = 1; i < mw.np; i++)
        {
            u8 g[300];
            int m = ref_req_frame(RQ[mw.pend[i]], g);
            if (m == len && !memcmp(g, buf, m))
                other = true;
        }
        viol(other ? "ORDER" : "FRAME", "transmitted %s, expected %s", hex(buf, len).c_str(), hex(f, n).c_str());
    }
    mw.tx_busy = 1;
    mw.tx_ptr = buf;
    mw.tx_len = len;
    mw.bad = mw.bad_crc = mw.bad_frame = mw.garbled = mw.t35 = mw.own15 = mw.good = mw.seen = mw.cand = mw.nfr = 0;
    mw.tick = mw.stick = mw.wpoll = mw.lateP = 0;
    sent_now = true;
    if (mw.phase)
        mw.f_dirty = 2;
    point();
}
static void md_enable(modbus_req_resp_t *p)
{
    point();
    mw.rx = p;
    mw.rx_on = 1;
    mw.noena = mw.in_poll && mw.hs != 1 ? 2 : 0; // 2: enabled before the transmission is started
    point();
}
static void md_disable(void) { mw.rx_on = 0; }
static void md_s15(driver_subscr_cb_t c) { mw.cb15 = c; }
static void md_stx(driver_subscr_cb_t c) { mw.cbtx = c; }
static void md_s35(driver_subscr_cb_t c) { mw.cb35 = c; }
static void md_sfe(driver_subscr_cb_t c) { mw.cbfe = c; }
static const modbus_RTU_driver_struct_t md_driver = {md_init, md_send, md_enable, md_disable, md_s15, md_stx, md_s35, md_sfe};
const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return &md_driver; }

// ---- events of the bus ----
static bool line_may_begin() { return mw.phase == 0 && (opt_hostile || mw.polls35 >= READY); }
static void m_saw(int type)
{
    int c = ref_classify(RQ[mw.pend[0]], fr_bytes[type][mw.pend[0]], fr_len[type][mw.pend[0]]);
    if (c == CL_GOOD || c == CL_EXC)
        mw.seen |= 1u << type;
}
static bool me_frame(int type, int part) // a frame (1: only its first half) has arrived
{
    if (!line_may_begin() || mw.noena == 1)
        return false;
    int k = mw.np ? mw.pend[0] : mw.lastk;
    if (mw.hs != 2 && !opt_stray)
        return false;
    if (mw.hs != 2 || mw.polls35 < READY)
    {
        if (mw.nfr >= (mw.hs != 2 ? opt_stray : opt_hostile))
            return false;
        mw.nfr++;
    }
    mw.f_type = type;
    mw.f_req = k;
    mw.f_part = part ? 1 : 2;
    mw.f_fe = 0;
    mw.f_extra = 0;
    mw.f_dirty = mw.hs != 2 ? 2 : mw.polls35 < READY;
    mw.phase = 1;
    if (mw.hs == 2)
    {
        mw.t35 = 0;
        if (mw.f_dirty)
            mw.garbled = mw.bad = 1;
    }
    int n = cur_frame_len();
    for (int i = 0; i < n; i++)
        m_append(fr_bytes[type][k][i]);
    if (mw.hs == 2 && mw.f_part == 2)
        m_saw(type);
    return true;
}
static void m_fe_noted()
{
    mw.f_fe = 1;
    if (mw.hs == 2)
        mw.bad = mw.bad_frame = 1;
}
static bool me_rest()
{
    if (mw.phase == 0 || mw.f_part != 1)
        return false;
    int n0 = cur_frame_len();
    mw.f_part = 2;
    int n = cur_frame_len();
    bool gap = mw.phase == 2;
    mw.phase = 1;
    mw.t35 = 0;
    for (int i = n0; i < n; i++)
        m_append(fr_bytes[mw.f_type][mw.f_req][i]);
    if (mw.hs == 2 && mw.f_dirty != 2)
        m_saw(mw.f_type);
    if (gap)
    {
        m_fe_noted();
        if (mw.hs == 2)
            mw.bad_crc = 1; // what had arrived before the gap, or all of it, may have been judged
        mw.cbfe();
    }
    return true;
}
static bool me_t15()
{
    if (mw.phase == 0 || (mw.phase == 2 && !opt_rep15))
        return false;
    if (mw.phase == 1 && mw.hs == 2)
    {
        if (mw.f_dirty)
            mw.garbled = mw.bad = 1;
        else if (CL_FOREIGN != ref_classify(RQ[mw.pend[0]], fr_bytes[mw.f_type][mw.f_req], cur_frame_len()))
            mw.own15 = mw.own15 == 1 || !mw.in_poll ? 1 : 2; // 2: during the call that is running
    }
    mw.phase = 2;
    mw.cb15();
    return true;
}
static bool me_t35()
{
    if (mw.phase != 2)
        return false;
    mw.phase = 0;
    mw.polls35 = 0;
    mw.new35 = 1;
    if (mw.hs == 2)
    {
        mw.t35 = 1;
        int c = ref_classify(RQ[mw.pend[0]], fr_bytes[mw.f_type][mw.f_req], cur_frame_len());
        if (mw.f_dirty)
            mw.garbled = mw.bad = 1;
        else if (c == CL_BAD)
        {
            mw.bad = 1;
            if (0 == ref_crc(fr_bytes[mw.f_type][mw.f_req], cur_frame_len()))
                mw.bad_frame = 1;
            else
                mw.bad_crc = 1;
        }
        else if (c != CL_FOREIGN && !mw.f_fe && !mw.f_extra && !mw.good)
            mw.good = 1 + mw.f_type;
    }
    mw.cb35();
    return true;
}
static bool me_fe()
{
    if (!opt_fe || mw.f_fe || !(mw.phase || opt_fe > 1) || !(mw.hs == 2 || opt_stray))
        return false;
    if (mw.phase == 2)
    { // a character between 1.5 and 3.5 character times after the last one
        mw.f_extra = 1;
        if (mw.hs == 2)
            mw.bad_crc = 1;
        mw.phase = 1;
        mw.t35 = 0;
        m_append(0x00);
    }
    else if (mw.phase == 0)
    {
        if (!opt_hostile && mw.polls35 < READY)
            return false;
    }
    m_fe_noted();
    mw.cbfe();
    return true;
}
static bool me_txdone()
{
    if (!mw.tx_busy)
    {
        if (!opt_spur)
            return false;
        mw.cbtx();
        return true;
    }
    u8 f[300];
    int n = mw.np ? ref_req_frame(RQ[mw.pend[0]], f) : 0;
    if (mw.np && mw.hs == 1 && (n != mw.tx_len || memcmp(f, mw.tx_ptr, n)))
        viol("FRAME", "the frame was changed while it was being transmitted: %s, expected %s", hex(mw.tx_ptr, mw.tx_len).c_str(), hex(f, n).c_str());
    mw.tx_busy = 0;
    if (mw.hs == 1)
    {
        mw.hs = 2;
        mw.bad = mw.bad_crc = mw.bad_frame = mw.garbled = mw.t35 = mw.own15 = mw.good = mw.seen = mw.cand = mw.nfr = 0;
        mw.tick = mw.stick = mw.wpoll = mw.lateP = 0;
        if (mw.phase)
            mw.f_dirty = 2, mw.garbled = mw.bad = 1;
        mw.polls35 = READY; // whatever was on the line before does not concern the response
        mw.itick = 0;
        mw.new35 = 0;
    }
    mw.cbtx();
    return true;
}
static bool me_tick()
{
    if (mw.hs == 2)
    {
        if ((int)mw.tick < cfg_TO)
            mw.tick++;
        if (mw.wpoll && (int)mw.stick < cfg_TO)
            mw.stick++;
    }
    update_modbus_master_timout_timer();
    return true;
}

// ---- what the application observes ----
static void m_finish()
{
    mw.np--;
    memmove(mw.pend, mw.pend + 1, MAXP - 1);
    mw.pend[MAXP - 1] = 0;
    mw.hs = 0;
    mw.retries = 0;
    mw.out = 0;
    mw.ndel = 0;
    mw.bad = mw.bad_crc = mw.bad_frame = mw.garbled = mw.t35 = mw.own15 = mw.good = mw.seen = mw.cand = mw.nfr = 0;
    mw.tick = mw.stick = mw.wpoll = mw.lateP = 0;
    if (mw.phase)
        mw.f_dirty = 2;
}
static bool m_accept_expected(bool *either)
{
    *either = mw.in_poll && !mw.anew; // from a callback: the buffer of the request being concluded may or may not be free yet
    return mw.np < cfg_N;
}
static void m_request(int k)
{
    bool either, room = m_accept_expected(&either);
    int ret = rq_call(RQ[k]);
    LOG("      %s -> %d\n", rq_str(k).c_str(), ret);
    if (rq_invalid[k])
    {
        m_obs_refused++;
        if (ret == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE)
            viol("INVALID_ACCEPTED", "%s was accepted", rq_str(k).c_str());
        else if (room && !either && ret != MODBUS_MASTER_LIB_PDU_REQ_ERROR)
            viol("RET_INVALID", "%s was refused with %d", rq_str(k).c_str(), ret);
        return;
    }
    if (ret == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE)
    {
        if (mw.np >= cfg_N + (either ? 1 : 0))
        {
            viol("CAPACITY", "a request was accepted although %d are outstanding", mw.np);
            return;
        }
        mw.pend[mw.np++] = k;
        if (mw.np == 1)
            mw.lastk = k;
    }
    else
    {
        m_obs_refused++;
        if (room && !either)
            viol("CAPACITY", "%s was refused (%d) although only %d of %d requests are outstanding", rq_str(k).c_str(), ret, mw.np, cfg_N);
        else if (ret != MODBUS_MASTER_FREE_QUEUE_EMPTY_ERROR && !either)
            viol("CAPACITY", "%s was refused with %d with a full queue", rq_str(k).c_str(), ret);
        else if (either && mw.np < cfg_N - 1)
            viol("CAPACITY", "a request from a callback was refused although %d of %d are outstanding", mw.np, cfg_N);
    }
}
static void m_init(int mode = RTU);
static void m_chain()
{
    if (mw.arm)
    {
        if (mw.arm == 2)
        { // the application starts all over again, from the callback
            u8 in_call = mw.in_call;
            bool inj = inj_active;
            LOG("      modbus_master_init, called from the callback\n");
            m_init();
            mw.in_call = in_call;
            inj_active = inj;
            mw.anew = 1;
        }
        mw.arm = 0;
        m_request(req_menu[0]);
        mw.anew = 0;
    }
}
static bool m_outcome_context(const char *what)
{
    point();
    if (!mw.in_poll || in_isr)
    {
        viol("CALLBACK_CONTEXT", "%s was called outside of the manager", what);
        return false;
    }
    if (!mw.np || mw.hs != 2 || mw.tx_busy)
    {
        viol("OUTCOME_SPURIOUS", "%s was called although no transmitted request is waiting for its outcome", what);
        return false;
    }
    return true;
}
// frames that the outcome being reported may stem from
static u32 m_candidates(int cls)
{
    u32 m = mw.good ? 1u << (mw.good - 1) : 0, r = 0;
    if (mw.garbled)
        m |= mw.seen;
    for (int t = 0; t < F_NTYPES; t++)
        if ((m >> t & 1) && ref_classify(RQ[mw.pend[0]], fr_bytes[t][mw.pend[0]], fr_len[t][mw.pend[0]]) == cls)
            r |= 1u << t;
    return r;
}
static void m_deliver(const char *what, u8 fn, u8 slave, u16 adr, u16 val)
{
    m_obs_deliver++;
    LOG("      %s(slave %u, adr %u, value %u)\n", what, slave, adr, val);
    if (!m_outcome_context(what))
        return;
    const RefReq &r = RQ[mw.pend[0]];
    if (!mw.out)
    {
        mw.cand = m_candidates(CL_GOOD);
        if (!mw.cand)
        {
            viol("DELIVER_UNJUSTIFIED", "%s was called although no complete, intact response to the request was received", what);
            return;
        }
        mw.out = 1;
        memset(m_dmask, 0, sizeof m_dmask);
        mw.ndel = 0;
    }
    if (r.fn != fn)
    {
        viol("DELIVER_CALLBACK", "%s was called for the request: %s", what, rq_str(mw.pend[0]).c_str());
        return;
    }
    u16 i = adr - r.adr;
    if (slave != r.id || i >= r.qty)
    {
        viol("DELIVER_WRONG", "%s(slave %u, adr %u) for the request: %s", what, slave, adr, rq_str(mw.pend[0]).c_str());
        return;
    }
    u16 e = 0;
    u32 c = mw.cand;
    for (int t = 0; t < F_NTYPES; t++)
        if (c >> t & 1)
        {
            e = resp_val(r, fr_bytes[t][mw.pend[0]], i);
            if (e != val)
                mw.cand &= ~(1u << t);
        }
    if (!mw.cand)
    {
        viol("DELIVER_WRONG", "%s delivered %u for address %u, the response contains %u", what, val, adr, e);
        return;
    }
    if (m_dmask[i / 64] >> (i % 64) & 1)
    {
        viol("DELIVER_WRONG", "%s delivered address %u twice", what, adr);
        return;
    }
    m_dmask[i / 64] |= 1ull << (i % 64);
    if (++mw.ndel == r.qty)
    {
        m_finish();
        m_chain();
    }
    point();
}
static void m_confirm(const char *what, bool coil, u8 slave, u16 adr, u16 qty)
{
    m_obs_conf++;
    LOG("      %s(slave %u, adr %u, qty %u)\n", what, slave, adr, qty);
    if (!m_outcome_context(what))
        return;
    const RefReq &r = RQ[mw.pend[0]];
    if (!m_candidates(CL_GOOD))
    {
        viol("DELIVER_UNJUSTIFIED", "%s was called although no complete, intact response to the request was received", what);
        return;
    }
    bool ok = coil ? (r.fn == FC_WSC || r.fn == FC_WMC) : (r.fn == FC_WSR || r.fn == FC_WMR);
    if (!ok)
    {
        viol("CONFIRM_CALLBACK", "%s was called for the request: %s", what, rq_str(mw.pend[0]).c_str());
        return;
    }
    if (slave != r.id || adr != r.adr || qty != r.qty)
    {
        viol("CONFIRM_WRONG", "%s(slave %u, adr %u, qty %u) for the request: %s", what, slave, adr, qty, rq_str(mw.pend[0]).c_str());
        return;
    }
    m_finish();
    m_chain();
    point();
}
enum
{
    XC_COIL,
    XC_DIN,
    XC_HREG,
    XC_INREG
};
static void m_exception(const char *what, int grp, const modbus_read_data_t *d)
{
    m_obs_exc++;
    LOG("      %s(slave %u, fn %u, code %u, adr %u, qty %u)\n", what, d->slave_ID, d->fun_conde, d->exception_code, d->data_adr, d->data_qty);
    if (!m_outcome_context(what))
        return;
    const RefReq &r = RQ[mw.pend[0]];
    u32 c = m_candidates(CL_EXC);
    if (!c)
    {
        viol("EXC_UNJUSTIFIED", "%s was called although no complete, intact exception response to the request was received", what);
        return;
    }
    int g = r.fn == FC_RDI ? XC_DIN : r.fn == FC_RIR ? XC_INREG
                                    : fc_bits(r.fn)   ? XC_COIL
                                                      : XC_HREG;
    if (g != grp)
    {
        viol("EXC_CALLBACK", "%s was called for the request: %s", what, rq_str(mw.pend[0]).c_str());
        return;
    }
    int code = 0;
    for (int t = 0; t < F_NTYPES; t++)
        if ((c >> t & 1) && (code = fr_bytes[t][mw.pend[0]][2]) == d->exception_code)
            break;
    if (d->exception_code != code)
    {
        viol("EXC_WRONG", "exception code %u reported, the response contains %u", d->exception_code, code);
        return;
    }
    if (d->slave_ID != r.id || d->fun_conde != r.fn || d->data_adr != r.adr || d->data_qty != r.qty)
    {
        viol("EXC_REPORT", "exception reported with slave %u fn %u adr %u qty %u for the request: %s", d->slave_ID, d->fun_conde, d->data_adr, d->data_qty, rq_str(mw.pend[0]).c_str());
        return;
    }
    m_finish();
    m_chain();
    point();
}
static bool m_report_ok(const modbus_master_error_report_t *e, const RefReq &r)
{
    if (e->slave_ID != r.id || e->fun_conde != r.fn || e->data_adr != r.adr || e->data_qty != r.qty)
    {
        viol("REPORT", "error reported with slave %u fn %u adr %u qty %u for the request: %s", e->slave_ID, e->fun_conde, e->data_adr, e->data_qty, rq_str(mw.pend[0]).c_str());
        return false;
    }
    return true;
}
extern "C" {
void modbus_master_coil_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { m_deliver("modbus_master_coil_read", FC_RC, s, a, v); }
void modbus_master_disin_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { m_deliver("modbus_master_disin_read", FC_RDI, s, a, v); }
void modbus_master_hreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { m_deliver("modbus_master_hreg_read", FC_RHR, s, a, v); }
void modbus_master_inreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { m_deliver("modbus_master_inreg_read", FC_RIR, s, a, v); }
void modbus_master_coil_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { m_confirm("modbus_master_coil_write", true, s, a, q); }
void modbus_master_hreg_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { m_confirm("modbus_master_hreg_write", false, s, a, q); }
void modbus_master_coil_exception(const modbus_read_data_t *d) { m_exception("modbus_master_coil_exception", XC_COIL, d); }
void modbus_master_disin_exception(const modbus_read_data_t *d) { m_exception("modbus_master_disin_exception", XC_DIN, d); }
void modbus_master_hreg_exception(const modbus_read_data_t *d) { m_exception("modbus_master_hreg_exception", XC_HREG, d); }
void modbus_master_inreg_exception(const modbus_read_data_t *d) { m_exception("modbus_master_inreg_exception", XC_INREG, d); }
void modbus_master_data_timeout_error(const modbus_master_error_report_t *e)
{
    m_obs_timeout++;
    LOG("      timeout reported (slave %u, fn %u, adr %u, qty %u)\n", e->slave_ID, e->fun_conde, e->data_adr, e->data_qty);
    if (!m_outcome_context("the timeout report"))
        return;
    if ((int)mw.tick < cfg_TO - 1)
    {
        viol("TIMEOUT_EARLY", "timeout reported after %d of %d ticks since the end of the transmission", mw.tick, cfg_TO);
        return;
    }
    if (mw.own15 == 1 && !mw.garbled)
    {
        viol(ignored("TIMEOUT_UNJUSTIFIED"), "timeout reported although a frame of the addressed slave was received");
        return;
    }
    if (mw.out)
    {
        viol("DELIVER_PARTIAL", "timeout reported in the middle of a delivery");
        return;
    }
    if (!m_report_ok(e, RQ[mw.pend[0]]))
        return;
    if (e->resp_read_error != MODBUS_MASTER_RESP_TIMEOUT_ERR)
    {
        viol("REPORT", "timeout reported with error kind %d", e->resp_read_error);
        return;
    }
    m_finish();
    m_chain();
    point();
}
void modbus_master_communication_error(const modbus_master_error_report_t *e)
{
    m_obs_comm++;
    LOG("      communication error reported (slave %u, fn %u, adr %u, qty %u, kind %d)\n", e->slave_ID, e->fun_conde, e->data_adr, e->data_qty, e->resp_read_error);
    if (!m_outcome_context("the communication error report"))
        return;
    if (!mw.bad || (!mw.t35 && !mw.garbled))
    {
        viol(ignored("COMM_UNJUSTIFIED"), "communication error reported although no damaged response was received in the last attempt");
        return;
    }
    if (mw.retries != cfg_R)
    {
        viol("COMM_EARLY", "communication error reported after %d of %d repetitions", mw.retries, cfg_R);
        return;
    }
    if (mw.out)
    {
        viol("DELIVER_PARTIAL", "communication error reported in the middle of a delivery");
        return;
    }
    if (!m_report_ok(e, RQ[mw.pend[0]]))
        return;
    int k = e->resp_read_error;
    bool crc_ok = mw.bad_crc || mw.garbled, frame_ok = mw.bad_frame || mw.garbled;
    if (!((k == MODBUS_MASTER_RESP_RTU_CRC_ERR && crc_ok) || (k == MODBUS_MASTER_RESP_FRAME_ERR && frame_ok)))
    {
        viol("REPORT", "communication error reported with kind %d, the last response had%s%s", k, mw.bad_crc ? " a damaged CRC" : "", mw.bad_frame ? " a frame error" : "");
        return;
    }
    m_finish();
    m_chain();
    point();
}
}

// ---- calls of the main program ----
static void m_poll()
{
    mw.new35 = 0;
    u8 hs0 = mw.hs;
    u32 st0 = mw.stick;
    sent_now = false;
    mw.in_call = mw.in_poll = 1;
    inj_active = true;
    update_modbus_master_manager();
    inj_active = false;
    mw.in_call = mw.in_poll = 0;
    mw.noena = 0;
    if (mw.own15)
        mw.own15 = 1;
    if (mw.out && !g_viol_kind)
        viol("DELIVER_PARTIAL", "only %d of %d values of the response were delivered", mw.ndel, RQ[mw.pend[0]].qty);
    if (!mw.new35 && mw.polls35 < READY)
        mw.polls35++;
    mw.new35 = 0;
    if (opt_late && mw.hs == 2 && hs0 == 2 && !sent_now) // the call began after the transmission
    {
        mw.wpoll = 1;
        if (st0 >= (u32)cfg_TO && mw.lateP < 3)
            mw.lateP++;
        if (mw.lateP >= 3 && !mw.own15 && !mw.garbled && !mw.bad && !mw.good)
            viol("TIMEOUT_LATE", "no timeout was reported %d ticks after the transmission", cfg_TO);
    }
}
static void m_app(int k)
{
    mw.in_call = 1;
    inj_active = true;
    m_request(k);
    inj_active = false;
    mw.in_call = 0;
}
static void m_reset_env()
{
    mw.np = 0;
    memset(mw.pend, 0, sizeof mw.pend);
    mw.hs = 0;
    mw.retries = 0;
    mw.out = 0;
    mw.ndel = 0;
    mw.bad = mw.bad_crc = mw.bad_frame = mw.garbled = mw.t35 = mw.own15 = mw.good = mw.seen = mw.cand = mw.nfr = 0;
    mw.tick = mw.stick = mw.wpoll = mw.lateP = 0;
    if (mw.phase)
        mw.f_dirty = 2;
    mw.polls35 = READY;
}
static void m_init(int mode)
{
    u8 nfr = mw.nfr;
    m_reset_env();
    mw.in_call = 1;
    inj_active = true;
    modbus_master_init((modbus_mode_t)mode, 9600, EVEN);
    inj_active = false;
    mw.in_call = 0;
    mw.live = 1;
    m_reset_env();
    mw.tx_busy = 0;
    mw.nfr = nfr;
}

// From the current state: a silent bus concludes every outstanding request, then exactly N requests are
// accepted, and answered at once they all succeed at the first attempt, with nothing else happening.
static void m_settle_silent()
{
    mw.arm = 0;
    int limit = cfg_N * (cfg_R + 2) * (cfg_TO + 8) + 60;
    for (int i = 0; i < limit && !g_viol_kind; i++)
    {
        if (!mw.np && !mw.tx_busy && !mw.phase && mw.polls35 >= READY)
            break;
        if (mw.tx_busy)
            me_txdone();
        else if (mw.phase == 1)
            me_t15();
        else if (mw.phase == 2)
            me_t35();
        else
            me_tick();
        m_poll();
    }
    if (!g_viol_kind && mw.np)
        viol("NO_PROGRESS", "%d request(s) never got an outcome (oldest: %s)", mw.np, rq_str(mw.pend[0]).c_str());
    if (!g_viol_kind && mw.tx_busy)
        viol("SEND_NO_REQ", "the master kept transmitting without a request");
}
static bool m_settle_answered() // every outstanding request gets a good response
{
    int limit = cfg_N * 12 + 20;
    for (int i = 0; i < limit && mw.np && !g_viol_kind; i++)
    {
        m_poll();
        if (g_viol_kind)
            break;
        if (mw.tx_busy)
        {
            me_txdone();
            m_poll();
            me_tick();
            // always the same response, whatever the menu of the exploration is
            if (!g_viol_kind && me_frame(F_GOOD, 0))
            {
                me_t15();
                m_poll();
                me_t35();
            }
        }
    }
    if (!g_viol_kind && mw.np)
        viol("NO_PROGRESS", "%d request(s) got no outcome although every one was answered (oldest: %s)", mw.np, rq_str(mw.pend[0]).c_str());
    return !g_viol_kind;
}
static void m_settle_capacity()
{
    int k0 = req_menu[0];
    for (int i = 0; i < cfg_N && !g_viol_kind; i++)
    {
        int k = req_menu[i % n_req_menu];
        if (rq_invalid[k])
            k = k0;
        m_app(k);
    }
    if (!g_viol_kind && mw.np != cfg_N)
        viol("CAPACITY", "only %d of %d requests could be made", mw.np, cfg_N);
    if (!g_viol_kind)
        m_app(k0); // must be refused
    if (!g_viol_kind)
        m_settle_answered();
}
static void m_settle()
{
    int s1 = opt_stray;
    m_settle_silent();
    if (!g_viol_kind)
        m_settle_capacity();
    opt_stray = s1;
}

static void parse_menu(const std::string &s, int *menu, int &n, int max)
{
    const char *p = s.c_str();
    n = 0;
    while (*p && n < max)
    {
        char *e;
        long v = strtol(p, &e, 10);
        if (e == p)
            break;
        menu[n++] = (int)v;
        p = *e ? e + 1 : e;
    }
}
static void m_config()
{
    rq_init();
    parse_menu(opts.gets("reqs", "0,1"), req_menu, n_req_menu, NKIND);
    frames_init();
    parse_menu(opts.gets("frames", "0"), frame_menu, n_frame_menu, F_NTYPES);
    parse_menu(opts.gets("noise", ""), noise_menu, n_noise_menu, F_NTYPES);
    opt_hostile = opts.get("hostile", 0);
    opt_stray = opts.get("stray", 0);
    opt_fe = opts.get("fe", 0);
    opt_split = opts.get("split", 0);
    opt_reinit = opts.get("reinit", 0);
    opt_arm = opts.get("arm", 0);
    opt_spur = opts.get("spur", 0);
    opt_rep15 = opts.get("rep15", 0);
    opt_late = opts.get("late", 0);
}
