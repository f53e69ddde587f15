// Environment and reference monitor of the slave role.
#pragma once
#include "core.hpp"
#include "ref_slave.hpp"
#include "modbus_slave.h"
#include "modbus_driver_interface.h"
extern "C" {
extern const int cfg_coils, cfg_din, cfg_inreg, cfg_hreg;
}
#define TAB 4 // table sizes of the exploration
#define READY 4
#define SID 17

struct SWorld
{
    // the application's data, registered with the library
    modbus_coil_disin_t c[TAB], d[TAB], c2, d2;
    modbus_reg_t ir[TAB], hr[TAB], ir2, hr2;
    // what they have to be
    u16 ec[TAB], ed[TAB], eir[TAB], ehr[TAB], e2[4]; // e2: the second variables
    u8 own;  // 0 element 1 of every table is bound to the first variable, 1 to the second one, 2 to none
    driver_subscr_cb_t cb15, cb35, cbtx, cbfe;
    modbus_req_resp_t *rx;
    const u8 *tx_ptr;
    u8 rx_on, tx_busy, tx_len;
    u8 tx[24]; // the reply being transmitted
    // the line
    u8 phase, f_type, f_part, f_fe, f_dirty, f_extra;
    u8 nfr;
    u8 lost;
    u8 garbled; // traffic the slave need not understand
    u8 pend;    // 1 + frame that is complete and has to be dealt with
    u32 seen;   // complete frames since the slave was last certainly idle
    u8 polls35, new35, in_call, in_poll, live;
    u8 sent; // replies in this call
};
#ifndef WORLD
#define WORLD
#endif
static SWorld sw WORLD;
static u64 s_obs_send = 0, s_obs_silent = 0, s_obs_cat[5];
static int s_opt_hostile = 0, s_opt_stray = 0, s_opt_fe = 0, s_opt_split = 0, s_opt_reinit = 0, s_opt_spur = 0, s_opt_rep15 = 0, s_opt_app = 0, s_opt_reg = 0;

// ---- frames ----
enum
{
    S_RC, S_RHR, S_WSC1, S_WSC0, S_WSR, S_WMC, S_WMR, S_RDI, S_RIR, S_BADFN, S_RANGE, S_QTY0, S_COILVAL, S_BYTECNT, S_FOREIGN, S_BADCRC,
    S_TRUNC, S_BYTE, S_SHORT, S_FOREIGNLONG, S_WMR2, S_WSCRANGE, S_WMCRANGE, S_TRUNC1, S_NOISE, S_TWO, S_FOREIGNBAD, S_MAX, S_WSR2, S_FNSHORT,
    S_NTYPES
};
static const char *const S_NAME[] = {"read all coils", "read holding registers 1-2", "write coil 2 on", "write coil 2 off", "write register 1", "write coils 1-3", "write registers 0-1", "read discrete inputs 0-2",
                                     "read input register 3", "unsupported function", "read holding registers 3-4 (beyond the table)", "read 0 input registers", "write coil with an invalid value", "write registers with a wrong byte count", "write register of another slave", "damaged write register",
                                     "write registers cut short, CRC valid", "the slave's address alone", "function code only, CRC valid", "long frame of another slave", "write all registers", "write coil 4 (beyond the table)", "write coils 2-5 (beyond the table)", "write register cut short, CRC valid", "noise",
                                     "address and one byte", "damaged frame of another slave", "read 65535 coils", "write register 2", "function 0x0F alone, CRC valid"};
static u8 s_fr[S_NTYPES][80];
static u16 s_frn[S_NTYPES];
static int s_menu[S_NTYPES], n_s_menu = 0;
static void s_mk(int t, std::initializer_list<int> l)
{
    int n = 0;
    for (int b : l)
        s_fr[t][n++] = b;
    s_frn[t] = put_crc(s_fr[t], n);
}
static void s_frames_init()
{
    s_mk(S_RC, {SID, 1, 0, 0, 0, 4});
    s_mk(S_RHR, {SID, 3, 0, 1, 0, 2});
    s_mk(S_WSC1, {SID, 5, 0, 2, 0xFF, 0});
    s_mk(S_WSC0, {SID, 5, 0, 2, 0, 0});
    s_mk(S_WSR, {SID, 6, 0, 1, 0xBE, 0x01});
    s_mk(S_WMC, {SID, 15, 0, 1, 0, 3, 1, 0x05});
    s_mk(S_WMR, {SID, 16, 0, 0, 0, 2, 4, 0x7F, 0x02, 0xFF, 0x80});
    s_mk(S_RDI, {SID, 2, 0, 0, 0, 3});
    s_mk(S_RIR, {SID, 4, 0, 3, 0, 1});
    s_mk(S_BADFN, {SID, 7});
    s_mk(S_RANGE, {SID, 3, 0, 3, 0, 2});
    s_mk(S_QTY0, {SID, 4, 0, 0, 0, 0});
    s_mk(S_COILVAL, {SID, 5, 0, 1, 0x00, 0x01});
    s_mk(S_BYTECNT, {SID, 16, 0, 0, 0, 2, 2, 0x11, 0x22, 0x33, 0x44});
    s_mk(S_FOREIGN, {SID + 1, 6, 0, 1, 0x55, 0x66});
    s_mk(S_BADCRC, {SID, 6, 0, 1, 0x55, 0x66});
    s_fr[S_BADCRC][4] ^= 2;
    s_mk(S_TRUNC, {SID, 16, 0, 0, 0, 2, 4, 0x12});
    s_mk(S_BYTE, {SID});
    s_frn[S_BYTE] = 1;
    s_mk(S_SHORT, {SID, 3});
    s_mk(S_FOREIGNLONG, {SID ^ 0x40, 16, 0, 0, 0, 10, 20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20});
    s_mk(S_WMR2, {SID, 16, 0, 0, 0, 4, 8, 0x12, 0x34, 0x56, 0x78, 0x9A, 0xBC, 0xDE, 0xF1});
    s_mk(S_WSCRANGE, {SID, 5, 0, 4, 0xFF, 0});
    s_mk(S_WMCRANGE, {SID, 15, 0, 2, 0, 4, 1, 0x0F});
    s_mk(S_TRUNC1, {SID, 6, 0, 2, 0x44});
    s_mk(S_NOISE, {0x9D, 0x00, 0x11});
    s_frn[S_NOISE] = 3;
    s_mk(S_TWO, {SID, 6});
    s_frn[S_TWO] = 2;
    s_mk(S_FOREIGNBAD, {SID ^ 1, 3, 0, 1, 0, 2});
    s_fr[S_FOREIGNBAD][0] = SID ^ 8;
    s_mk(S_MAX, {SID, 1, 0, 0, 0xFF, 0xFF});
    s_mk(S_WSR2, {SID, 6, 0, 2, 0x0A, 0xFE});
    s_mk(S_FNSHORT, {SID, 15});
}
static int s_cur_len()
{
    int n = s_frn[sw.f_type];
    return sw.f_part == 1 ? n / 2 : n;
}

// ---- the application's data ----
static bool s_data_ok(const char *what)
{
    for (int i = 0; i < TAB; i++)
    {
        if (sw.c[i] != sw.ec[i])
            viol("DATA", "%s: coil %d is %d, expected %d", what, i, sw.c[i], sw.ec[i]);
        if (sw.d[i] != sw.ed[i])
            viol("DATA", "%s: discrete input %d is %d, expected %d", what, i, sw.d[i], sw.ed[i]);
        if (sw.ir[i] != sw.eir[i])
            viol("DATA", "%s: input register %d is %d, expected %d", what, i, sw.ir[i], sw.eir[i]);
        if (sw.hr[i] != sw.ehr[i])
            viol("DATA", "%s: holding register %d is %d, expected %d", what, i, sw.hr[i], sw.ehr[i]);
    }
    if (sw.c2 != sw.e2[0] || sw.d2 != sw.e2[1] || sw.ir2 != sw.e2[2] || sw.hr2 != sw.e2[3])
        viol("DATA", "%s: a variable that is not registered (any more), or the one registered in its place, was changed", what);
    return !g_viol_kind;
}
static u8 s_regd[4][TAB];
static u16 s_mv[4][TAB];
// the model of the data as the library has to see it
static void s_model(SModel &m)
{
    const u16 *e[4] = {sw.ec, sw.ed, sw.eir, sw.ehr};
    for (int t = 0; t < 4; t++)
    {
        m.n[t] = TAB;
        m.v[t] = s_mv[t];
        m.reg[t] = s_regd[t];
        for (int i = 0; i < TAB; i++)
        {
            s_regd[t][i] = i != 1 || sw.own != 2;
            s_mv[t][i] = i == 1 && sw.own == 1 ? sw.e2[t] : e[t][i];
        }
    }
}
static void s_model_back()
{
    u16 *e[4] = {sw.ec, sw.ed, sw.eir, sw.ehr};
    for (int t = 0; t < 4; t++)
        for (int i = 0; i < TAB; i++)
        {
            if (i == 1 && sw.own == 1)
                sw.e2[t] = s_mv[t][i];
            else
                e[t][i] = s_mv[t][i];
        }
}
// elements in front of one that is not registered may have been written by a request answered with exception 4
static void s_tolerate(const SResult &r, const u8 *f)
{
    for (int i = 0; i < r.cnt; i++)
    {
        int a = r.from + i;
        if (r.tab == T_COIL)
        {
            u16 nv = (f[7 + i / 8] >> (i % 8)) & 1;
            if (a != 1 && sw.c[a] == nv)
                sw.ec[a] = nv;
        }
        else
        {
            u16 nv = rd16(f + 7 + 2 * i);
            if (a != 1 && sw.hr[a] == nv)
                sw.ehr[a] = nv;
        }
    }
}
static void s_register()
{
    for (int i = 0; i < TAB; i++)
        if (i != 1)
        {
            register_app_data_to_modbus_slave_coils_table(i, &sw.c[i]);
            register_app_data_to_modbus_slave_din_table(i, &sw.d[i]);
            register_app_data_to_modbus_slave_inreg_table(i, &sw.ir[i]);
            register_app_data_to_modbus_slave_hreg_table(i, &sw.hr[i]);
        }
}
static void s_register1()
{
    register_app_data_to_modbus_slave_coils_table(1, sw.own == 0 ? &sw.c[1] : sw.own == 1 ? &sw.c2 : NULL);
    register_app_data_to_modbus_slave_din_table(1, sw.own == 0 ? &sw.d[1] : sw.own == 1 ? &sw.d2 : NULL);
    register_app_data_to_modbus_slave_inreg_table(1, sw.own == 0 ? &sw.ir[1] : sw.own == 1 ? &sw.ir2 : NULL);
    register_app_data_to_modbus_slave_hreg_table(1, sw.own == 0 ? &sw.hr[1] : sw.own == 1 ? &sw.hr2 : NULL);
}

// ---- driver ----
static void sd_init(baud_t, parity_t)
{
    point();
    sw.tx_busy = 0;
}
static void s_append(u8 b)
{
    if (sw.rx && sw.rx_on)
    {
        sw.rx->data[sw.rx->len] = b;
        sw.rx->len++;
    }
}
static const char *cat_kind(int c)
{
    switch (c)
    {
    case R_READ:
        return "REPLY_READ";
    case R_WRITE:
        return "REPLY_WRITE";
    case R_INVALID:
        return "REPLY_EXC";
    case R_FAILURE:
        return "REPLY_FAILURE";
    }
    return "REPLY_SPURIOUS";
}
static void sd_send(modbus_buf_t *buf, modbus_buf_size_t len)
{
    point();
    s_obs_send++;
    LOG("      slave transmits %s\n", hex(buf, len).c_str());
    if (!sw.in_poll)
        viol("REPLY_CONTEXT", "a transmission was started outside of the manager");
    if (sw.tx_busy)
        viol("REPLY_BUSY", "a transmission was started while another one was running");
    if (!sw.pend && !sw.garbled)
    {
        viol(sw.phase == 2 && sw.f_part == 2 ? "REPLY_EARLY" : "REPLY_SPURIOUS", "%s was transmitted although no complete request has been received that is not answered yet", hex(buf, len).c_str());
        return;
    }
    if (sw.phase && !sw.garbled)
        viol("REPLY_EARLY", "a reply was started while the line was not silent");
    SModel m;
    SResult r;
    bool ok = false;
    SResult best;
    best.cat = R_SILENT;
    for (int t = 0; t < S_NTYPES && !ok; t++)
    {
        bool cand = sw.pend == 1 + t || (sw.garbled && (sw.seen >> t & 1));
        if (!cand)
            continue;
        s_model(m);
        ref_slave(m, SID, s_fr[t], s_frn[t], r);
        if (best.cat == R_SILENT || sw.pend == 1 + t)
            best = r;
        if (r.cat == R_SILENT || r.len != len || memcmp(r.f, buf, len))
            continue;
        ok = true;
        s_obs_cat[r.cat]++;
        if (r.cat == R_WRITE)
            s_model_back();
        else if (r.cat == R_FAILURE)
            s_tolerate(r, s_fr[t]);
        s_data_ok(S_NAME[t]);
    }
    if (!ok)
        viol(cat_kind(best.cat), "transmitted %s, expected %s", hex(buf, len).c_str(), best.cat == R_SILENT ? "nothing" : hex(best.f, best.len).c_str());
    if (sw.pend)
        sw.seen &= ~(1u << (sw.pend - 1));
    sw.pend = 0;
    sw.tx_busy = 1;
    sw.tx_ptr = buf;
    sw.tx_len = len;
    if (len <= sizeof sw.tx)
        memcpy(sw.tx, buf, len);
    point();
}
static void sd_enable(modbus_req_resp_t *p)
{
    point();
    sw.rx = p;
    sw.rx_on = 1;
    point();
}
static void sd_disable(void) { sw.rx_on = 0; }
static void sd_s15(driver_subscr_cb_t c) { sw.cb15 = c; }
static void sd_stx(driver_subscr_cb_t c) { sw.cbtx = c; }
static void sd_s35(driver_subscr_cb_t c) { sw.cb35 = c; }
static void sd_sfe(driver_subscr_cb_t c) { sw.cbfe = c; }
static const modbus_RTU_driver_struct_t sd_driver = {sd_init, sd_send, sd_enable, sd_disable, sd_s15, sd_stx, sd_s35, sd_sfe};
const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return &sd_driver; }

// ---- events of the bus ----
static bool s_line_may_begin()
{
    if (sw.phase)
        return false;
    if (sw.tx_busy)
        return s_opt_stray;
    return sw.polls35 >= READY || s_opt_hostile;
}
static bool se_frame(int type, int part)
{
    if (!s_line_may_begin())
        return false;
    bool dirty = sw.tx_busy || sw.polls35 < READY;
    if (dirty)
    {
        if (sw.nfr >= 2)
            return false;
        sw.nfr++;
    }
    if (sw.lost && !sw.tx_busy)
        dirty = true;
    sw.lost = 0;
    sw.f_type = type;
    sw.f_part = part ? 1 : 2;
    sw.f_fe = sw.f_extra = 0;
    sw.f_dirty = dirty;
    sw.phase = 1;
    if (!sw.tx_busy && dirty)
        sw.garbled = 1;
    int n = s_cur_len();
    for (int i = 0; i < n; i++)
        s_append(s_fr[type][i]);
    if (sw.f_part == 2)
        sw.seen |= 1u << type;
    return true;
}
static bool se_rest()
{
    if (sw.phase == 0 || sw.f_part != 1)
        return false;
    int n0 = s_cur_len();
    sw.f_part = 2;
    int n = s_cur_len();
    bool gap = sw.phase == 2;
    sw.phase = 1;
    for (int i = n0; i < n; i++)
        s_append(s_fr[sw.f_type][i]);
    sw.seen |= 1u << sw.f_type;
    if (gap)
    {
        sw.f_fe = 1;
        sw.cbfe();
    }
    return true;
}
static bool se_t15()
{
    if (sw.phase == 0 || (sw.phase == 2 && !s_opt_rep15))
        return false;
    sw.phase = 2;
    sw.cb15();
    return true;
}
static bool se_t35()
{
    if (sw.phase != 2)
        return false;
    sw.phase = 0;
    if (!sw.tx_busy)
    {
        sw.polls35 = 0;
        sw.new35 = 1;
        if (sw.f_dirty)
            sw.garbled = 1;
        else if (!sw.f_fe && !sw.f_extra && sw.f_part == 2)
        {
            SModel m;
            SResult r;
            s_model(m);
            ref_slave(m, SID, s_fr[sw.f_type], s_frn[sw.f_type], r);
            sw.pend = r.cat == R_SILENT ? 0 : 1 + sw.f_type;
            if (r.cat == R_SILENT)
                s_obs_silent++;
        }
    }
    sw.cb35();
    return true;
}
static bool se_fe()
{
    if (!s_opt_fe || sw.f_fe || !(sw.phase || s_opt_fe > 1))
        return false;
    if (sw.phase == 0 && !s_opt_hostile && (sw.polls35 < READY || sw.tx_busy))
        return false;
    if (sw.phase == 2)
    {
        sw.f_extra = 1;
        sw.phase = 1;
        s_append(0);
    }
    else if (sw.phase == 0)
    { // a line disturbance between frames: the next request may be lost
        sw.lost = 1;
        if (sw.polls35 < READY)
            sw.garbled = 1;
    }
    sw.f_fe = 1;
    sw.cbfe();
    return true;
}
static bool se_txdone()
{
    if (!sw.tx_busy)
    {
        if (!s_opt_spur)
            return false;
        sw.cbtx();
        return true;
    }
    if (sw.tx_len <= sizeof sw.tx && memcmp(sw.tx, sw.tx_ptr, sw.tx_len))
        viol("TX_CHANGED", "the reply was changed while it was being transmitted: %s, was %s", hex(sw.tx_ptr, sw.tx_len).c_str(), hex(sw.tx, sw.tx_len).c_str());
    sw.tx_busy = 0;
    sw.garbled = 0;
    sw.seen = 0;
    sw.pend = 0;
    sw.nfr = 0;
    if (sw.phase)
    {
        sw.f_dirty = 1; // it began during the transmission
        sw.garbled = 1;
    }
    sw.polls35 = READY;
    sw.new35 = 0;
    sw.cbtx();
    return true;
}

// ---- the main program ----
static void s_quiet()
{ // everything that was received has been dealt with
    if (sw.phase == 0 && !sw.tx_busy && sw.polls35 >= READY)
    {
        sw.garbled = 0;
        sw.seen = 0;
        sw.nfr = 0;
    }
}
static void s_poll()
{
    sw.new35 = 0;
    sw.in_call = sw.in_poll = 1;
    inj_active = true;
    check_modbus_request();
    inj_active = false;
    sw.in_call = sw.in_poll = 0;
    if (!sw.new35 && sw.polls35 < READY)
        sw.polls35++;
    sw.new35 = 0;
    if (sw.pend && !sw.garbled && !sw.tx_busy && sw.polls35 >= READY)
        viol("NO_REPLY", "the request was not answered: %s", S_NAME[sw.pend - 1]);
    if (sw.pend && sw.polls35 >= READY)
        sw.pend = 0;
    s_quiet();
}
static void s_app()
{ // the application changes all its values
    for (int i = 0; i < TAB; i++)
    {
        sw.c[i] = !sw.c[i], sw.ec[i] = sw.c[i];
        sw.d[i] = !sw.d[i], sw.ed[i] = sw.d[i];
        sw.ir[i] ^= 0x8101, sw.eir[i] = sw.ir[i];
        sw.hr[i] ^= 0x0180, sw.ehr[i] = sw.hr[i];
    }
    sw.c2 = !sw.c2, sw.e2[0] = sw.c2;
    sw.d2 = !sw.d2, sw.e2[1] = sw.d2;
    sw.ir2 = sw.e2[2] = sw.ir2 ^ 0x0F0F;
    sw.hr2 = sw.e2[3] = sw.hr2 ^ 0xF00F;
}
static void s_init()
{
    sw.in_call = 1;
    inj_active = true;
    inj_fired = 0;
    modbus_slave_init(RTU, 9600, EVEN, SID);
    inj_active = false;
    sw.in_call = 0;
    sw.live = 1;
    sw.pend = 0;
    sw.seen = inj_fired && sw.f_part == 2 ? sw.seen & (1u << sw.f_type) : 0;
    sw.tx_busy = 0;
    sw.garbled = inj_fired != 0; // what arrived during the initialisation may be answered or forgotten
    if (sw.phase)
        sw.f_dirty = 1, sw.garbled = 1;
    sw.polls35 = inj_fired ? 0 : READY;
    sw.new35 = 0;
}
static void s_boot()
{
    for (int i = 0; i < TAB; i++)
    {
        sw.ec[i] = i & 1, sw.c[i] = sw.ec[i];
        sw.ed[i] = (i + 1) & 1, sw.d[i] = sw.ed[i];
        sw.ir[i] = sw.eir[i] = 0x1100 * (i + 1) + 3;
        sw.hr[i] = sw.ehr[i] = 0xFF00 - i * 0x1F1F;
    }
    sw.e2[0] = sw.e2[1] = 1;
    sw.c2 = sw.d2 = 1;
    sw.ir2 = sw.e2[2] = 0x1357;
    sw.hr2 = sw.e2[3] = 0xFFFF;
    s_register();
    s_register1();
    s_init();
}
// From the current state: once the line is silent, valid requests are answered correctly.
static void s_drain()
{
    for (int i = 0; i < 16 && !g_viol_kind; i++)
    {
        if (sw.tx_busy)
            se_txdone();
        else if (sw.phase == 1)
            se_t15();
        else if (sw.phase == 2)
            se_t35();
        s_poll();
        if (!sw.tx_busy && !sw.phase && sw.polls35 >= READY && i >= 6)
            break;
    }
    if (!g_viol_kind)
        s_data_ok("afterwards");
}
static void s_settle()
{
    s_drain();
    static const int probe[] = {S_RHR, S_WSC1, S_WMR2, S_RC};
    for (int i = 0; i < 4 && !g_viol_kind; i++)
    {
        if (!se_frame(probe[i], 0))
        {
            viol("NO_REPLY", "the slave kept transmitting");
            return;
        }
        se_t15();
        s_poll();
        se_t35();
        s_drain();
    }
}
static void s_parse_menu(const std::string &s)
{
    const char *p = s.c_str();
    n_s_menu = 0;
    while (*p)
    {
        char *e;
        long v = strtol(p, &e, 10);
        if (e == p)
            break;
        s_menu[n_s_menu++] = (int)v;
        p = *e ? e + 1 : e;
    }
}
static void s_config()
{
    s_frames_init();
    s_parse_menu(opts.gets("frames", "0,1,4"));
    s_opt_hostile = opts.get("hostile", 0);
    s_opt_stray = opts.get("stray", 0);
    s_opt_fe = opts.get("fe", 0);
    s_opt_split = opts.get("split", 0);
    s_opt_reinit = opts.get("reinit", 0);
    s_opt_spur = opts.get("spur", 0);
    s_opt_rep15 = opts.get("rep15", 0);
    s_opt_app = opts.get("app", 0);
    s_opt_reg = opts.get("reg", 0);
}
