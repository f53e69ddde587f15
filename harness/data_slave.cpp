// Exhaustive enumeration of requests to a slave: addresses, quantities, values, byte counts, lengths, function codes, CRCs.
#include "tsan_rt.hpp"
#include "enum.hpp"
#include "ref_slave.hpp"
#include "neighbours.hpp"
#include "modbus_slave.h"
#include "modbus_driver_interface.h"
extern "C" {
#include "modbus_master_data_interface.h"
extern const int cfg_coils, cfg_din, cfg_inreg, cfg_hreg;
static void mcb() { viol("REPLY_CONTEXT", "the slave called the interface of a master application"); }
void modbus_master_coil_read(modbus_device_ID_t, modbus_adr_t, modbus_coil_disin_t) { mcb(); }
void modbus_master_disin_read(modbus_device_ID_t, modbus_adr_t, modbus_coil_disin_t) { mcb(); }
void modbus_master_hreg_read(modbus_device_ID_t, modbus_adr_t, modbus_reg_t) { mcb(); }
void modbus_master_inreg_read(modbus_device_ID_t, modbus_adr_t, modbus_reg_t) { mcb(); }
void modbus_master_coil_write(modbus_device_ID_t, modbus_adr_t, modbus_data_qty_t) { mcb(); }
void modbus_master_hreg_write(modbus_device_ID_t, modbus_adr_t, modbus_data_qty_t) { mcb(); }
void modbus_master_coil_exception(const modbus_read_data_t *) { mcb(); }
void modbus_master_disin_exception(const modbus_read_data_t *) { mcb(); }
void modbus_master_hreg_exception(const modbus_read_data_t *) { mcb(); }
void modbus_master_inreg_exception(const modbus_read_data_t *) { mcb(); }
void modbus_master_data_timeout_error(const modbus_master_error_report_t *) { mcb(); }
void modbus_master_communication_error(const modbus_master_error_report_t *) { mcb(); }
}
static u64 o_cat[5];
static int ID = 17;

// ---- driver ----
static driver_subscr_cb_t cb15, cb35, cbtx, cbfe;
static modbus_req_resp_t *rx;
static const u8 *txp;
static int txl;
static bool tx_busy, sent, rx_on, may_send, in_poll;
static void d_init(baud_t, parity_t) { tx_busy = false; }
static void d_send(modbus_buf_t *b, modbus_buf_size_t n)
{
    if (!in_poll)
        viol("REPLY_CONTEXT", "a transmission was started outside of the manager");
    if (tx_busy || sent)
        viol("REPLY_BUSY", "a second reply was transmitted");
    if (!may_send)
        viol("REPLY_EARLY", "a reply was transmitted before the end of the request");
    txp = b;
    txl = n;
    tx_busy = sent = true;
}
static void d_en(modbus_req_resp_t *p)
{
    rx = p;
    rx_on = true;
}
static void d_dis(void) { rx_on = false; }
static void d_s15(driver_subscr_cb_t c) { cb15 = c; }
static void d_stx(driver_subscr_cb_t c) { cbtx = c; }
static void d_s35(driver_subscr_cb_t c) { cb35 = c; }
static void d_sfe(driver_subscr_cb_t c) { cbfe = c; }
static const modbus_RTU_driver_struct_t drv = {d_init, d_send, d_en, d_dis, d_s15, d_stx, d_s35, d_sfe};
const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return &drv; }
const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return &drv; }

// ---- the application's data: address a is bound to element pos(a) ----
#define G 4 // guard elements on both sides
static int N[4];
static modbus_coil_disin_t *bitv[2]; // T_COIL, T_DIN
static modbus_reg_t *regv[2];        // T_INREG, T_HREG
static u16 *exp_v[4];                // expected value by address
static u8 *registered[4];
static bool reversed;
static int pos(int t, int a) { return G + (reversed ? N[t] - 1 - a : a); }
static u16 actual(int t, int a) { return t < 2 ? bitv[t][pos(t, a)] : regv[t - 2][pos(t, a)]; }
static void put(int t, int a, u16 v)
{
    if (t < 2)
        bitv[t][pos(t, a)] = v;
    else
        regv[t - 2][pos(t, a)] = v;
    exp_v[t][a] = v;
}
static void bind(int t, int a, bool on)
{
    registered[t][a] = on;
    switch (t)
    {
    case T_COIL:
        register_app_data_to_modbus_slave_coils_table(a, on ? &bitv[0][pos(t, a)] : NULL);
        break;
    case T_DIN:
        register_app_data_to_modbus_slave_din_table(a, on ? &bitv[1][pos(t, a)] : NULL);
        break;
    case T_INREG:
        register_app_data_to_modbus_slave_inreg_table(a, on ? &regv[0][pos(t, a)] : NULL);
        break;
    case T_HREG:
        register_app_data_to_modbus_slave_hreg_table(a, on ? &regv[1][pos(t, a)] : NULL);
        break;
    }
}
static u16 init_value(int t, int a) { return t < 2 ? ((a * 5 + t) % 7) < 3 : (u16)(0x8001 + a * 0x4D3 + t * 0x1111); }
static void poll()
{
    e_calls++;
    in_poll = true;
    check_modbus_request();
    in_poll = false;
}
static u32 salt = 1, order = 0; // order: how the calls of the manager fall between the events
static void boot(int id)
{
    N[0] = cfg_coils, N[1] = cfg_din, N[2] = cfg_inreg, N[3] = cfg_hreg;
    static bool alloc = false;
    if (!alloc)
    {
        alloc = true;
        for (int t = 0; t < 4; t++)
        {
            exp_v[t] = new u16[N[t]];
            registered[t] = new u8[N[t]];
            if (t < 2)
                bitv[t] = new modbus_coil_disin_t[N[t] + 2 * G];
            else
                regv[t - 2] = new modbus_reg_t[N[t] + 2 * G];
        }
    }
    for (int t = 0; t < 4; t++)
    {
        for (int i = 0; i < N[t] + 2 * G; i++)
            if (t < 2)
                bitv[t][i] = i & 1;
            else
                regv[t - 2][i] = 0xC0DE;
        for (int a = 0; a < N[t]; a++)
        {
            put(t, a, init_value(t, a));
            bind(t, a, true);
        }
    }
    ID = id;
    salt = 1;
    order = 0;
    tx_busy = sent = in_poll = false;
    modbus_slave_init(RTU, 9600, EVEN, id);
    tx_busy = false;
}
static void check_range(int t, int from, int to, const char *what)
{
    from = from < 0 ? 0 : from;
    to = to > N[t] ? N[t] : to;
    static const char *const tn[] = {"coil", "discrete input", "input register", "holding register"};
    for (int a = from; a < to && !g_viol_kind; a++)
        if (actual(t, a) != exp_v[t][a])
            viol("DATA", "%s: %s %d is %u, expected %u", what, tn[t], a, actual(t, a), exp_v[t][a]);
}
static void check_everything()
{
    for (int t = 0; t < 4; t++)
    {
        check_range(t, 0, N[t], "afterwards");
        for (int i = 0; i < G; i++)
            if (t < 2 ? (bitv[t][i] != (i & 1) || bitv[t][N[t] + G + i] != ((N[t] + G + i) & 1)) : (regv[t - 2][i] != 0xC0DE || regv[t - 2][N[t] + G + i] != 0xC0DE))
                viol("DATA", "a variable of the application that is not registered was changed");
    }
}
static u8 cur[300];
static int curn;
static std::string describe() { return "slave " + std::to_string(ID) + " receives " + (curn <= 32 ? hex(cur, curn) : hex(cur, 28) + " ... (" + std::to_string(curn) + " bytes)"); }
static const char *kind_of(int c) { return c == R_READ ? "REPLY_READ" : c == R_WRITE ? "REPLY_WRITE" : c == R_INVALID ? "REPLY_EXC" : c == R_FAILURE ? "REPLY_FAILURE" : "REPLY_SPURIOUS"; }
// how the next frame arrives: with a character error in the character at x_fe, a gap of more than 1.5 characters behind the
// one at x_gap, x_polls calls of the manager behind every character
static int x_fe = -1, x_gap = -1, x_polls = 0;
// the manager is called x_idle times: in front of the frame, behind its first half, behind the frame, behind the gap of 1.5
// characters, during the reply, or the main program is so slow that it is not called until long after the frame
static int x_idle = 0, x_idle_at = -1;
static void idle(int at)
{
    for (int i = 0; at == x_idle_at && i < x_idle && !g_viol_kind; i++)
        poll();
}
// one request, complete with CRC
static bool send_frame_(const u8 *f, int n, bool silent_only)
{
    if (f != cur)
        memcpy(cur, f, n);
    curn = n;
    if (!e_mine())
        return !e_out();
    e_begin();
    if (e_out() && !(e_stop_at && e_axis_cases == e_stop_at))
        return false;
    // the model
    SModel m;
    for (int t = 0; t < 4; t++)
        m.n[t] = N[t], m.v[t] = exp_v[t], m.reg[t] = registered[t];
    SResult r;
    if (silent_only || x_fe >= 0 || (x_gap >= 0 && x_gap < n - 1))
        r.cat = R_SILENT, r.cnt = 0, r.tab = r.from = 0;
    else
        ref_slave(m, ID, f, n, r);
    o_cat[r.cat]++;
    // the slave
    sent = false;
    may_send = false;
    idle(0);
    int l0 = rx->len;
    for (int i = 0; i < n; i++)
    {
        if (i == n / 2)
            idle(1);
        rx->data[l0 + i] = f[i];
        rx->len = l0 + i + 1;
        if (x_fe == i || (x_gap >= 0 && x_gap == i - 1))
            cbfe();
        if (x_gap == i && i < n - 1)
        {
            cb15();
            poll();
        }
        for (int k = 0; k < x_polls; k++)
            poll();
    }
    x_fe = x_gap = -1;
    x_polls = 0;
    idle(2);
    cb15();
    idle(3);
    u32 o = order++ % 3;
    if (o < 2)
        poll();
    if (o < 1)
        poll();
    may_send = true;
    cb35();
    for (int i = 0; i < 4 && !sent && !g_viol_kind; i++)
        poll();
    if (g_viol_kind)
        return false;
    if (sent)
    {
        if (r.cat == R_SILENT)
            viol("REPLY_SPURIOUS", "%s: replied %s", describe().c_str(), hex(txp, txl).c_str());
        else if (r.cat == R_INVALID && (f[1] == FC_WMC || f[1] == FC_WMR) && txl > 1 && txp[1] == f[1] && (f[1] == FC_WMC ? (rd16(f + 4) + 7) / 8 : 2 * rd16(f + 4)) > n - 9)
            viol("EXECUTED_SHORT", "%s: confirmed by %s, although the frame does not contain the values to be written", describe().c_str(), hex(txp, txl).c_str());
        else if (r.len != txl || memcmp(r.f, txp, r.len))
            viol(kind_of(r.cat), "%s: replied %s, expected %s", describe().c_str(), hex(txp, txl).c_str(), hex(r.f, r.len).c_str());
        poll();
        idle(4);
        tx_busy = false;
        if (!g_viol_kind && (r.len != txl || memcmp(r.f, txp, r.len)))
            viol("TX_CHANGED", "%s: the reply was changed during its transmission", describe().c_str());
        sent = false;
        may_send = false;
        cbtx();
        poll();
        if (o == 1)
            poll();
    }
    else if (r.cat != R_SILENT)
        viol("NO_REPLY", "%s: no reply, expected %s", describe().c_str(), hex(r.f, r.len).c_str());
    if (g_viol_kind)
        return false;
    if (r.cat == R_FAILURE)
    { // elements in front of the unregistered one may have been written
        for (int i = 0; i < r.cnt; i++)
        {
            u16 nv = r.tab == T_COIL ? (f[7 + i / 8] >> (i % 8)) & 1 : rd16(f + 7 + 2 * i);
            if (actual(r.tab, r.from + i) == nv)
                exp_v[r.tab][r.from + i] = nv;
        }
    }
    if (r.cat == R_WRITE)
        check_range(r.tab, r.from - 9, r.from + r.cnt + 9, describe().c_str());
    int tot = N[0] + N[1] + N[2] + N[3];
    int every = tot < 64 ? 1 : tot < 2000 ? 16 : 4096;
    if (e_axis_cases % every == 0)
        check_everything();
    return !e_out();
}
static bool send_frame(const u8 *f, int n, bool silent_only = false)
{
    bool go_on = send_frame_(f, n, silent_only);
    x_fe = x_gap = -1;
    x_polls = 0;
    x_idle_at = -1;
    if (!e_soft())
        return go_on;
    // the case ended in a violation that does not concern the property: start afresh, with the data as they are
    lib_load(lib_pristine);
    tx_busy = sent = in_poll = false;
    for (int t = 0; t < 4; t++)
        for (int a = 0; a < N[t]; a++)
        {
            exp_v[t][a] = actual(t, a);
            bind(t, a, registered[t][a]);
        }
    for (int t = 0; t < 4; t++)
        for (int i = 0; i < N[t] + 2 * G; i++)
            if (i < G || i >= N[t] + G)
                (t < 2 ? (void)(bitv[t][i] = i & 1) : (void)(regv[t - 2][i] = 0xC0DE));
    modbus_slave_init(RTU, 9600, EVEN, ID);
    tx_busy = false;
    return !e_out();
}
static bool pdu(const u8 *p, int n) // adds address and CRC
{
    cur[0] = ID;
    if (p != cur + 1)
        memmove(cur + 1, p, n);
    return send_frame(cur, put_crc(cur, n + 1));
}
static bool req6(u8 fn, u16 a, u16 x)
{
    cur[1] = fn;
    be16(cur + 2, a);
    be16(cur + 4, x);
    return pdu(cur + 1, 5);
}
static u8 rnd() // data bytes: a fixed sequence
{
    salt = salt * 1664525u + 1013904223u;
    return salt >> 24;
}
// write request with byte count bc and that many data bytes
static bool multi(u8 fn, u16 a, u16 q, int bc, int datan = -1)
{
    if (datan < 0)
        datan = bc;
    cur[1] = fn;
    be16(cur + 2, a);
    be16(cur + 4, q);
    cur[6] = bc;
    for (int i = 0; i < datan; i++)
        cur[7 + i] = rnd();
    if (fn == FC_WMC && q && datan == (q + 7) / 8 && q % 8) // padding bits are 0
        cur[6 + datan] &= (1 << (q % 8)) - 1;
    return pdu(cur + 1, 6 + datan);
}
static const u8 reads[4] = {1, 2, 3, 4};
static int table_of(u8 fn) { return fc_table(fn); }
static int proper_bc(u8 fn, int q) { return fn == FC_WMC ? (q + 7) / 8 : 2 * q; }
static std::vector<int> interesting_qty(u8 fn)
{
    int mx = fc_max(fn), n = N[table_of(fn)];
    std::vector<int> v = {0, 1, 2, 3, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 122, 123, 124, 125, 126, 127, 128, 129, 255, 256, 257, 1967, 1968, 1969, 1999, 2000, 2001, 2040, 2047, 2048, 2049, 32767, 32768, 65534, 65535};
    for (int d : {mx - 1, mx, mx + 1, n - 1, n, n + 1})
        v.push_back(d & 0xFFFF);
    std::vector<int> r;
    for (int x : v)
        if (x >= 0 && std::find(r.begin(), r.end(), x) == r.end())
            r.push_back(x);
    return r;
}
static std::vector<int> interesting_adr(u8 fn)
{
    int mx = fc_max(fn), n = N[table_of(fn)];
    std::vector<int> v = {0, 1, 2, 7, 8, 9, n / 2, n - 2, n - 1, n, n + 1, n - mx - 1, n - mx, n - mx + 1, 255, 256, 0x7FFF, 0x8000, 65535 - mx, 65534, 65535};
    std::vector<int> r;
    for (int x : v)
        if (x >= 0 && x < 65536 && std::find(r.begin(), r.end(), x) == r.end())
            r.push_back(x);
    return r;
}
// every address with the interesting quantities, and every quantity at the interesting addresses
static void ax_read_adr()
{
    boot(17);
    for (u8 fn : reads)
        for (int q : interesting_qty(fn))
            for (int a = 0; a < 65536; a++)
                if (!req6(fn, a, q))
                    return;
}
static void ax_read_qty()
{
    boot(1);
    for (u8 fn : reads)
        for (int a : interesting_adr(fn))
            for (int q = 0; q < 65536; q++)
                if (!req6(fn, a, q))
                    return;
}
// every pair of address and quantity around the table and the limits of the function
static void ax_read_square()
{
    boot(247);
    for (u8 fn : reads)
    {
        int n = N[table_of(fn)], mx = fc_max(fn);
        for (int a = 0; a <= n + 2; a++)
            for (int q = 0; q <= mx + 2; q++)
            {
                if (q > n - a + 3 && q < mx - 2)
                    q = mx - 2;
                if (!req6(fn, a, q))
                    return;
            }
    }
}
static void ax_single()
{
    boot(2);
    for (u8 fn : {FC_WSC, FC_WSR})
    {
        int n = N[table_of(fn)];
        for (int v : {0x0000, 0xFF00, 0x0001, 0x00FF, 0xFF01, 0xFFFF, 0x8000, 0x0100, 0xFE00})
            for (int a = 0; a < 65536; a++)
                if (!req6(fn, a, v))
                    return;
        for (int a : {0, n / 2, n - 1, n, 65535})
            for (int v = 0; v < 65536; v++)
                if (!req6(fn, a, v))
                    return;
    }
}
static void ax_multi_adr()
{
    boot(3);
    for (u8 fn : {FC_WMC, FC_WMR})
        for (int q : interesting_qty(fn))
            if (q <= fc_max(fn) + 1 && proper_bc(fn, q) <= 246)
                for (int a = 0; a < 65536; a++)
                {
                    int n = N[table_of(fn)];
                    if (a > n + 300 && a < 65536 - 300 && (a & 15) != 0 && q > 9)
                        continue;
                    if (!multi(fn, a, q, proper_bc(fn, q)))
                        return;
                }
}
static void ax_multi_qty()
{
    boot(4);
    for (u8 fn : {FC_WMC, FC_WMR})
        for (int a : interesting_adr(fn))
            for (int q = 0; q < 65536; q++)
            {
                int bc = proper_bc(fn, q) & 0xFF;
                if (bc > 246) // a frame has at most 255 bytes
                    bc = 246;
                if (q > 2 * fc_max(fn) && (q & 0xF) > 1 && a != 0)
                    continue;
                if (!multi(fn, a, q, bc))
                    return;
            }
}
// every quantity with every byte count (and as many data bytes)
static void ax_multi_bc()
{
    boot(5);
    for (u8 fn : {FC_WMC, FC_WMR})
    {
        int n = N[table_of(fn)], mx = fc_max(fn);
        for (int a : {0, n > 40 ? n - 40 : 1})
            for (int q = 0; q <= mx + 3; q++)
            {
                if (q > n + 9 && q < mx - 2)
                    q = mx - 2;
                for (int bc = 0; bc <= 246; bc++)
                    if (!multi(fn, a, q, bc))
                        return;
            }
    }
}
// every bit pattern of up to 11 coils, every position of one differing bit, every value in every position of a register block
static void ax_patterns()
{
    boot(6);
    int n = N[T_COIL];
    for (int q = 1; q <= 11 && q <= n; q++)
        for (int a : {0, 3, n - q})
            if (a >= 0 && a + q <= n)
                for (int p = 0; p < 1 << q; p++)
                {
                    cur[1] = FC_WMC;
                    be16(cur + 2, a);
                    be16(cur + 4, q);
                    cur[6] = (q + 7) / 8;
                    cur[7] = p;
                    cur[8] = p >> 8;
                    if (!pdu(cur + 1, 6 + (q + 7) / 8))
                        return;
                    if (!req6(FC_RC, a, q))
                        return;
                }
    int mx = n < 1968 ? n : 1968;
    for (int inv = 0; inv < 2; inv++)
        for (int b = 0; b < mx; b++)
        {
            int nb = (mx + 7) / 8;
            cur[1] = FC_WMC;
            be16(cur + 2, n - mx);
            be16(cur + 4, mx);
            cur[6] = nb;
            memset(cur + 7, inv ? 0xFF : 0, nb);
            cur[7 + b / 8] ^= 1 << (b % 8);
            if (mx % 8)
                cur[6 + nb] &= (1 << (mx % 8)) - 1;
            if (!pdu(cur + 1, 6 + nb))
                return;
            if (!req6(FC_RC, n - mx, n < 2000 ? mx : 2000 < n ? mx : 2000))
                return;
        }
    int h = N[T_HREG], mr = h < 123 ? h : 123;
    for (int v = 0; v < 65536; v++)
    {
        int p = v % mr;
        cur[1] = FC_WMR;
        be16(cur + 2, h - mr);
        be16(cur + 4, mr);
        cur[6] = 2 * mr;
        for (int i = 0; i < mr; i++)
            be16(cur + 7 + 2 * i, i == p ? v : (u16)~v);
        if (!pdu(cur + 1, 6 + 2 * mr))
            return;
        if (!req6(FC_RHR, h - mr, mr))
            return;
    }
}
// the application changes its values; every value of every kind is read
static void ax_values()
{
    boot(7);
    for (int t : {T_INREG, T_HREG})
    {
        int n = N[t];
        for (int v = 0; v < 65536; v++)
        {
            int a = v % n;
            put(t, a, v);
            int q = n - a < 3 ? n - a : 3;
            if (!req6(t == T_INREG ? FC_RIR : FC_RHR, a, q))
                return;
        }
    }
    for (int t : {T_COIL, T_DIN})
    {
        int n = N[t];
        int w = n < 12 ? n : 12;
        for (int off : {0, n - w})
            for (int p = 0; p < 1 << w; p++)
            {
                for (int i = 0; i < w; i++)
                    put(t, off + i, (p >> i) & 1);
                if (!req6(t == T_COIL ? FC_RC : FC_RDI, off, w))
                    return;
            }
        for (int a = 0; a < n; a++)
            for (int v = 0; v < 2; v++)
            {
                put(t, a, v);
                if (!req6(t == T_COIL ? FC_RC : FC_RDI, 0, n < 2000 ? n : 2000))
                    return;
                if (!req6(t == T_COIL ? FC_RC : FC_RDI, a, 1))
                    return;
            }
    }
}
// function codes: every function code with every length of up to 251 bytes of anything
static void ax_function()
{
    boot(8);
    for (int l = 0; l <= 251; l++)
        for (int fn = 0; fn < 256; fn++)
        {
            if (fc_known(fn))
                continue;
            for (int v = 0; v < (l == 4 ? 3 : 1); v++)
            {
                cur[1] = fn;
                for (int i = 0; i < l; i++)
                    cur[2 + i] = v == 0 ? rnd() : v == 1 ? 0 : i == 3;
                if (!pdu(cur + 1, 1 + l))
                    return;
            }
        }
}
// truncation: every request of a list, cut anywhere, with a CRC that fits, after requests that left other data behind
static void sample_requests(std::vector<std::vector<u8>> &out)
{
    auto add = [&](std::vector<u8> v) { out.push_back(v); };
    for (u8 fn : reads)
    {
        add({fn, 0, 0, 0, 1});
        add({fn, 0, 1, 0, (u8)(N[table_of(fn)] < 200 ? N[table_of(fn)] - 1 : 125)});
    }
    add({5, 0, 0, 0xFF, 0});
    add({5, 0, 1, 0, 0});
    add({6, 0, 1, 0x12, 0x34});
    for (int q : {1, 8, 9, 1968})
        if (q <= N[T_COIL])
        {
            std::vector<u8> v = {15, 0, 0, (u8)(q >> 8), (u8)q, (u8)((q + 7) / 8)};
            for (int i = 0; i < (q + 7) / 8; i++)
                v.push_back(i * 37 + 0x55);
            if (q % 8)
                v.back() &= (1 << (q % 8)) - 1;
            add(v);
        }
    for (int q : {1, 2, 123})
        if (q <= N[T_HREG])
        {
            std::vector<u8> v = {16, 0, 0, 0, (u8)q, (u8)(2 * q)};
            for (int i = 0; i < 2 * q; i++)
                v.push_back(i * 41 + 0x77);
            add(v);
        }
}
static void ax_short()
{
    boot(9);
    std::vector<std::vector<u8>> rq;
    sample_requests(rq);
    for (auto &before : rq)
        for (auto &r : rq)
            for (size_t l = 0; l < r.size(); l++)
            {
                if (!pdu(before.data(), before.size()))
                    return;
                // with a CRC that fits
                cur[0] = ID;
                memcpy(cur + 1, r.data(), l);
                int n = l ? put_crc(cur, 1 + l) : 1;
                if (n == 1)
                {
                    if (!send_frame(cur, n, true))
                        return;
                }
                else if (!send_frame(cur, n))
                    return;
                // the end of the frame is missing
                if (l >= 1)
                {
                    cur[0] = ID;
                    memcpy(cur + 1, r.data(), r.size());
                    put_crc(cur, 1 + r.size());
                    if (!send_frame(cur, 1 + l))
                        return;
                }
                if (l + 1 == r.size())
                {
                    put_crc(cur, 1 + r.size());
                    if (!send_frame(cur, 1 + r.size()) || !send_frame(cur, 2 + r.size()))
                        return;
                }
            }
    for (int id = 0; id < 256; id++) // single characters, and address and CRC only
    {
        cur[0] = id;
        if (!send_frame(cur, 1, true))
            return;
        put_crc(cur, 1);
        if (!send_frame(cur, 3, true))
            return;
        cur[0] = id;
        cur[1] = ID;
        if (!send_frame(cur, 2, true))
            return;
    }
    for (int fn = 0; fn < 256; fn++) // short frames with a wrong checksum
        for (int l = 0; l < 9; l++)
            for (int bad = 0; bad < 20; bad++)
            {
                cur[0] = ID;
                cur[1] = fn;
                for (int i = 0; i < l; i++)
                    cur[2 + i] = i & 1;
                int n = put_crc(cur, 2 + l);
                u16 c = cur[n - 2] | cur[n - 1] << 8, d = bad < 16 ? c ^ 1 << bad : bad == 16 ? (u16)~c : bad == 17 ? (u16)(c << 8 | c >> 8) : bad == 18 ? 0 : 0xFFFF;
                if (d == c)
                    continue;
                cur[n - 2] = d, cur[n - 1] = d >> 8;
                if (!send_frame(cur, n, true))
                    return;
            }
}
// addressing: every own address with every address on the line
static void ax_address()
{
    for (int own = 1; own <= 255; own++)
    {
        boot(own);
        for (int id = 0; id < 256; id++)
            for (int k = 0; k < 3; k++)
            {
                if (id == 0 && k)
                    continue; // broadcast writes
                u8 f[16] = {(u8)id, (u8)(k == 0 ? FC_RHR : k == 1 ? FC_WSR : FC_WSC), 0, 1, (u8)(k == 2 ? 0xFF : 0), (u8)(k == 2 ? 0 : 1)};
                if (!send_frame(f, put_crc(f, 6)))
                    return;
            }
    }
}
// initialised again with another address: every pair of addresses, the former one is silent from then on
static void ax_reid()
{
    boot(1);
    u8 f[16];
    auto rq = [&](int id, int k) {
        u8 g[6] = {(u8)id, (u8)(k == 0 ? FC_RHR : k == 1 ? FC_WSR : FC_RC), 0, 0, 0, 1};
        memcpy(f, g, 6);
        return send_frame(f, put_crc(f, 6));
    };
    for (int a = 1; a < 256; a++)
        for (int b = 1; b < 256; b++)
        {
            modbus_slave_init(RTU, 9600, EVEN, ID = a);
            tx_busy = false;
            if (b % 3 == 0 && !rq(a, b % 2))
                return;
            modbus_slave_init(RTU, 9600, EVEN, ID = b);
            tx_busy = false;
            if (!rq(a, b % 3) || !rq(b, a % 3) || (b % 5 == 0 && !rq(a, 1)))
                return;
        }
}
// CRC: every value of the CRC field, and every one- and two-bit error, for one request of every function
static void ax_crc()
{
    boot(10);
    std::vector<std::vector<u8>> rq;
    sample_requests(rq);
    for (auto &r : rq)
    {
        u8 f[300];
        f[0] = ID;
        memcpy(f + 1, r.data(), r.size());
        int n = put_crc(f, 1 + r.size());
        u16 good = f[n - 2] | f[n - 1] << 8;
        if (n < 30)
            for (int c = 0; c < 65536; c++)
            {
                f[n - 2] = c & 0xFF;
                f[n - 1] = c >> 8;
                if (!send_frame(f, n))
                    return;
            }
        f[n - 2] = good & 0xFF;
        f[n - 1] = good >> 8;
        for (int i = 0; i < 8 * n; i++)
        {
            f[i / 8] ^= 1 << (i % 8);
            if (!send_frame(f, n))
                return;
            if (n < 30)
                for (int j = i + 1; j < 8 * n; j++)
                {
                    f[j / 8] ^= 1 << (j % 8);
                    if (!send_frame(f, n))
                        return;
                    f[j / 8] ^= 1 << (j % 8);
                }
            f[i / 8] ^= 1 << (i % 8);
        }
    }
}
// every burst error of up to 16 bits
static void ax_burst()
{
    boot(11);
    u8 f[300] = {(u8)ID, FC_WMR, 0, 1, 0, 2, 4, 0xA5, 0x5A, 0x00, 0xFF};
    if (N[T_HREG] < 3)
        return;
    int n = put_crc(f, 11);
    for (int at = 0; at + 16 <= 8 * n; at++)
        for (u32 p = 1; p < 65536; p += 2)
        {
            u32 x = p << (at % 8);
            for (int k = 0; k < 3; k++)
                if (at / 8 + k < n)
                    f[at / 8 + k] ^= x >> (8 * k);
            if (!send_frame(f, n))
                return;
            for (int k = 0; k < 3; k++)
                if (at / 8 + k < n)
                    f[at / 8 + k] ^= x >> (8 * k);
        }
}
// registration: every subset of the elements of small tables, with every request that fits or nearly fits
static void ax_registration()
{
    boot(12);
    int n = N[0];
    for (int t = 0; t < 4; t++)
        if (N[t] > 8)
            return;
    for (int sub = 0; sub < 1 << n; sub++)
    {
        for (int t = 0; t < 4; t++)
            for (int a = 0; a < N[t]; a++)
                bind(t, a, (sub >> a) & 1);
        for (int fn : {1, 2, 3, 4, 15, 16})
            for (int a = 0; a <= n; a++)
                for (int q = 0; q <= n - a + 1; q++)
                    if (!(fn < 5 ? req6(fn, a, q) : multi(fn, a, q, proper_bc(fn, q))))
                        return;
        for (int a = 0; a <= n; a++)
            if (!req6(5, a, sub & 2 ? 0 : 0xFF00) || !req6(6, a, 0x4321 + sub) || !req6(5, a, 0x1234))
                return;
    }
}
// sequences: every ordered triple of a list of requests of very different sizes
static void ax_triples()
{
    reversed = true;
    boot(13);
    std::vector<std::vector<u8>> rq;
    sample_requests(rq);
    rq.push_back({7});
    rq.push_back({0x2B, 0x0E, 1, 0});
    rq.push_back({3, 0xFF, 0xFF, 0, 1});
    rq.push_back({16, 0, 0, 0, 2, 3, 1, 2, 3});
    rq.push_back({5, 0, 0, 0x12, 0x34});
    for (auto &a : rq)
        for (auto &b : rq)
            for (auto &c : rq)
                for (auto *x : {&a, &b, &c})
                    if (!pdu(x->data(), x->size()))
                    {
                        reversed = false;
                        return;
                    }
    check_everything();
    reversed = false;
}
// requests one after the other that differ in one respect only, and the same request again after one variable changed
static bool request(const RefReq &r)
{
    if (r.qty > fc_max(r.fn) && !fc_read(r.fn))
        return true; // has no frame
    return send_frame(cur, ref_req_frame(r, cur));
}
static void ax_neighbours()
{
    boot(0x21);
    for (u8 fn : {1, 2, 3, 4, 5, 6, 15, 16})
    {
        int t = table_of(fn), n = N[t], mx = fc_max(fn) < n ? fc_max(fn) : n;
        for (int q : {1, 2, 9, 100, 264, 1000, mx})
        {
            if (q > mx || ((fn == 5 || fn == 6) && q != 1) || (q == mx && (mx == 1 || mx == 2 || mx == 9 || mx == 100 || mx == 264 || mx == 1000)))
                continue;
            RefReq b = plain_request(fn, ID, (n - q) / 3, q);
            for (auto &r : neighbours(b, e_all))
                if (!request(b) || !request(r) || !request(b))
                    return;
            for (int i = 0; i < q; i++)
            {
                if (!request(b))
                    return;
                put(t, b.adr + i, t < 2 ? !exp_v[t][b.adr + i] : exp_v[t][b.adr + i] ^ 1 << (i * 7 % 16));
                if (!request(b))
                    return;
                put(t, b.adr + i, t < 2 ? !exp_v[t][b.adr + i] : exp_v[t][b.adr + i] ^ 1 << (i * 3 % 16));
                if (!request(b))
                    return;
            }
        }
    }
    check_everything();
}
// every quantity after every other quantity
static void ax_qty_pairs()
{
    boot(0x21);
    for (u8 fn : {1, 3, 15, 16})
    {
        int t = table_of(fn), mx = (fc_max(fn) < N[t] ? fc_max(fn) : N[t]) + 1;
        for (int q = 1; q <= mx; q++)
            for (int p = 1; p < q; p++)
                if (!request(plain_request(fn, ID, 0, q)) || !request(plain_request(fn, ID, 0, p)))
                    return;
    }
    check_everything();
}
// every sample request with a character error at, or a gap behind, every character, and with the manager called in between
static void ax_errors()
{
    boot(14);
    std::vector<std::vector<u8>> rq;
    sample_requests(rq);
    for (auto &a : rq)
        for (int how = 0; how < 4; how++)
            for (size_t at = 0; at < a.size() + 3; at++)
                for (size_t b = 0; b < rq.size(); b += 1 + at % 3)
                {
                    if (how < 2 || how == 3)
                        (how & 1 ? x_gap : x_fe) = at;
                    if (how == 3)
                        x_fe = a.size() + 2 - at;
                    x_polls = how == 2 ? 1 + at % 3 : at % 2;
                    if (!pdu(a.data(), a.size()))
                        return;
                    if (!pdu(rq[b].data(), rq[b].size()))
                        return;
                }
}
// long phases of every kind
static const int idle_counts[] = {100, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000, 140000};
static void ax_idle()
{
    boot(16);
    for (int n : {255, 256, 300, 65535, 65536, 70000}) // in front of the first request
    {
        boot(16);
        x_idle = n, x_idle_at = 0;
        if (!req6(3, 0, 1))
            return;
    }
    std::vector<std::vector<u8>> rq;
    sample_requests(rq);
    for (int at = 0; at < 5; at++)
        for (int n : idle_counts)
            for (auto &a : rq)
                for (int bad = 0; bad < (at < 4 ? 3 : 1); bad++)
                {
                    cur[0] = ID ^ (bad == 2 ? 0x11 : 0);
                    memcpy(cur + 1, a.data(), a.size());
                    put_crc(cur, 1 + a.size());
                    if (bad == 1)
                        cur[2] ^= 1;
                    x_idle = n, x_idle_at = at;
                    if (!send_frame(cur, a.size() + 3, bad) || !pdu(a.data(), a.size()))
                        return;
                }
    check_everything();
}
// a long life: tens of thousands of requests with everything that can go wrong in between
static void ax_life()
{
    boot(15);
    std::vector<std::vector<u8>> rq;
    sample_requests(rq);
    int n = rq.size();
    for (u32 i = 0; i < 140000; i++)
    {
        auto &a = rq[(i * 7 + i / 23 + i / 1009) % n];
        u32 z = i % 65536 < 300 || i % 1024 < 320 ? i % 8 : i * 11 % 23; // also long series of the same kind
        if (i / 1024 % 16 == 15)
            z = 100 + i / 16384 % 8;
        bool ok = true;
        switch (z)
        {
        case 1:
        case 101:
            x_fe = i % (a.size() + 3);
            ok = pdu(a.data(), a.size());
            break;
        case 2:
        case 102: // damaged
            cur[0] = ID;
            memcpy(cur + 1, a.data(), a.size());
            put_crc(cur, 1 + a.size());
            cur[1 + i % (a.size() + 2)] ^= 1 << i % 8;
            ok = send_frame(cur, a.size() + 3, true);
            break;
        case 3:
        case 103: // for somebody else
            cur[0] = 1 + (ID + i % 246) % 247;
            memcpy(cur + 1, a.data(), a.size());
            ok = send_frame(cur, put_crc(cur, 1 + a.size()), true);
            break;
        case 4:
        case 104:
            x_gap = i % (a.size() + 2);
            ok = pdu(a.data(), a.size());
            break;
        case 5:
        case 105: // cut short
            cur[0] = ID;
            memcpy(cur + 1, a.data(), a.size());
            put_crc(cur, 1 + a.size());
            ok = send_frame(cur, 1 + i % a.size(), true);
            break;
        case 6: // refused
        case 106:
            ok = req6(i & 64 ? 3 : 6, 0xFFFF, 1);
            break;
        case 107:
            ok = req6(7 + i % 8, i, i);
            break;
        default:
            ok = pdu(a.data(), a.size());
        }
        if (!ok)
            return;
        if (z >= 100 && i % 64 == 63 && !pdu(a.data(), a.size()))
            return;
        if (i % 5000 == 4999)
        {
            in_poll = false;
            modbus_slave_init(RTU, 9600, EVEN, ID);
            tx_busy = false;
        }
    }
    check_everything();
}
static const Axis axes[] = {{"read_adr", ax_read_adr}, {"read_qty", ax_read_qty}, {"read_square", ax_read_square}, {"single", ax_single}, {"multi_adr", ax_multi_adr}, {"multi_qty", ax_multi_qty}, {"multi_bc", ax_multi_bc}, {"patterns", ax_patterns}, {"values", ax_values}, {"function", ax_function}, {"short", ax_short}, {"address", ax_address}, {"crc", ax_crc}, {"burst", ax_burst}, {"registration", ax_registration}, {"triples", ax_triples}, {"errors", ax_errors}, {"reid", ax_reid}, {"neighbours", ax_neighbours}, {"idle", ax_idle}, {"qty_pairs", ax_qty_pairs}, {"life", ax_life}};
static void stats(std::string &s)
{
    char b[300];
    snprintf(b, sizeof b, ",\"read_replies\":%llu,\"write_replies\":%llu,\"exceptions\":%llu,\"failures\":%llu,\"silent_frames\":%llu", (unsigned long long)o_cat[R_READ], (unsigned long long)o_cat[R_WRITE], (unsigned long long)o_cat[R_INVALID], (unsigned long long)o_cat[R_FAILURE], (unsigned long long)o_cat[R_SILENT]);
    s += b;
}
int main(int argc, char **argv)
{
    parse_opts(argc, argv);
    static u64 dummy;
    world_ptr = &dummy;
    world_size = sizeof dummy;
    e_describe = describe;
    extra_stats = stats;
    return enum_main(axes, sizeof axes / sizeof axes[0]);
}
