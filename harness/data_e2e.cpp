// Master and slave of the library on one line: exhaustive enumeration of values, quantities, addresses, station addresses and
// of damage to the frames, with whole exchanges executed by both roles and judged at the level of the two applications.
#include "tsan_rt.hpp"
#include "enum.hpp"
#include "ref_slave.hpp"
#include "neighbours.hpp"
#include "modbus_master.h"
#include "modbus_slave.h"
#include "modbus_driver_interface.h"
extern "C" {
#include "modbus_master_data_interface.h"
extern const int cfg_N, cfg_TO, cfg_R, cfg_coils, cfg_din, cfg_inreg, cfg_hreg;
}
static int ID = 1; // of the slave
// ---- the applications ----
static RefReq Q;
static int N[4];
static modbus_coil_disin_t *bitv[2];
static modbus_reg_t *regv[2];
static u16 *exp_v[4];
static u8 *registered[4];
static u16 actual(int t, int a) { return t < 2 ? bitv[t][a] : regv[t - 2][a]; }
static void put(int t, int a, u16 v)
{
    if (t < 2)
        bitv[t][a] = v;
    else
        regv[t - 2][a] = v;
    exp_v[t][a] = v;
}
static struct
{
    int values, conf, exc, to, comm; // what the master's application was told
    u8 group, fn, id, code;
    u16 adr, qty;
    int err;
    u16 v[2001];
    u8 got[2001];
} seen;
static bool in_mpoll, in_spoll;
static int bad_call;
static void value(int g, u8 id, u16 a, u16 v)
{
    if (!in_mpoll)
        bad_call++;
    seen.values++;
    seen.group = g;
    u16 i = a - Q.adr;
    if (i >= Q.qty || id != Q.id || seen.got[i])
        bad_call++;
    else
        seen.got[i] = 1, seen.v[i] = v;
}
static void conf(int g, u8 id, u16 a, u16 q)
{
    if (!in_mpoll)
        bad_call++;
    seen.conf++;
    seen.group = g, seen.id = id, seen.adr = a, seen.qty = q;
}
static void exc(int g, const modbus_read_data_t *d)
{
    if (!in_mpoll)
        bad_call++;
    seen.exc++;
    seen.group = g, seen.id = d->slave_ID, seen.fn = d->fun_conde, seen.adr = d->data_adr, seen.qty = d->data_qty, seen.code = d->exception_code;
}
static void fail(bool to, const modbus_master_error_report_t *e)
{
    if (!in_mpoll)
        bad_call++;
    (to ? seen.to : seen.comm)++;
    seen.id = e->slave_ID, seen.fn = e->fun_conde, seen.adr = e->data_adr, seen.qty = e->data_qty, seen.err = e->resp_read_error;
}
extern "C" {
void modbus_master_coil_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { value(0, s, a, v); }
void modbus_master_disin_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { value(1, s, a, v); }
void modbus_master_hreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { value(2, s, a, v); }
void modbus_master_inreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { value(3, s, a, v); }
void modbus_master_coil_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { conf(0, s, a, q); }
void modbus_master_hreg_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { conf(2, s, a, q); }
void modbus_master_coil_exception(const modbus_read_data_t *d) { exc(0, d); }
void modbus_master_disin_exception(const modbus_read_data_t *d) { exc(1, d); }
void modbus_master_hreg_exception(const modbus_read_data_t *d) { exc(2, d); }
void modbus_master_inreg_exception(const modbus_read_data_t *d) { exc(3, d); }
void modbus_master_data_timeout_error(const modbus_master_error_report_t *e) { fail(true, e); }
void modbus_master_communication_error(const modbus_master_error_report_t *e) { fail(false, e); }
}
static int group_of(u8 fn) { return fn == FC_RDI ? 1 : fn == FC_RIR ? 3 : fc_bits(fn) ? 0 : 2; }

// ---- the drivers ----
struct Side
{
    driver_subscr_cb_t cb15, cb35, cbtx, cbfe;
    modbus_req_resp_t *rx;
    bool on, busy;
    const u8 *tx;
    int len;
} m, s;
static int bad_send;
static void send(Side &x, const u8 *b, int n, bool ok)
{
    if (!ok || m.busy || s.busy)
        bad_send++;
    x.busy = true;
    x.tx = b;
    x.len = n;
}
#define DRV(x)                                                                                                                                      \
    static void x##_init(baud_t, parity_t) { x.busy = false; }                                                                                      \
    static void x##_send(modbus_buf_t *b, modbus_buf_size_t n) { send(x, b, n, in_##x##poll); }                                                     \
    static void x##_ena(modbus_req_resp_t *p) { x.rx = p, x.on = true; }                                                                            \
    static void x##_dis(void) { x.on = false; }                                                                                                     \
    static void x##15(driver_subscr_cb_t c) { x.cb15 = c; }                                                                                         \
    static void x##tx(driver_subscr_cb_t c) { x.cbtx = c; }                                                                                         \
    static void x##35(driver_subscr_cb_t c) { x.cb35 = c; }                                                                                         \
    static void x##fe(driver_subscr_cb_t c) { x.cbfe = c; }                                                                                         \
    static const modbus_RTU_driver_struct_t x##drv = {x##_init, x##_send, x##_ena, x##_dis, x##15, x##tx, x##35, x##fe};
DRV(m)
DRV(s)
const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return &mdrv; }
const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return &sdrv; }
static void mpoll()
{
    e_calls++;
    in_mpoll = true;
    update_modbus_master_manager();
    in_mpoll = false;
}
static void spoll()
{
    e_calls++;
    in_spoll = true;
    check_modbus_request();
    in_spoll = false;
}
// ---- what happens to a frame on the line ----
struct Fault
{
    int how; // 0 nothing, 1 lost, 2 bit at inverted, 3 only the first at bytes arrive, 4 character error in byte at, 5 bytes at and at+1 inverted, 6 gap behind byte at
    int at;
};
static std::string fault_str(const Fault &f)
{
    static const char *const n[] = {"intact", "lost", "bit inverted: ", "cut to bytes: ", "character error in byte ", "two bytes inverted from ", "gap behind byte "};
    return n[f.how] + (f.how > 1 ? std::to_string(f.at) : std::string());
}
static const char *tn[] = {"coil", "discrete input", "input register", "holding register"};
static std::string plan;
static std::string describe()
{
    char b[200];
    snprintf(b, sizeof b, "slave %d; request: function %u slave %u address %u quantity %u", ID, Q.fn, Q.id, Q.adr, Q.qty);
    std::string r = b;
    if (!fc_read(Q.fn))
    {
        u8 f[300];
        if (Q.qty <= fc_max(Q.fn))
        {
            int n = ref_req_frame(Q, f);
            r += " " + hex(f, n < 30 ? n : 30);
        }
    }
    return r + plan;
}
static u32 order = 0, salt = 1;
static u8 rnd()
{
    salt = salt * 1664525u + 1013904223u;
    return salt >> 24;
}
// what is transmitted by a arrives at b
static void carry(Side &a, Side &b, void (*poll)(), const Fault &f, u8 *x, int &n)
{
    n = a.len;
    memcpy(x, a.tx, n);
    if (f.how == 2)
        x[f.at / 8] ^= 1 << (f.at % 8);
    if (f.how == 5)
        x[f.at] ^= 0xFF, x[f.at + 1] ^= 0xFF;
    if (f.how == 3)
        n = f.at;
    a.busy = false;
    a.cbtx();
    if (order & 1)
        mpoll(), spoll();
    else
        mpoll();
    if (f.how == 1)
        n = 0;
    if (!n)
        return;
    for (int i = 0; i < n; i++)
    {
        if (b.on && b.rx)
            b.rx->data[b.rx->len++] = x[i];
        if (f.how == 4 && f.at == i)
            b.cbfe();
        if (f.how == 6 && f.at == i && i + 1 < n)
        {
            b.cb15();
            poll();
            b.cbfe();
        }
    }
    b.cb15();
    if (order % 3)
        poll();
    b.cb35();
}
static void boot(int id)
{
    static bool alloc = false;
    N[0] = cfg_coils, N[1] = cfg_din, N[2] = cfg_inreg, N[3] = cfg_hreg;
    for (int t = 0; t < 4 && !alloc; t++)
    {
        exp_v[t] = new u16[N[t]];
        registered[t] = new u8[N[t]];
        memset(registered[t], 1, N[t]);
        if (t < 2)
            bitv[t] = new modbus_coil_disin_t[N[t]];
        else
            regv[t - 2] = new modbus_reg_t[N[t]];
    }
    alloc = true;
    for (int t = 0; t < 4; t++)
        for (int a = 0; a < N[t]; a++)
            put(t, a, t < 2 ? ((a * 5 + t) % 7) < 3 : 0x8001 + a * 0x4D3 + t * 0x1111);
    for (int a = 0; a < N[0]; a++)
        register_app_data_to_modbus_slave_coils_table(a, &bitv[0][a]);
    for (int a = 0; a < N[1]; a++)
        register_app_data_to_modbus_slave_din_table(a, &bitv[1][a]);
    for (int a = 0; a < N[2]; a++)
        register_app_data_to_modbus_slave_inreg_table(a, &regv[0][a]);
    for (int a = 0; a < N[3]; a++)
        register_app_data_to_modbus_slave_hreg_table(a, &regv[1][a]);
    ID = id;
    salt = 1;
    order = 0;
    plan = "";
    in_mpoll = in_spoll = false;
    m.busy = s.busy = false;
    if (id & 1)
        modbus_slave_init(RTU, 9600, EVEN, ID);
    modbus_master_init(RTU, 9600, EVEN);
    if (!(id & 1))
        modbus_slave_init(RTU, 9600, EVEN, ID);
}
static void check_data(int from, int to, int tab)
{
    for (int t = 0; t < 4 && !g_viol_kind; t++)
        for (int a = t == tab || tab < 0 ? from : N[t]; a < (to < N[t] ? to : N[t]); a++)
            if (actual(t, a) != exp_v[t][a])
            {
                viol("DATA", "%s: %s %d of the slave is %u, expected %u", describe().c_str(), tn[t], a, actual(t, a), exp_v[t][a]);
                break;
            }
}
static modbus_reg_t app_regs[128];
static modbus_coil_disin_t app_bits[2001];
static int call()
{
    switch (Q.fn)
    {
    case FC_RC:
        return modbus_master_read_coils(Q.adr, Q.qty, Q.id);
    case FC_RDI:
        return modbus_master_read_discrete_inputs(Q.adr, Q.qty, Q.id);
    case FC_RHR:
        return modbus_master_read_holding_reg(Q.adr, Q.qty, Q.id);
    case FC_RIR:
        return modbus_master_read_input_reg(Q.adr, Q.qty, Q.id);
    case FC_WSC:
        return modbus_master_write_single_coil(Q.adr, Q.id, Q.val);
    case FC_WSR:
        return modbus_master_write_single_reg(Q.adr, Q.id, Q.val);
    case FC_WMR:
        memcpy(app_regs, Q.data, sizeof app_regs);
        return modbus_master_write_multiple_reg(Q.adr, Q.qty, Q.id, app_regs);
    default:
        for (int i = 0; i < 2000; i++)
            app_bits[i] = Q.bits[i];
        return modbus_master_write_multiple_coils(Q.adr, Q.qty, Q.id, app_bits);
    }
}
// one request from the call to its outcome; fq[i], fr[i]: what happens to the i-th transmission and to the answer to it
static void exchange_(const Fault *fq, const Fault *fr, int nf)
{
    static const Fault none = {0, 0};
    memset(&seen, 0, sizeof seen);
    bad_call = bad_send = 0;
    order++;
    bool valid = Q.qty >= 1 && Q.qty <= fc_max(Q.fn);
    int ret = call();
    memset(app_regs, 0x5A, sizeof app_regs);
    memset(app_bits, 0, sizeof app_bits);
    if ((ret == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE) != valid)
    {
        viol("QUEUE", "%s: the request was answered with %d", describe().c_str(), ret);
        return;
    }
    if (!valid)
    {
        mpoll(), mpoll(), mpoll(), spoll();
        if (m.busy || s.busy || seen.values + seen.conf + seen.exc + seen.to + seen.comm)
            viol("OUTCOME", "%s: a refused request had an effect", describe().c_str());
        return;
    }
    u8 f[300], x[300];
    int n = ref_req_frame(Q, f), xn;
    int want = 0; // 1 success, 2 exception, 3 timeout, 4 communication error
    u16 w[2001];
    u8 code = 0;
    int lo = 0, hi = 0, tab = fc_table(Q.fn);
    bool wrote = false;
    for (int att = 0; !want && !g_viol_kind; att++)
    {
        for (int i = 0; i < 4 && !m.busy; i++)
            mpoll();
        if (!m.busy || m.len != n || memcmp(m.tx, f, n))
        {
            viol(att ? "RETRY" : "SEND", "%s: transmission %d is %s, expected %s", describe().c_str(), att, m.busy ? hex(m.tx, m.len).c_str() : "missing", hex(f, n).c_str());
            return;
        }
        const Fault &a = att < nf ? fq[att] : none, &b = att < nf ? fr[att] : none;
        carry(m, s, spoll, a, x, xn);
        // the slave
        SModel md;
        SResult r;
        for (int t = 0; t < 4; t++)
            md.n[t] = N[t], md.v[t] = exp_v[t], md.reg[t] = registered[t];
        bool heard = xn && a.how != 4 && !(a.how == 6 && a.at + 1 < xn);
        r.cat = R_SILENT;
        if (heard)
            ref_slave(md, ID, x, xn, r);
        for (int i = 0; i < 4 && !s.busy; i++)
            spoll();
        if (s.busy != (r.cat != R_SILENT) || (s.busy && (s.len != r.len || memcmp(s.tx, r.f, r.len))))
        {
            viol("REPLY", "%s: the slave answers %s, expected %s", describe().c_str(), s.busy ? hex(s.tx, s.len).c_str() : "nothing", r.cat == R_SILENT ? "nothing" : hex(r.f, r.len).c_str());
            return;
        }
        if (r.cat == R_WRITE)
            wrote = true, lo = r.from, hi = r.from + r.cnt;
        int c = CL_FOREIGN;
        if (s.busy)
        {
            carry(s, m, mpoll, b, x, xn);
            c = !xn ? CL_FOREIGN : ref_classify(Q, x, xn);
            if (c != CL_FOREIGN && (b.how == 4 || (b.how == 6 && b.at + 1 < xn)))
                c = CL_BAD;
        }
        if (c == CL_GOOD)
        {
            want = 1;
            for (int i = 0; fc_read(Q.fn) && i < Q.qty; i++)
                w[i] = exp_v[tab][Q.adr + i];
        }
        else if (c == CL_EXC)
            want = 2, code = x[2];
        else if (c == CL_BAD && att == cfg_R)
            want = 4;
        else if (c == CL_FOREIGN)
        {
            want = 3;
            for (int i = 0; i < 3; i++)
                mpoll();
            int told = seen.values + seen.conf + seen.exc + seen.to + seen.comm;
            if ((told && cfg_TO > 1) || m.busy)
                viol("OUTCOME", "%s: the master reports something or transmits without an answer", describe().c_str());
            for (int t = 0; t < cfg_TO; t++)
            {
                update_modbus_master_timout_timer();
                if (t < cfg_TO - 2)
                {
                    mpoll();
                    if (seen.to)
                        viol("OUTCOME", "%s: timeout after %d of %d ticks", describe().c_str(), t + 1, cfg_TO);
                }
            }
        }
        if (want)
            for (int i = 0; i < 4; i++)
                mpoll(), spoll();
    }
    if (g_viol_kind)
        return;
    int total = (seen.values ? 1 : 0) + seen.conf + seen.exc + seen.to + seen.comm;
    int is = total != 1 ? 0 : seen.values || seen.conf ? 1 : seen.exc ? 2 : seen.to ? 3 : 4;
    static const char *const wn[] = {"one outcome", "success", "an exception", "a timeout", "a communication error"};
    if (is != want)
    {
        viol("OUTCOME", "%s: expected %s; reported: %d values, %d confirmations, %d exceptions, %d timeouts, %d communication errors", describe().c_str(), wn[want], seen.values, seen.conf, seen.exc, seen.to, seen.comm);
        return;
    }
    if (bad_call || bad_send || m.busy || s.busy)
    {
        viol("VALUE", "%s: %s", describe().c_str(), bad_call ? "a callback with wrong arguments, twice for an element, or outside of the manager" : "a transmission at the wrong time");
        return;
    }
    bool ok = seen.group == (want < 3 ? group_of(Q.fn) : 0);
    if (want == 1 && fc_read(Q.fn))
    {
        ok = ok && seen.values == Q.qty;
        for (int i = 0; i < Q.qty && ok; i++)
            if (seen.v[i] != w[i])
            {
                viol("VALUE", "%s: %u was delivered for address %u, the slave had %u", describe().c_str(), seen.v[i], Q.adr + i, w[i]);
                return;
            }
    }
    else
        ok = ok && seen.id == Q.id && seen.adr == Q.adr && seen.qty == Q.qty && (want < 2 || seen.fn == Q.fn) && (want != 2 || seen.code == code);
    if (!ok)
        viol("VALUE", "%s: what was reported does not fit (group %d, slave %u, function %u, address %u, quantity %u, code %u)", describe().c_str(), seen.group, seen.id, seen.fn, seen.adr, seen.qty, seen.code);
    if (wrote)
        check_data(lo < 9 ? 0 : lo - 9, hi + 9, tab);
    int tot = N[0] + N[1] + N[2] + N[3];
    if (e_axis_cases % (tot < 64 ? 1 : tot / 8) == 0)
        check_data(0, 65536, -1);
}
static bool exchange(const Fault *fq = 0, const Fault *fr = 0, int nf = 0)
{
    if (!e_mine())
        return !e_out();
    if (nf)
    {
        plan = "; ";
        for (int i = 0; i < nf && i < 3; i++)
            plan += "request " + fault_str(fq[i]) + ", answer " + fault_str(fr[i]) + "; ";
    }
    else
        plan = "";
    e_begin();
    if (e_out() && !(e_stop_at && e_axis_cases == e_stop_at))
        return false;
    exchange_(fq, fr, nf);
    if (e_soft())
    {
        lib_load(lib_pristine);
        boot(ID);
    }
    return !e_out();
}
static void rq(u8 fn, int adr, int qty, int val = 0)
{
    Q.fn = fn;
    Q.id = ID;
    Q.adr = adr;
    Q.qty = fn == FC_WSC || fn == FC_WSR ? 1 : qty;
    Q.val = val;
}
static void random_data()
{
    for (int i = 0; i < 128; i++)
        Q.data[i] = rnd() * 256 + rnd();
    for (int i = 0; i < 2000; i++)
        Q.bits[i] = rnd() >> 7;
}
// every register value, every pattern of coils
static void ax_values()
{
    boot(5);
    int nh = N[T_HREG], ni = N[T_INREG], nc = N[T_COIL], nd = N[T_DIN];
    for (int v = 0; v < 65536; v++)
    {
        rq(FC_WSR, v % nh, 1, v);
        if (!exchange())
            return;
        int q = nh - v % nh < 3 ? nh - v % nh : 3;
        rq(FC_RHR, v % nh, q);
        if (!exchange())
            return;
        q = 1 + v % (nh < 123 ? nh : 123);
        rq(FC_WMR, (v * 7) % (nh - q + 1), q);
        for (int i = 0; i < q; i++)
            Q.data[i] = i == v / 3 % q ? v : ~v;
        if (!exchange())
            return;
        put(T_INREG, v % ni, v);
        q = ni - v % ni < 5 ? ni - v % ni : 5;
        rq(FC_RIR, v % ni, q);
        if (!exchange())
            return;
    }
    for (int q = 1; q <= 11 && q <= nc; q++)
        for (int p = 0; p < 1 << q; p++)
        {
            int a = p % (nc - q + 1);
            rq(FC_WMC, a, q);
            memset(Q.bits, 1, sizeof Q.bits);
            for (int i = 0; i < q; i++)
                Q.bits[i] = (p >> i) & 1;
            if (!exchange())
                return;
            rq(FC_RC, a, q);
            if (!exchange())
                return;
            rq(FC_WSC, a + p % q, 1, p & 1);
            if (!exchange())
                return;
            if (q <= nd)
            {
                a = p % (nd - q + 1);
                for (int i = 0; i < q; i++)
                    put(T_DIN, a + i, (p >> i) & 1);
                rq(FC_RDI, a, q);
                if (!exchange())
                    return;
            }
        }
}
// every quantity of every function at the beginning, at the end of and behind the table
static void ax_qty()
{
    boot(6);
    for (u8 fn : {1, 2, 3, 4, 15, 16})
    {
        int n = N[fc_table(fn)];
        for (int q = 0; q < 65536; q++)
        {
            if (q > 2100 && q % 256 > 2)
                continue;
            for (int a : {0, n - q, n - q + 1, n})
                if (a >= 0 && (!fc_read(fn) || q > fc_max(fn) || a + q <= 65536))
                {
                    rq(fn, a, q);
                    random_data();
                    if (!exchange())
                        return;
                }
        }
    }
}
static void ax_adr()
{
    boot(7);
    for (u8 fn : {1, 2, 3, 4, 5, 6, 15, 16})
        for (int q : {1, 2, 9, 123})
            for (int a = 0; a < 65536; a++)
            {
                if (((fn == 5 || fn == 6) && q != 1) || a + q > 65536 || (q == 123 && a > 300 && a % 64))
                    continue;
                rq(fn, a, q, a & 1 ? 0xFF00 + a : 0);
                random_data();
                if (!exchange())
                    return;
            }
}
// every pair of the slave's own address and the one asked for
static void ax_id()
{
    for (int own = 1; own < 256; own++)
    {
        boot(own);
        for (int id = 1; id < 256; id++)
        {
            rq(id % 3 == 0 ? FC_WSR : id % 3 == 1 ? FC_RHR : FC_WSC, id % N[T_HREG] % N[T_COIL], 1, id);
            Q.id = id;
            if (!exchange())
                return;
        }
        rq(FC_WSR, 0, 1, own * 257);
        if (!exchange())
            return;
    }
}
static void sample(int k)
{
    static const u8 fns[] = {1, 2, 3, 4, 5, 6, 15, 16};
    u8 fn = fns[k % 8];
    int n = N[fc_table(fn)], mx = fc_max(fn) < n ? fc_max(fn) : n;
    switch (k / 8)
    {
    case 0:
        rq(fn, 0, 1, 1);
        break;
    case 1:
        rq(fn, n > 3 ? 1 : 0, n > 3 ? 3 : 1, 0x5AA5);
        break;
    case 2:
        rq(fn, n - mx, mx, 0);
        break;
    case 3: // beyond the table
        rq(fn, n, 2, 1);
        break;
    }
    random_data();
}
static int sample_len(bool answer)
{
    u8 f[300];
    int n = ref_req_frame(Q, f);
    if (!answer)
        return n;
    if (Q.adr + Q.qty > N[fc_table(Q.fn)])
        return 5;
    return !fc_read(Q.fn) ? 8 : 5 + (fc_bits(Q.fn) ? (Q.qty + 7) / 8 : 2 * Q.qty);
}
// every single bit, every place to break off, every character error, in the request or in the answer, once or for ever
static void ax_damage()
{
    boot(8);
    for (int k = 0; k < 32; k++)
        for (int dir = 0; dir < 2; dir++)
            for (int how = 1; how <= 6; how++)
            {
                sample(k);
                int n = sample_len(dir), cnt = how == 1 ? 1 : how == 2 ? 8 * n : how == 5 ? n - 1 : n;
                for (int at = how == 3 ? 1 : 0; at < cnt; at++)
                    for (int reps : {1, cfg_R, cfg_R + 1})
                    {
                        sample(k);
                        Fault none[8] = {}, f[8] = {};
                        for (int i = 0; i < reps && i < 8; i++)
                            f[i].how = how, f[i].at = at;
                        if (!(dir ? exchange(none, f, 8) : exchange(f, none, 8)))
                            return;
                    }
            }
}
// pairs: something happens to the request and something else to the answers
static void ax_mixed()
{
    boot(9);
    static const Fault L[] = {{0, 0}, {1, 0}, {2, 0}, {2, 9}, {2, 17}, {2, 38}, {3, 1}, {3, 4}, {4, 0}, {4, 2}, {5, 2}, {6, 1}};
    const int n = sizeof L / sizeof L[0];
    for (int k = 0; k < 32; k++)
        for (int a = 0; a < n; a++)
            for (int b = 0; b < n; b++)
                for (int c = 0; c < n; c++)
                    for (int d = 0; d < n; d++)
                    {
                        sample(k);
                        Fault q[8] = {L[0], L[b], L[d]}, r[8] = {L[a], L[c], L[0]};
                        if (!exchange(q, r, 8))
                            return;
                    }
}
// exchanges one after the other that differ in one respect only, and the same again after one variable of the slave changed
static bool exchange_of(const RefReq &r)
{
    if (fc_read(r.fn) && r.adr + r.qty > 65536 && r.qty <= fc_max(r.fn))
        return true;
    Q = r;
    return exchange();
}
static void ax_neighbours()
{
    boot(0x21);
    for (u8 fn : {1, 2, 3, 4, 5, 6, 15, 16})
    {
        int t = fc_table(fn), n = N[t], mx = fc_max(fn) < n ? fc_max(fn) : n;
        for (int q : {1, 2, 9, 100, 264, 1000, mx})
        {
            if (q > mx || ((fn == 5 || fn == 6) && q != 1) || (q == mx && (mx == 1 || mx == 2 || mx == 9 || mx == 100 || mx == 264 || mx == 1000)))
                continue;
            RefReq b = plain_request(fn, ID, (n - q) / 3, q);
            for (auto &r : neighbours(b, e_all))
                if (!exchange_of(b) || !exchange_of(r) || !exchange_of(b))
                    return;
            for (int i = 0; i < q; i++)
            {
                if (!exchange_of(b))
                    return;
                put(t, b.adr + i, t < 2 ? !exp_v[t][b.adr + i] : exp_v[t][b.adr + i] ^ 1 << (i * 7 % 16));
                if (!exchange_of(b))
                    return;
            }
        }
    }
}
// a long life of many kinds of exchanges
static void ax_life()
{
    boot(10);
    u32 x = 0;
    for (int i = 0; i < 150000; i++)
    {
        sample((i * 5 + i / 31) % 32);
        x = x * 69069 + 1;
        Fault q[8] = {}, r[8] = {};
        int z = (x >> 20) % 16;
        if (z < 6)
            (z & 1 ? q : r)[0] = Fault{1 + (int)(x >> 10) % 6, (int)(x >> 5) % 5};
        if (z < 2)
            r[1] = Fault{2, 20};
        if (i % 4 == 0)
            put(T_DIN, i / 4 % N[T_DIN], i >> 3 & 1), put(T_INREG, i % N[T_INREG], i * 31);
        if (!exchange(q, r, 8))
            return;
    }
}
static const Axis axes[] = {{"values", ax_values}, {"qty", ax_qty}, {"adr", ax_adr}, {"id", ax_id}, {"damage", ax_damage}, {"mixed", ax_mixed}, {"neighbours", ax_neighbours}, {"life", ax_life}};
int main(int argc, char **argv)
{
    parse_opts(argc, argv);
    static u64 dummy;
    world_ptr = &dummy;
    world_size = sizeof dummy;
    e_describe = describe;
    return enum_main(axes, sizeof axes / sizeof axes[0]);
}
