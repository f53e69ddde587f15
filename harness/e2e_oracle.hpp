// What the applications of a master and a slave that are connected to each other may observe: requests, data, outcomes.
// Included after the definition of the world.
// ---- requests ----
struct Rq
{
    u8 fn, id;
    u16 adr, qty;
    u16 v[TAB];
    const char *name;
};
static const Rq RQ[] = {
    {FC_RHR, SID, 0, 4, {}, "read registers 0-3"},
    {FC_WMR, SID, 1, 2, {0xFF01, 0x80FE}, "write registers 1-2"},
    {FC_WSR, SID, 1, 1, {0x1234}, "write register 1"},
    {FC_RC, SID, 0, 4, {}, "read coils 0-3"},
    {FC_WMC, SID, 1, 3, {1, 0, 1}, "write coils 1-3"},
    {FC_WSC, SID, 2, 1, {1}, "switch coil 2 on"},
    {FC_WSC, SID, 2, 1, {0}, "switch coil 2 off"},
    {FC_RDI, SID, 1, 3, {}, "read discrete inputs 1-3"},
    {FC_RIR, SID, 2, 2, {}, "read input registers 2-3"},
    {FC_RHR, SID, 3, 2, {}, "read registers 3-4 (beyond the table)"},
    {FC_WSR, SID, 4, 1, {7}, "write register 4 (beyond the table)"},
    {FC_WSR, SID + 1, 1, 1, {0x5555}, "write register 1 of another slave"},
    {FC_WMR, SID, 1, 2, {0x0102, 0xFF01}, "write other values to registers 1-2"},
    {FC_WMR, SID, 0, 3, {0xFFFF, 0x0000, 0x8000}, "write extreme values to registers 0-2"},
    {FC_WSR, SID, 3, 1, {0xFFFF}, "write 65535 to register 3"},
};
#define NRQ (int)(sizeof RQ / sizeof RQ[0])
static int menu[NRQ], n_menu;
static bool beyond(const Rq &r) { return r.adr + r.qty > TAB; }
static int call(const Rq &r)
{
    modbus_coil_disin_t b[TAB];
    modbus_reg_t g[TAB];
    for (int i = 0; i < TAB; i++)
        b[i] = r.v[i], g[i] = r.v[i];
    switch (r.fn)
    {
    case FC_RC:
        return modbus_master_read_coils(r.adr, r.qty, r.id);
    case FC_RDI:
        return modbus_master_read_discrete_inputs(r.adr, r.qty, r.id);
    case FC_RHR:
        return modbus_master_read_holding_reg(r.adr, r.qty, r.id);
    case FC_RIR:
        return modbus_master_read_input_reg(r.adr, r.qty, r.id);
    case FC_WSC:
        return modbus_master_write_single_coil(r.adr, r.id, r.v[0]);
    case FC_WSR:
        return modbus_master_write_single_reg(r.adr, r.id, r.v[0]);
    case FC_WMR:
        return modbus_master_write_multiple_reg(r.adr, r.qty, r.id, g);
    case FC_WMC:
        return modbus_master_write_multiple_coils(r.adr, r.qty, r.id, b);
    }
    return -1;
}
static u16 slave_val(const Rq &r, int i)
{
    switch (r.fn)
    {
    case FC_RC:
    case FC_WSC:
    case FC_WMC:
        return w.c[r.adr + i];
    case FC_RDI:
        return w.d[r.adr + i];
    case FC_RIR:
        return w.ir[r.adr + i];
    }
    return w.hr[r.adr + i];
}
static bool is_write(const Rq &r) { return !fc_read(r.fn); }
static bool is_coil(const Rq &r) { return r.fn == FC_WSC || r.fn == FC_WMC; }
static bool has_effect() { return w.np && w.exec && is_write(RQ[w.pend[0]]) && RQ[w.pend[0]].id == SID && !beyond(RQ[w.pend[0]]); }
static bool written()
{ // the requested values are in the slave
    const Rq &r = RQ[w.pend[0]];
    for (int i = 0; i < r.qty; i++)
        if (slave_val(r, i) != r.v[i])
            return false;
    return true;
}
static void data_check(const char *what)
{
    for (int i = 0; i < TAB; i++)
        if (w.d[i] != w.ed[i] || w.ir[i] != w.eir[i])
            viol("DATA", "%s: the slave's input %d changed", what, i);
    bool before = true, after = has_effect();
    for (int i = 0; i < TAB; i++)
    {
        u16 c = w.ec[i], h = w.ehr[i];
        if (w.c[i] != c || w.hr[i] != h)
            before = false;
        if (after)
        {
            const Rq &r = RQ[w.pend[0]];
            if (i >= r.adr && i < r.adr + r.qty)
                (is_coil(r) ? c : h) = r.v[i - r.adr];
            if (w.c[i] != c || w.hr[i] != h)
                after = false;
        }
    }
    if (!before && !after)
        viol("DATA", "%s: the data of the slave are neither those before nor those after the request of the master", what);
}
// the slave's data are as the request being processed left them
static void settle_data()
{
    for (int i = 0; i < TAB; i++)
        w.ec[i] = w.c[i], w.ehr[i] = w.hr[i];
}

// ---- transmissions ----
static bool line_busy();
static bool started_by_master()
{
    o_send++;
    if (!w.np || !w.mpoll)
    {
        viol("SEND", "the master transmits without a request, or outside of its manager");
        return false;
    }
    if (line_busy())
        viol("SEND", "the master transmits while the line is in use");
    if (w.hs && !w.resp_fault && !w.soft)
        viol("RETRY", "the request was repeated although its answer was not damaged");
    if (w.hs && w.attempts > cfg_R)
        viol("RETRY", "the request was repeated more than %d times", cfg_R);
    w.hs = 1;
    w.attempts++;
    w.soft = w.req_ok = w.answered = w.resp_fault = w.req_fault = w.ticks = 0;
    return true;
}
static bool started_by_slave()
{
    o_reply++;
    if (!w.spoll || !w.req_ok || w.answered || !w.np)
    {
        viol("REPLY", "the slave transmits although no intact request waits for an answer");
        return false;
    }
    if (line_busy())
        viol("REPLY", "the slave transmits while the line is in use");
    const Rq &r = RQ[w.pend[0]];
    w.answered = 1;
    if (!beyond(r))
        for (int i = 0; i < r.qty; i++)
            w.snap[i] = slave_val(r, i);
    return true;
}

// ---- the master's application ----
static void conclude()
{
    settle_data();
    w.np--;
    memmove(w.pend, w.pend + 1, MAXP - 1);
    w.pend[MAXP - 1] = 0;
    w.soft = w.hs = w.attempts = w.req_ok = w.exec = w.answered = w.resp_fault = w.req_fault = w.ticks = w.out = w.dmask = 0;
    memset(w.snap, 0, sizeof w.snap);
}
static bool context(const char *what)
{
    point();
    if (!w.mpoll || in_isr || !w.np || w.hs != 2)
    {
        viol("OUTCOME", "%s although no transmitted request waits for its outcome", what);
        return false;
    }
    return true;
}
static bool success(const char *what)
{
    if (!context(what))
        return false;
    if (!w.answered || w.resp_fault || beyond(RQ[w.pend[0]]))
    {
        viol("OUTCOME", "%s although no intact answer has arrived", what);
        return false;
    }
    return true;
}
static void got(u8 fn, u8 id, u16 adr, u16 v)
{
    o_deliver++;
    LOG("      delivered: slave %u address %u value %u\n", id, adr, v);
    if (!success("a value was delivered"))
        return;
    const Rq &r = RQ[w.pend[0]];
    u16 i = adr - r.adr;
    if (fn != r.fn || id != r.id || i >= r.qty || (w.dmask >> i & 1))
        viol("VALUE", "a value of function %u, slave %u, address %u was delivered for: %s", fn, id, adr, r.name);
    else if (v != w.snap[i])
        viol("VALUE", "%u was delivered for address %u, the slave had %u", v, adr, w.snap[i]);
    w.out = 1;
    w.dmask |= 1 << i;
    if (w.dmask == (1 << r.qty) - 1)
        conclude();
}
static void confirmed(bool coil, u8 id, u16 adr, u16 qty)
{
    o_conf++;
    LOG("      confirmed: slave %u address %u quantity %u\n", id, adr, qty);
    if (!success("a write was confirmed"))
        return;
    const Rq &r = RQ[w.pend[0]];
    if (!is_write(r) || coil != is_coil(r) || id != r.id || adr != r.adr || qty != r.qty)
        viol("VALUE", "slave %u address %u quantity %u was confirmed for: %s", id, adr, qty, r.name);
    else if (!written())
        viol("VALUE", "confirmed, but the slave does not have the values: %s", r.name);
    conclude();
}
static void exception(int grp, const modbus_read_data_t *d)
{
    o_exc++;
    LOG("      exception %u\n", d->exception_code);
    if (!context("an exception was reported"))
        return;
    const Rq &r = RQ[w.pend[0]];
    int g = r.fn == FC_RDI ? 1 : r.fn == FC_RIR ? 3
                             : fc_bits(r.fn)   ? 0
                                               : 2;
    if (!w.answered || w.resp_fault || !beyond(r))
        viol("OUTCOME", "exception %u was reported for: %s", d->exception_code, r.name);
    else if (g != grp || d->exception_code != 2 || d->slave_ID != r.id || d->fun_conde != r.fn || d->data_adr != r.adr || d->data_qty != r.qty)
        viol("VALUE", "the wrong exception was reported for: %s", r.name);
    conclude();
}
static void failed(bool timeout, const modbus_master_error_report_t *e)
{
    (timeout ? o_to : o_comm)++;
    LOG("      %s\n", timeout ? "timeout" : "communication error");
    if (!context("a failure was reported"))
        return;
    const Rq &r = RQ[w.pend[0]];
    if (e->slave_ID != r.id || e->fun_conde != r.fn || e->data_adr != r.adr || e->data_qty != r.qty)
        viol("VALUE", "the wrong request was reported to have failed: %s", r.name);
    if (timeout && !w.req_fault && !w.resp_fault && r.id == SID)
        viol("OUTCOME", "timeout although the line was undisturbed: %s", r.name);
    if (!timeout && w.resp_fault != 1 && !w.soft)
        viol("OUTCOME", "communication error although no answer was damaged: %s", r.name);
    if (!timeout && w.attempts != cfg_R + 1)
        viol("RETRY", "communication error after %d transmissions", w.attempts);
    if (timeout && w.ticks + 1 < cfg_TO)
        viol("OUTCOME", "timeout after %d of %d ticks", w.ticks, cfg_TO);
    conclude();
}
extern "C" {
void modbus_master_coil_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { got(FC_RC, s, a, v); }
void modbus_master_disin_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { got(FC_RDI, s, a, v); }
void modbus_master_hreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { got(FC_RHR, s, a, v); }
void modbus_master_inreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { got(FC_RIR, s, a, v); }
void modbus_master_coil_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { confirmed(true, s, a, q); }
void modbus_master_hreg_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { confirmed(false, s, a, q); }
void modbus_master_coil_exception(const modbus_read_data_t *d) { exception(0, d); }
void modbus_master_disin_exception(const modbus_read_data_t *d) { exception(1, d); }
void modbus_master_hreg_exception(const modbus_read_data_t *d) { exception(2, d); }
void modbus_master_inreg_exception(const modbus_read_data_t *d) { exception(3, d); }
void modbus_master_data_timeout_error(const modbus_master_error_report_t *e) { failed(true, e); }
void modbus_master_communication_error(const modbus_master_error_report_t *e) { failed(false, e); }
}

static void request(int k)
{
    w.incall = 1;
    inj_active = true;
    int r = call(RQ[k]);
    inj_active = false;
    w.incall = 0;
    LOG("      -> %d\n", r);
    if ((r == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE) != (w.np < cfg_N))
        viol("QUEUE", "the request was answered with %d while %d of %d were outstanding", r, w.np, cfg_N);
    else if (w.np < cfg_N)
        w.pend[w.np++] = k;
}
static void app_flip()
{ // the slave's application changes its inputs
    for (int i = 0; i < TAB; i++)
        w.d[i] = w.ed[i] = (!w.d[i]), w.ir[i] = w.eir[i] = w.ir[i] ^ 0x8001;
    w.flips ^= 1;
}
static void data_init()
{
    for (int i = 0; i < TAB; i++)
    {
        w.c[i] = w.ec[i] = (i & 1);
        w.d[i] = w.ed[i] = (i != 2);
        w.ir[i] = w.eir[i] = 0x0100 * i + 0xFF;
        w.hr[i] = w.ehr[i] = 0xFEDC - 0x0F1F * i;
        register_app_data_to_modbus_slave_coils_table(i, &w.c[i]);
        register_app_data_to_modbus_slave_din_table(i, &w.d[i]);
        register_app_data_to_modbus_slave_inreg_table(i, &w.ir[i]);
        register_app_data_to_modbus_slave_hreg_table(i, &w.hr[i]);
    }
}
static void stats(std::string &s)
{
    char b[400];
    snprintf(b, sizeof b, ",\"sends\":%llu,\"replies\":%llu,\"values_delivered\":%llu,\"confirmations\":%llu,\"exceptions\":%llu,\"timeouts\":%llu,\"communication_errors\":%llu,\"faults\":%llu", (unsigned long long)o_send, (unsigned long long)o_reply, (unsigned long long)o_deliver, (unsigned long long)o_conf, (unsigned long long)o_exc, (unsigned long long)o_to, (unsigned long long)o_comm, (unsigned long long)o_fault);
    s += b;
}
static void list(const char *k, const char *d, int *out, int &n, int max)
{
    std::string s = opts.gets(k, d);
    n = 0;
    for (const char *p = s.c_str(); *p && n < max;)
    {
        char *e;
        out[n++] = strtol(p, &e, 10);
        p = *e ? e + 1 : e;
    }
}
