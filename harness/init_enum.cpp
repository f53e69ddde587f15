// Initialisation of both roles for all settings: each role's own driver gets exactly the settings asked for, all
// callbacks are subscribed, the slave receives into an empty buffer, nothing is transmitted and nothing is reported.
#include "ref.hpp"
#include "enum.hpp"
#include "tsan_rt.hpp"
#include "modbus_driver_interface.h"
#include "modbus_master.h"
#include "modbus_slave.h"
extern "C" {
#include "modbus_master_data_interface.h"
}
struct Drv
{
    int inits, sends, rx, early, cb[4], other;
    u32 baud;
    int parity;
    driver_subscr_cb_t f[4];
    modbus_req_resp_t *buf;
    int len;
};
static Drv dr[2];
static int reports;
#define DRIVER(n)                                                                                                            \
    static void init##n(baud_t b, parity_t p)                                                                                \
    {                                                                                                                        \
        dr[n].inits++;                                                                                                       \
        dr[n].baud = b;                                                                                                      \
        dr[n].parity = p;                                                                                                    \
    }                                                                                                                        \
    static void send##n(modbus_buf_t *, modbus_buf_size_t) { dr[n].sends++; }                                                \
    static void rx##n(modbus_req_resp_t *r)                                                                                  \
    {                                                                                                                        \
        dr[n].rx++;                                                                                                          \
        dr[n].early |= !dr[n].inits;                                                                                         \
        dr[n].buf = r;                                                                                                       \
        dr[n].len = r ? (int)r->len : -1;                                                                                    \
    }                                                                                                                        \
    static void off##n() { dr[n].other++; }                                                                                  \
    static void s15##n(driver_subscr_cb_t f) { dr[n].cb[0]++, dr[n].f[0] = f; }                                              \
    static void stx##n(driver_subscr_cb_t f) { dr[n].cb[1]++, dr[n].f[1] = f; }                                              \
    static void s35##n(driver_subscr_cb_t f) { dr[n].cb[2]++, dr[n].f[2] = f; }                                              \
    static void sfe##n(driver_subscr_cb_t f) { dr[n].cb[3]++, dr[n].f[3] = f; }                                              \
    static const modbus_RTU_driver_struct_t drv##n = {init##n, send##n, rx##n, off##n, s15##n, stx##n, s35##n, sfe##n};
DRIVER(0)
DRIVER(1)
extern "C" {
const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return &drv0; }
const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return &drv1; }
void modbus_master_coil_read(modbus_device_ID_t, modbus_adr_t, modbus_coil_disin_t) { reports++; }
void modbus_master_coil_write(modbus_device_ID_t, modbus_adr_t, modbus_data_qty_t) { reports++; }
void modbus_master_coil_exception(const modbus_read_data_t *) { reports++; }
void modbus_master_disin_read(modbus_device_ID_t, modbus_adr_t, modbus_coil_disin_t) { reports++; }
void modbus_master_disin_exception(const modbus_read_data_t *) { reports++; }
void modbus_master_hreg_read(modbus_device_ID_t, modbus_adr_t, modbus_reg_t) { reports++; }
void modbus_master_hreg_write(modbus_device_ID_t, modbus_adr_t, modbus_data_qty_t) { reports++; }
void modbus_master_hreg_exception(const modbus_read_data_t *) { reports++; }
void modbus_master_inreg_read(modbus_device_ID_t, modbus_adr_t, modbus_reg_t) { reports++; }
void modbus_master_inreg_exception(const modbus_read_data_t *) { reports++; }
void modbus_master_data_timeout_error(const modbus_master_error_report_t *) { reports++; }
void modbus_master_communication_error(const modbus_master_error_report_t *) { reports++; }
}
static u32 baud;
static int parity, id, role, idle_calls;
static const char *const PN[] = {"none", "odd", "even"}, *const RN[] = {"master", "slave"}, *const CN[] = {"1.5 character", "transmission complete", "3.5 character", "frame error"};
static std::string describe()
{
    return std::string(RN[role & 1]) + ", " + std::to_string(baud) + " baud, parity " + PN[parity % 3] + (role ? ", slave address " + std::to_string(id) : "");
}
static bool one()
{
    e_begin();
    Drv before = dr[!role];
    memset(&dr[role], 0, sizeof dr[role]);
    reports = 0;
    if (role)
        modbus_slave_init(RTU, baud, (parity_t)parity, id);
    else
        modbus_master_init(RTU, baud, (parity_t)parity);
    Drv &d = dr[role];
    if (memcmp(&before, &dr[!role], sizeof before))
        viol("INIT", "initialising the %s used the driver of the %s", RN[role], RN[!role]);
    if (d.inits != 1)
        viol("INIT", "the driver of the %s was initialised %d times", RN[role], d.inits);
    if (d.baud != baud)
        viol("INIT", "the driver of the %s was given %u baud", RN[role], d.baud);
    if (d.parity != parity)
        viol("INIT", "the driver of the %s was given parity %d", RN[role], d.parity);
    for (int i = 0; i < 4; i++)
    {
        if (!d.cb[i] || !d.f[i])
            viol("INIT", "the %s did not subscribe the %s callback", RN[role], CN[i]);
        for (int k = 0; k < 4; k++)
        {
            if (k < i && d.f[i] == d.f[k])
                viol("INIT", "the %s subscribed one function for the %s and the %s callback", RN[role], CN[i], CN[k]);
            if (d.f[i] && d.f[i] == before.f[k])
                viol("INIT", "both roles subscribed the same function");
        }
    }
    if (role && (!d.rx || !d.buf || !d.buf->data || d.len || d.buf->len))
        viol("INIT", "the slave does not receive into an empty buffer after initialisation");
    if (d.early)
        viol("INIT", "reception was enabled before the driver of the %s was initialised", RN[role]);
    for (int i = 0; i < idle_calls; i++)
    {
        role ? check_modbus_request() : update_modbus_master_manager();
        if (!role)
            update_modbus_master_timout_timer();
    }
    if (d.sends || reports)
        viol("INIT", "the %s %s without cause after initialisation", RN[role], reports ? "reports something" : "transmits");
    return !e_out();
}
static std::vector<u32> bauds()
{
    std::vector<u32> v;
    for (int i = 0; i < 32; i++)
        for (u32 k : {0u, 1u, 0xFFFFFFFFu})
            v.push_back((1u << i) + k);
    for (u32 b : {300, 600, 1200, 2400, 4800, 9600, 14400, 19200, 28800, 38400, 56000, 57600, 115200, 128000, 230400, 256000, 460800, 921600, 1000000, 2000000, 3000000})
        v.push_back(b);
    return v;
}
// both orders of initialisation, from the start and again
static void ax_pairs()
{
    for (u32 b : bauds())
        for (u32 b2 : {9600u, b ^ 0xFFFF, b})
            for (int p = 0; p < 9; p++)
                for (int order = 0; order < 2; order++)
                    for (int again = 0; again < 2; again++)
                    {
                        if (!again)
                        {
                            lib_load(lib_pristine);
                            memset(dr, 0, sizeof dr);
                        }
                        for (int k = 0; k < 2; k++)
                        {
                            role = k ^ order;
                            baud = role ? b2 : b;
                            parity = role ? p / 3 : p % 3;
                            id = 1 + b % 247;
                            idle_calls = again ? 3 : 0;
                            if (!one())
                                return;
                        }
                    }
}
static void ax_baud()
{
    idle_calls = 2;
    for (role = 0; role < 2; role++)
        for (parity = 0; parity < 3; parity++)
            for (baud = 0; baud < 300000; baud++)
            {
                id = 1 + baud % 247;
                if (!one())
                    return;
            }
}
static void ax_id()
{
    role = 1;
    idle_calls = 4;
    for (parity = 0; parity < 3; parity++)
        for (id = 0; id < 256; id++)
            for (u32 b : bauds())
            {
                baud = b;
                if (!one())
                    return;
            }
}
// initialised for a mode that there is no driver for: requests are refused, nothing happens, and RTU can be chosen afterwards
static modbus_coil_disin_t bits[16];
static modbus_reg_t regs[16];
static int request(int k)
{
    switch (k)
    {
    case 0:
        return modbus_master_read_coils(1, 9, 5);
    case 1:
        return modbus_master_read_discrete_inputs(2, 3, 5);
    case 2:
        return modbus_master_read_input_reg(3, 2, 5);
    case 3:
        return modbus_master_read_holding_reg(4, 4, 5);
    case 4:
        return modbus_master_write_single_coil(5, 5, 1);
    case 5:
        return modbus_master_write_single_reg(6, 5, 77);
    case 6:
        return modbus_master_write_multiple_reg(7, 3, 5, regs);
    default:
        return modbus_master_write_multiple_coils(8, 10, 5, bits);
    }
}
extern const int cfg_N;
static bool no_mode()
{
    e_begin();
    Drv before[2] = {dr[0], dr[1]};
    reports = 0;
    if (role)
        modbus_slave_init(UNKNOWN_MODE, baud, (parity_t)parity, id);
    else
        modbus_master_init(UNKNOWN_MODE, baud, (parity_t)parity);
    if (role && memcmp(before, dr, sizeof dr))
        viol("INIT", "the slave uses its driver although it was initialised for another mode");
    if (!role && (before[1].inits != dr[1].inits || before[1].rx != dr[1].rx || before[1].sends != dr[1].sends))
        viol("INIT", "initialising the master used the driver of the slave");
    for (int i = 0; i < idle_calls; i++)
        role ? check_modbus_request() : update_modbus_master_manager();
    for (int n = 0; n < 3 * !role; n++)
        for (int k = 0; k < 8; k++)
        {
            if (!request((k + n) % 8) && !g_viol_kind)
                viol("INIT", "a request (kind %d) was accepted although the master was initialised for an unknown mode", k);
            update_modbus_master_manager();
            update_modbus_master_timout_timer();
        }
    if (reports || dr[0].sends != before[0].sends || dr[1].sends != before[1].sends)
        viol("INIT", "the %s %s although it was initialised for an unknown mode", RN[role], reports ? "reports something" : "transmits");
    return !e_out();
}
// after an initialisation for RTU there is room for exactly the number of requests configured, and the oldest is transmitted
static bool usable()
{
    for (int k = 0; k < cfg_N && !g_viol_kind; k++)
        if (request(k % 8))
            viol("INIT", "only %d of %d requests could be made after initialisation", k, cfg_N);
    if (!request(0) && !g_viol_kind)
        viol("INIT", "more requests than configured (%d) were accepted", cfg_N);
    int s = dr[0].sends;
    update_modbus_master_manager();
    update_modbus_master_manager();
    if (!g_viol_kind && dr[0].sends != s + 1)
        viol("INIT", "%d transmissions were started after initialisation and a request", dr[0].sends - s);
    return !e_out();
}
static void ax_mode()
{
    for (int seq = 0; seq < 4 * 4 * 4 * 4; seq++)
        for (int p = 0; p < 3; p++)
            for (int use = 0; use < 3; use++)
                for (u32 b : {9600u, 115200u})
                {
                    lib_load(lib_pristine);
                    memset(dr, 0, sizeof dr);
                    for (int i = 0, x = seq; i < 4; i++, x /= 4)
                    {
                        role = x & 1;
                        baud = b + i;
                        parity = p;
                        id = 1 + i;
                        idle_calls = use;
                        if (!(x & 2 ? no_mode() : one()))
                            return;
                        if (!role && !(x & 2) && use && !usable())
                            return;
                    }
                }
}
int main(int argc, char **argv)
{
    parse_opts(argc, argv);
    e_describe = describe;
    Axis a[] = {{"pairs", ax_pairs}, {"baud", ax_baud}, {"id", ax_id}, {"mode", ax_mode}};
    return enum_main(a, 4);
}
