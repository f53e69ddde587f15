// The checksum function against the bit-wise definition: complete in every pair of register value and next byte
// (three bytes), every length up to the limits, and messages that differ only in their last or first byte.
#include "ref.hpp"
#include "enum.hpp"
#include "tsan_rt.hpp"
#include "modbus_crc.h"
#include "modbus_driver_interface.h"
extern "C" {
#include "modbus_master_data_interface.h"
const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return 0; }
const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return 0; }
void modbus_master_coil_read(modbus_device_ID_t, modbus_adr_t, modbus_coil_disin_t) {}
void modbus_master_coil_write(modbus_device_ID_t, modbus_adr_t, modbus_data_qty_t) {}
void modbus_master_coil_exception(const modbus_read_data_t *) {}
void modbus_master_disin_read(modbus_device_ID_t, modbus_adr_t, modbus_coil_disin_t) {}
void modbus_master_disin_exception(const modbus_read_data_t *) {}
void modbus_master_hreg_read(modbus_device_ID_t, modbus_adr_t, modbus_reg_t) {}
void modbus_master_hreg_write(modbus_device_ID_t, modbus_adr_t, modbus_data_qty_t) {}
void modbus_master_hreg_exception(const modbus_read_data_t *) {}
void modbus_master_inreg_read(modbus_device_ID_t, modbus_adr_t, modbus_reg_t) {}
void modbus_master_inreg_exception(const modbus_read_data_t *) {}
void modbus_master_data_timeout_error(const modbus_master_error_report_t *) {}
void modbus_master_communication_error(const modbus_master_error_report_t *) {}
}
static std::vector<u8> msg;
static std::string describe()
{
    std::string s = std::to_string(msg.size()) + " bytes:";
    char b[8];
    for (size_t i = 0; i < msg.size() && i < 40; i++)
        snprintf(b, sizeof b, " %02X", msg[i]), s += b;
    return s + (msg.size() > 40 ? " ..." : "");
}
static bool one()
{
    e_begin();
    size_t n = msg.size();
    u8 spare = 0;
    u8 *p = n ? msg.data() : &spare;
    static std::vector<u8> copy;
    copy = msg;
    u16 want = ref_crc(p, n), got = calculate_CRC(p, n);
    if (got != want)
        viol("CRC", "the checksum is 0x%04X instead of 0x%04X", got, want);
    else if (copy != msg)
        viol("CRC", "computing the checksum changed the message");
    return !e_out();
}
static u32 rng = 1;
static u8 noise() { return (rng = rng * 1664525 + 1013904223) >> 24; }
// all messages of up to three bytes: every value of the register meets every byte
static void ax_three()
{
    msg.clear();
    if (!one())
        return;
    for (int n = 1; n <= 3; n++)
    {
        msg.assign(n, 0);
        for (u32 v = 0; v < 1u << (8 * n); v++)
        {
            for (int i = 0; i < n; i++)
                msg[i] = v >> (8 * i);
            if (!one())
                return;
        }
    }
}
// every length, with six kinds of contents
static void ax_length()
{
    for (int kind = 0; kind < 6; kind++)
        for (int n = 0; n <= 600; n++)
        {
            rng = 77 + n;
            msg.resize(n);
            for (int i = 0; i < n; i++)
                msg[i] = kind == 0 ? 0 : kind == 1 ? 0xFF : kind == 2 ? i : kind == 3 ? 0xFF - 3 * i : noise();
            if (kind == 5 && n >= 2)
                put_crc(msg.data(), n - 2);
            if (!one())
                return;
        }
    for (int n : {1000, 4095, 4096, 32767, 32768, 65534, 65535})
        for (int kind = 0; kind < 3; kind++)
        {
            rng = n;
            msg.resize(n);
            for (int i = 0; i < n; i++)
                msg[i] = kind == 0 ? 0 : kind == 1 ? 0xFF : noise();
            if (!one())
                return;
        }
}
// every value of every byte of messages of every length up to that of the longest frame
static void ax_position()
{
    for (int n = 1; n <= 256; n += n < 20 ? 1 : n < 240 ? 11 : 1)
        for (int i = 0; i < n; i++)
        {
            rng = n;
            msg.resize(n);
            for (auto &b : msg)
                b = noise();
            for (int v = 0; v < 256; v++)
            {
                msg[i] = v;
                if (!one())
                    return;
            }
        }
}
// (thorough) all messages of four bytes
static void ax_four()
{
    msg.assign(4, 0);
    u64 block = (1ull << 32) / e_parts;
    for (u64 v = block * e_part; v < block * (e_part + 1); v++)
    {
        msg[0] = v >> 24, msg[1] = v >> 16, msg[2] = v >> 8, msg[3] = v;
        if (!one())
            return;
    }
}
int main(int argc, char **argv)
{
    parse_opts(argc, argv);
    e_describe = describe;
    Axis a[] = {{"three", ax_three}, {"length", ax_length}, {"position", ax_position}, {"four", ax_four}};
    return enum_main(a, 4);
}
