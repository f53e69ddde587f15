// Reference definitions written from the Modbus specification, independent of the library's code:
// CRC by the bit-wise definition, frames, and what a response to a request may be.
#pragma once
#include "core.hpp"

static u16 ref_crc(const u8 *p, size_t n)
{
    u16 c = 0xFFFF;
    for (size_t i = 0; i < n; i++)
    {
        c ^= p[i];
        for (int b = 0; b < 8; b++)
            c = (c & 1) ? (u16)((c >> 1) ^ 0xA001) : (u16)(c >> 1);
    }
    return c;
}
static int put_crc(u8 *p, int n)
{
    u16 c = ref_crc(p, n);
    p[n] = c & 0xFF;
    p[n + 1] = c >> 8;
    return n + 2;
}
static inline void be16(u8 *p, u16 v)
{
    p[0] = v >> 8;
    p[1] = v & 0xFF;
}
static inline u16 rd16(const u8 *p) { return (u16)(p[0] * 256u + p[1]); }

enum
{
    FC_RC = 1,
    FC_RDI = 2,
    FC_RHR = 3,
    FC_RIR = 4,
    FC_WSC = 5,
    FC_WSR = 6,
    FC_WMC = 15,
    FC_WMR = 16
};
static bool fc_known(u8 f) { return (f >= 1 && f <= 6) || f == 15 || f == 16; }
static bool fc_read(u8 f) { return f >= 1 && f <= 4; }
static bool fc_bits(u8 f) { return f == 1 || f == 2 || f == 5 || f == 15; }
static int fc_max(u8 f)
{
    switch (f)
    {
    case 1:
    case 2:
        return 2000;
    case 3:
    case 4:
        return 125;
    case 15:
        return 1968;
    case 16:
        return 123;
    }
    return 1;
}

struct RefReq
{
    u8 fn, id;
    u16 adr, qty; // qty 1 for single writes
    u16 val;      // single write: value (coil 0/1)
    u16 data[128];
    u8 bits[2000];
};
// the request frame with CRC; returns its length
static int ref_req_frame(const RefReq &r, u8 *f)
{
    f[0] = r.id;
    f[1] = r.fn;
    be16(f + 2, r.adr);
    if (fc_read(r.fn))
    {
        be16(f + 4, r.qty);
        return put_crc(f, 6);
    }
    if (r.fn == FC_WSC)
    {
        be16(f + 4, r.val ? 0xFF00 : 0);
        return put_crc(f, 6);
    }
    if (r.fn == FC_WSR)
    {
        be16(f + 4, r.val);
        return put_crc(f, 6);
    }
    be16(f + 4, r.qty);
    if (r.fn == FC_WMR)
    {
        f[6] = 2 * r.qty;
        for (int i = 0; i < r.qty; i++)
            be16(f + 7 + 2 * i, r.data[i]);
        return put_crc(f, 7 + 2 * r.qty);
    }
    int n = (r.qty + 7) / 8;
    f[6] = n;
    memset(f + 7, 0, n);
    for (int i = 0; i < r.qty; i++)
        if (r.bits[i])
            f[7 + i / 8] |= 1 << (i % 8);
    return put_crc(f, 7 + n);
}
// a good response; values: registers or bits
static int ref_good_resp(const RefReq &r, const u16 *vals, u8 *f)
{
    f[0] = r.id;
    f[1] = r.fn;
    if (fc_read(r.fn))
    {
        if (fc_bits(r.fn))
        {
            int n = (r.qty + 7) / 8;
            f[2] = n;
            memset(f + 3, 0, n);
            for (int i = 0; i < r.qty; i++)
                if (vals[i])
                    f[3 + i / 8] |= 1 << (i % 8);
            return put_crc(f, 3 + n);
        }
        f[2] = 2 * r.qty;
        for (int i = 0; i < r.qty; i++)
            be16(f + 3 + 2 * i, vals[i]);
        return put_crc(f, 3 + 2 * r.qty);
    }
    u8 q[300];
    ref_req_frame(r, q);
    memcpy(f, q, 6);
    return put_crc(f, 6);
}
enum
{
    CL_FOREIGN, // other address
    CL_BAD,     // own address, damaged or not an answer to the request
    CL_GOOD,
    CL_EXC
};
static int ref_classify(const RefReq &r, const u8 *f, int n)
{
    if (n < 1)
        return CL_BAD;
    if (f[0] != r.id)
        return CL_FOREIGN;
    if (n < 4 || ref_crc(f, n) != 0)
        return CL_BAD;
    if (f[1] == (r.fn | 0x80))
        return n == 5 ? CL_EXC : CL_BAD;
    if (f[1] != r.fn)
        return CL_BAD;
    if (fc_read(r.fn))
    {
        int bc = fc_bits(r.fn) ? (r.qty + 7) / 8 : 2 * r.qty;
        return f[2] == bc && n == 5 + bc ? CL_GOOD : CL_BAD;
    }
    u8 q[300];
    ref_req_frame(r, q);
    return n == 8 && !memcmp(f + 2, q + 2, 4) ? CL_GOOD : CL_BAD;
}
static u16 resp_val(const RefReq &r, const u8 *f, int i)
{
    if (fc_bits(r.fn))
        return (f[3 + i / 8] >> (i % 8)) & 1;
    return rd16(f + 3 + 2 * i);
}
static std::string hex(const u8 *p, int n)
{
    std::string s;
    char b[8];
    for (int i = 0; i < n; i++)
    {
        snprintf(b, sizeof b, "%02X%s", p[i], i + 1 < n ? " " : "");
        s += b;
    }
    return s;
}
