// What a Modbus RTU slave has to do with a received frame, written from the protocol specification.
#pragma once
#include "ref.hpp"
enum
{
    T_COIL,
    T_DIN,
    T_INREG,
    T_HREG
};
struct SModel
{
    int n[4];    // table sizes
    u16 *v[4];   // values
    u8 *reg[4];  // 1: registered
};
enum
{
    R_SILENT,  // not for this slave, damaged or incomplete: no reply, no change
    R_READ,
    R_WRITE,
    R_INVALID, // exception 1, 2 or 3: no change
    R_FAILURE  // exception 4: an element is not registered
};
struct SResult
{
    int cat;
    int len; // of the reply
    u8 f[264];
    // elements the request may have changed (R_WRITE: has to be equal to the model afterwards; R_FAILURE: elements in front of
    // the unregistered one may have been written)
    int tab, from, cnt;
};
static int fc_table(u8 fn)
{
    switch (fn)
    {
    case FC_RC:
    case FC_WSC:
    case FC_WMC:
        return T_COIL;
    case FC_RDI:
        return T_DIN;
    case FC_RIR:
        return T_INREG;
    }
    return T_HREG;
}
static void s_exc(SResult &r, u8 id, u8 fn, u8 code)
{
    r.cat = code == 4 ? R_FAILURE : R_INVALID;
    r.f[0] = id;
    r.f[1] = fn | 0x80;
    r.f[2] = code;
    r.len = put_crc(r.f, 3);
}
// The model is updated by a valid write.
static void ref_slave(SModel &m, u8 id, const u8 *f, int len, SResult &r)
{
    r.cat = R_SILENT;
    r.len = 0;
    r.cnt = 0;
    r.tab = r.from = 0;
    if (len < 4 || f[0] != id || ref_crc(f, len) != 0)
        return;
    u8 fn = f[1];
    if (!fc_known(fn))
    {
        s_exc(r, id, fn, 1);
        return;
    }
    bool multi = fn == FC_WMC || fn == FC_WMR;
    if (len < (multi ? 9 : 8) || (multi && len < 9 + f[6]))
        return;
    int adr = rd16(f + 2), x = rd16(f + 4), t = fc_table(fn);
    r.tab = t;
    r.from = adr;
    if (fn == FC_WSC || fn == FC_WSR)
    {
        if (fn == FC_WSC && x != 0 && x != 0xFF00)
            s_exc(r, id, fn, 3);
        else if (adr >= m.n[t])
            s_exc(r, id, fn, 2);
        else if (!m.reg[t][adr])
            s_exc(r, id, fn, 4);
        else
        {
            m.v[t][adr] = fn == FC_WSC ? x != 0 : x;
            r.cat = R_WRITE;
            r.cnt = 1;
            memcpy(r.f, f, 6);
            r.len = put_crc(r.f, 6);
        }
        return;
    }
    if (x == 0 || x > fc_max(fn))
    {
        s_exc(r, id, fn, 3);
        return;
    }
    if (adr + x > m.n[t])
    {
        s_exc(r, id, fn, 2);
        return;
    }
    int bc = fc_bits(fn) ? (x + 7) / 8 : 2 * x;
    if (multi && f[6] != bc)
    {
        s_exc(r, id, fn, 3);
        return;
    }
    for (int i = 0; i < x; i++)
        if (!m.reg[t][adr + i])
        {
            s_exc(r, id, fn, 4);
            r.cnt = multi ? i : 0;
            return;
        }
    r.f[0] = id;
    r.f[1] = fn;
    if (!multi)
    {
        r.cat = R_READ;
        r.f[2] = bc;
        memset(r.f + 3, 0, bc);
        for (int i = 0; i < x; i++)
            if (fc_bits(fn))
            {
                if (m.v[t][adr + i])
                    r.f[3 + i / 8] |= 1 << (i % 8);
            }
            else
                be16(r.f + 3 + 2 * i, m.v[t][adr + i]);
        r.len = put_crc(r.f, 3 + bc);
        return;
    }
    r.cat = R_WRITE;
    r.cnt = x;
    for (int i = 0; i < x; i++)
        m.v[t][adr + i] = fn == FC_WMC ? (f[7 + i / 8] >> (i % 8)) & 1 : rd16(f + 7 + 2 * i);
    memcpy(r.f, f, 6);
    r.len = put_crc(r.f, 6);
}
