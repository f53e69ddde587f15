// Requests that differ from a given one in one respect only. Whatever is remembered of a request under a part of its
// parameters (or not reset behind it) shows when such requests follow each other.
#pragma once
#include "ref.hpp"
#include <algorithm>
#include <string.h>
#include <vector>
static std::vector<int> neighbour_qty(const RefReq &b, bool all)
{
    std::vector<int> v;
    int mx = fc_max(b.fn);
    for (int q = 0; q <= mx + 1; q++)
    {
        int d = q > b.qty ? q - b.qty : b.qty - q;
        if (all || mx <= 125 || d <= 17 || d % 256 == 0 || (d & (d - 1)) == 0 || q < 3 || q > mx - 2 || q % 256 < 2)
            v.push_back(q);
    }
    for (int q : {b.qty + 256, b.qty + 2048, b.qty + 32768, b.qty ^ 0xFF00, 65535})
        if (q > mx + 1 && q < 65536)
            v.push_back(q);
    return v;
}
static std::vector<RefReq> neighbours(const RefReq &b, bool all_qty)
{
    std::vector<RefReq> v;
    bool single = b.fn == FC_WSC || b.fn == FC_WSR;
    for (int k = 0; k < 16; k++)
    {
        RefReq r = b;
        r.adr ^= 1 << k;
        v.push_back(r);
    }
    for (int k = 0; k < 8; k++)
    {
        RefReq r = b;
        r.id ^= 1 << k;
        if (r.id)
            v.push_back(r);
    }
    for (u8 fn : {1, 2, 3, 4, 5, 6, 15, 16})
        if (fn != b.fn)
        {
            RefReq r = b;
            r.fn = fn;
            if (fn == FC_WSC || fn == FC_WSR)
                r.qty = 1;
            else if (r.qty > fc_max(fn))
                r.qty = fc_max(fn);
            if (fn == FC_WSC)
                r.val &= 1;
            v.push_back(r);
        }
    if (single)
        for (int k = 0; k < (b.fn == FC_WSC ? 1 : 16); k++)
        {
            RefReq r = b;
            r.val ^= 1 << k;
            v.push_back(r);
        }
    else
    {
        for (int q : neighbour_qty(b, all_qty))
            if (q != b.qty)
            {
                RefReq r = b;
                r.qty = q;
                v.push_back(r);
            }
        if (!fc_read(b.fn))
            for (int i = 0; i < b.qty; i++)
            {
                RefReq r = b;
                if (b.fn == FC_WMC)
                    r.bits[i] ^= 1;
                else
                    r.data[i] ^= 1 << (i * 5 % 16);
                v.push_back(r);
            }
    }
    return v;
}
static RefReq plain_request(u8 fn, u8 id, u16 adr, u16 qty)
{
    RefReq r;
    memset(&r, 0, sizeof r);
    r.fn = fn, r.id = id, r.adr = adr, r.qty = qty;
    r.val = fn == FC_WSC ? 1 : 0x5A3C;
    for (int i = 0; i < 128; i++)
        r.data[i] = 0x1357 + i * 0x0B0D;
    for (int i = 0; i < 2000; i++)
        r.bits[i] = i * 5 % 7 < 3;
    return r;
}
