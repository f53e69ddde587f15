// Exhaustive enumeration of requests of a master and of responses to them.
#define MAXP 256 // this engine keeps no states, the queue may be long
#include "tsan_rt.hpp"
#include "enum.hpp"
#include "master_env.hpp"
#include "neighbours.hpp"
const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return &md_driver; }

static u8 fr[300]; // the response under test
static int frn;
static std::string cur_resp;
static std::string describe()
{
    const RefReq &r = RQ[0];
    return rq_str(0) + (fc_read(r.fn) ? "" : " value=" + std::to_string(fc_bits(r.fn) ? r.val : r.fn == FC_WSR ? r.val : r.data[0])) + cur_resp;
}
static u32 salt = 1, order = 0;
static void boot()
{
    salt = 1;
    order = 0;
    memset(&mw, 0, sizeof mw);
    memset(m_dmask, 0, sizeof m_dmask);
    rq_init();
    n_req_menu = 1;
    req_menu[0] = 0;
    frames_init();
    opt_hostile = opt_stray = 0;
    opt_fe = 1;
    cur_resp = "";
    m_init();
}
// the case ended in a violation that does not concern the property: start afresh
static bool soft(bool go_on)
{
    if (!e_soft())
        return go_on;
    lib_load(lib_pristine);
    memset(&mw, 0, sizeof mw);
    memset(m_dmask, 0, sizeof m_dmask);
    m_init();
    return !e_out();
}
static u8 rnd()
{
    salt = salt * 1664525u + 1013904223u;
    return salt >> 24;
}
static void request_is(u8 fn, u8 id, u16 adr, u16 qty, u16 val = 0)
{
    RefReq &r = RQ[0];
    r.fn = fn;
    r.id = id;
    r.adr = adr;
    r.qty = fn == FC_WSC || fn == FC_WSR ? 1 : qty;
    r.val = val;
    rq_invalid[0] = !(fn == FC_WSC || fn == FC_WSR) && (qty == 0 || qty > fc_max(fn));
    cur_resp = "";
}
static void polls(int n)
{
    for (int i = 0; i < n && !g_viol_kind; i++)
    {
        e_calls++;
        m_poll();
    }
}
// the request is made and transmitted
static bool transmit(bool accept = true)
{
    e_calls++;
    if (accept)
        m_app(0);
    for (int i = 0; i < 8 && !mw.tx_busy && !g_viol_kind; i++)
        polls(1);
    if (!g_viol_kind && !mw.tx_busy)
        viol("NO_PROGRESS", "%s: the request was not transmitted", describe().c_str());
    if (g_viol_kind)
        return false;
    me_txdone();
    polls(2);
    return !g_viol_kind;
}
static bool respond(int slot, const u8 *f, int n)
{
    memcpy(fr_bytes[slot][0], f, n);
    fr_len[slot][0] = n;
    if (!me_frame(slot, 0))
    {
        viol("NO_PROGRESS", "%s: the environment could not answer", describe().c_str());
        return false;
    }
    u32 o = order++ % 4;
    me_t15();
    if (o)
        polls(o == 3 ? READY : 1);
    me_t35();
    for (int i = 0; i < READY + 1 && mw.np && !mw.tx_busy && !g_viol_kind; i++)
        polls(1);
    return !g_viol_kind;
}
static u8 good[300];
static int goodn;
static u16 gv[2000];
static void make_good(int pattern)
{
    const RefReq &r = RQ[0];
    for (int i = 0; i < r.qty && i < 2000; i++)
        gv[i] = fc_bits(r.fn) ? rnd() >> 7 : pattern == 1 ? (u16)(i * 0x0101) : (u16)(rnd() * 256 + rnd());
    goodn = ref_good_resp(r, gv, good);
}
static bool concluded()
{
    if (!g_viol_kind && mw.np)
        viol(ignored("NO_PROGRESS"), "%s: a complete, intact response was not delivered", describe().c_str());
    return !g_viol_kind && !e_out();
}
static bool begin()
{
    if (!e_mine())
        return false;
    e_begin();
    return !e_out() || (e_stop_at && e_axis_cases == e_stop_at);
}
// the request is answered well (or, if its quantity is invalid, refused without any effect)
static bool good_exchange_()
{
    if (!begin())
        return !e_out();
    if (rq_invalid[0])
    {
        m_app(0);
        polls(3);
        if (!g_viol_kind && mw.tx_busy)
            viol("SEND_NO_REQ", "%s: a refused request was transmitted", describe().c_str());
        return !e_out();
    }
    make_good(0);
    if (!transmit() || !respond(F_GOOD, good, goodn))
        return false;
    return concluded();
}
static bool good_exchange() { return soft(good_exchange_()); }
// the response fr/frn comes first, and if that does not conclude the request, a good one
static bool response_case_()
{
    if (!begin())
        return !e_out();
    int c = ref_classify(RQ[0], fr, frn);
    cur_resp = ", response " + hex(fr, frn < 24 ? frn : 24) + (frn > 24 ? " ... (" + std::to_string(frn) + " bytes)" : "");
    if (!transmit())
        return false;
    if (!respond(F_GOOD, fr, frn))
        return false;
    if (c == CL_GOOD || c == CL_EXC || (c == CL_BAD && !cfg_R))
        return concluded();
    if (!mw.np && !g_viol_kind)
        viol("DELIVER_UNJUSTIFIED", "%s: the request was concluded", describe().c_str());
    if (g_viol_kind)
        return false;
    make_good(1);
    if (c == CL_BAD)
    {
        if (!transmit(false))
            return false;
    }
    else if (mw.tx_busy)
    {
        viol("RETX_SPURIOUS", "%s: the request was repeated because of traffic of another slave", describe().c_str());
        return false;
    }
    if (!respond(F_GOOD2, good, goodn))
        return false;
    return concluded();
}
static bool response_case() { return soft(response_case_()); }
static const u8 all_fn[8] = {1, 2, 3, 4, 5, 6, 15, 16};
static std::vector<int> interesting_qty(u8 fn)
{
    int mx = fc_max(fn);
    std::vector<int> v = {0, 1, 2, 7, 8, 9, 16, 17, 64, 100, 123, 124, 125, 126, 127, 128, 129, 255, 256, 257, 1967, 1968, 1969, 1999, 2000, 2001, 32768, 65535, mx - 1, mx, mx + 1}, r;
    for (int x : v)
        if (std::find(r.begin(), r.end(), x) == r.end())
            r.push_back(x);
    return r;
}
static void ax_adr()
{
    boot();
    for (u8 fn : all_fn)
        for (int q : interesting_qty(fn))
        {
            bool single = fn == FC_WSC || fn == FC_WSR;
            if (single && q != 1)
                continue;
            int step = q <= 17 ? 1 : q > fc_max(fn) || q == 0 ? 37 : 251;
            for (int a = 0; a < 65536; a += step)
            {
                if (!fc_read(fn) || a + q <= 65536)
                {
                    request_is(fn, 5, a, q, a & 1);
                    if (!good_exchange())
                        return;
                }
            }
        }
    for (u8 fn : all_fn) // the end of the address space
        for (int q = 1; q <= (int)fc_max(fn); q++)
            for (int a : {65536 - q, 65535 - q, 32768 - q, 256 - q})
            {
                if (a < 0)
                    continue;
                request_is(fn, 5, a, q, a & 1);
                if (!good_exchange())
                    return;
                if (fn == FC_WSC || fn == FC_WSR)
                    q = 65535;
            }
}
static void ax_qty()
{
    boot();
    for (u8 fn : {1, 2, 3, 4, 15, 16})
        for (int a : {0, 1, 0x1234, 0x8000})
            for (int q = 0; q < 65536; q++)
            {
                if (a > 1 && q > 2100 && (q & 0xFF) > 1)
                    continue;
                request_is(fn, 9, a, q);
                if (!good_exchange())
                    return;
            }
}
static void ax_id()
{
    boot();
    for (u8 fn : all_fn)
        for (int id = 1; id < 256; id++)
            for (int q : {1, 3, 9})
            {
                request_is(fn, id, 7, q, 1);
                if (!good_exchange())
                    return;
                make_good(1);
                for (int other = 0; other < 256; other++)
                { // the response of every other address
                    if (q != 3)
                        break;
                    memcpy(fr, good, goodn);
                    fr[0] = other;
                    frn = put_crc(fr, goodn - 2);
                    if (!response_case())
                        return;
                }
            }
}
static void ax_write_values()
{
    boot();
    for (int v = 0; v < 65536; v++)
    {
        request_is(FC_WSR, 3, v ^ 0x55, 1, v);
        if (!good_exchange())
            return;
        request_is(FC_WSC, 3, v, 1, v & 1);
        if (!good_exchange())
            return;
    }
    for (int v = 0; v < 65536; v++)
    {
        int q = 1 + v % 123;
        request_is(FC_WMR, 3, v, q);
        for (int i = 0; i < 128; i++)
            RQ[0].data[i] = i == v % q ? v : ~v;
        if (!good_exchange())
            return;
    }
    for (int q = 1; q <= 11; q++)
        for (int p = 0; p < 1 << q; p++)
        {
            request_is(FC_WMC, 3, p, q);
            memset(RQ[0].bits, 1, sizeof RQ[0].bits); // elements behind the last one must not be transmitted
            for (int i = 0; i < q; i++)
                RQ[0].bits[i] = (p >> i) & 1;
            if (!good_exchange())
                return;
        }
    for (int inv = 0; inv < 2; inv++)
        for (int q = 1; q <= 1968; q += (q < 40 ? 1 : 241))
            for (int b = 0; b < q; b++)
            {
                request_is(FC_WMC, 3, b, q);
                for (int i = 0; i < 2000; i++)
                    RQ[0].bits[i] = i < q ? (i == b) ^ inv : 1;
                if (!good_exchange())
                    return;
            }
}
static void ax_read_values()
{
    boot();
    for (u8 fn : {FC_RHR, FC_RIR})
        for (int v = 0; v < 65536; v++)
        {
            int q = 1 + v % 125;
            request_is(fn, 3, v % 60000, q);
            for (int i = 0; i < q; i++)
                gv[i] = i == v / 125 % q ? v : ~v;
            frn = ref_good_resp(RQ[0], gv, fr);
            if (!response_case())
                return;
        }
    for (u8 fn : {FC_RC, FC_RDI})
    {
        for (int q = 1; q <= 11; q++)
            for (int p = 0; p < 1 << q; p++)
            {
                request_is(fn, 3, p, q);
                for (int i = 0; i < q; i++)
                    gv[i] = (p >> i) & 1;
                frn = ref_good_resp(RQ[0], gv, fr);
                if (!response_case())
                    return;
                if (q % 8)
                { // unused bits of the last byte carry no information
                    fr[frn - 3] |= 0xFF << (q % 8);
                    frn = put_crc(fr, frn - 2);
                    if (!response_case())
                        return;
                }
            }
        for (int inv = 0; inv < 2; inv++)
            for (int q : {8, 15, 16, 17, 24, 250, 1000, 1993, 2000})
                for (int b = 0; b < q; b++)
                {
                    request_is(fn, 3, b, q);
                    for (int i = 0; i < q; i++)
                        gv[i] = (i == b) ^ inv;
                    frn = ref_good_resp(RQ[0], gv, fr);
                    if (!response_case())
                        return;
                }
    }
}
static void sample_request(u8 fn, int k)
{
    static const int bq[4] = {1, 8, 19, 1968}, rq[4] = {1, 2, 19, 123};
    request_is(fn, 0x21, 0x0102 + 0x1111 * k, fc_bits(fn) ? bq[k] : rq[k], k == 1 ? 0 : 1 + 0x5A5A * k);
}
static void ax_exception()
{
    boot();
    for (u8 fn : all_fn)
        for (int k = 0; k < 4; k++)
            for (int code = 0; code < 256; code++)
            {
                sample_request(fn, k);
                fr[0] = RQ[0].id;
                fr[1] = fn | 0x80;
                fr[2] = code;
                frn = put_crc(fr, 3);
                if (!response_case())
                    return;
                for (int l = 1; l < 3; l++)
                { // too short, too long
                    fr[3] = 0;
                    frn = l == 1 ? put_crc(fr, 2) : put_crc(fr, 4);
                    if (code < 12 && !response_case())
                        return;
                    fr[2] = code;
                }
            }
}
// every function code in the response to every request
static void ax_resp_fn()
{
    boot();
    for (u8 fn : all_fn)
        for (int k = 0; k < 4; k++)
            for (int f2 = 0; f2 < 256; f2++)
                for (int exc = 0; exc < 2; exc++)
                {
                    sample_request(fn, k);
                    make_good(1);
                    memcpy(fr, good, goodn);
                    fr[1] = f2;
                    frn = put_crc(fr, exc ? 3 : goodn - 2);
                    if (exc && f2 == fn)
                        continue; // see ax_resp_len
                    if (!response_case())
                        return;
                }
}
// every length of a response, with a CRC that fits, behind a longer one
static void ax_resp_len()
{
    boot();
    for (u8 fn : all_fn)
        for (int k = 0; k < 4; k++)
            for (int l = 1; l <= 253; l++)
            {
                sample_request(fn, k);
                make_good(1);
                memcpy(fr, good, goodn);
                for (int i = goodn - 2; i < l; i++)
                    fr[i] = rnd();
                frn = put_crc(fr, l);
                if (l == 1)
                    fr[1] ^= 1; // its address alone has a CRC of its own
                if (!response_case())
                    return;
                if (l < goodn)
                { // the end is missing
                    memcpy(fr, good, goodn);
                    frn = l;
                    if (!response_case())
                        return;
                }
            }
}
// every byte count with every length near to what it says or what was asked for
static void ax_resp_bc()
{
    boot();
    for (u8 fn : {1, 2, 3, 4})
        for (int k = 0; k < 4; k++)
            for (int bc = 0; bc < 256; bc++)
                for (int v = 0; v < 7; v++)
                {
                    sample_request(fn, k);
                    make_good(1);
                    memcpy(fr, good, goodn);
                    for (int i = goodn - 2; i < 300; i++)
                        fr[i] = rnd();
                    fr[2] = bc;
                    int want = goodn - 5;
                    int d = v < 3 ? bc - 1 + v : v < 6 ? want + v - 4 : bc & want;
                    if (d < 0 || d > 250)
                        continue;
                    frn = put_crc(fr, 3 + d);
                    if (!response_case())
                        return;
                }
}
// what a write response echoes
static void ax_resp_echo()
{
    boot();
    for (u8 fn : {5, 6, 15, 16})
        for (int which = 0; which < 2; which++)
            for (int x = 0; x < 65536; x++)
            {
                sample_request(fn, 1 + (x & 1));
                make_good(1);
                memcpy(fr, good, goodn);
                be16(fr + 2 + 2 * which, x);
                frn = put_crc(fr, goodn - 2);
                if (!response_case())
                    return;
            }
}
static void ax_crc()
{
    boot();
    for (u8 fn : all_fn)
        for (int k = 0; k < 4; k++)
        {
            sample_request(fn, k);
            u32 s0 = salt;
            make_good(1);
            static u8 base[300];
            int n = goodn;
            memcpy(base, good, n);
            (void)s0;
            if (k == 1)
                for (int c = 0; c < 65536; c++)
                {
                    memcpy(fr, base, n);
                    fr[n - 2] = c & 0xFF;
                    fr[n - 1] = c >> 8;
                    frn = n;
                    if (!response_case())
                        return;
                }
            for (int i = 0; i < 8 * n; i++)
            {
                memcpy(fr, base, n);
                fr[i / 8] ^= 1 << (i % 8);
                frn = n;
                if (!response_case())
                    return;
                if (n < 12)
                    for (int j = i + 1; j < 8 * n; j++)
                    {
                        memcpy(fr, base, n);
                        fr[i / 8] ^= 1 << (i % 8);
                        fr[j / 8] ^= 1 << (j % 8);
                        if (!response_case())
                            return;
                    }
            }
        }
}
static void ax_burst()
{
    boot();
    request_is(FC_RHR, 0x21, 0x0102, 2);
    make_good(0);
    static u8 base[300];
    int n = goodn;
    memcpy(base, good, n);
    for (int at = 0; at + 16 <= 8 * n; at++)
        for (u32 p = 1; p < 65536; p += 2)
        {
            memcpy(fr, base, n);
            u32 x = p << (at % 8);
            for (int k = 0; k < 3; k++)
                if (at / 8 + k < n)
                    fr[at / 8 + k] ^= x >> (8 * k);
            frn = n;
            if (!response_case())
                return;
        }
}
// every ordered triple of requests of very different kinds and sizes, each answered in four ways
static void ax_triples()
{
    boot();
    struct
    {
        u8 fn;
        u8 k;
    } L[20];
    int n = 0;
    for (u8 fn : all_fn)
        for (int k = 0; k < 4; k += fn == 5 || fn == 6 ? 3 : k == 0 ? 2 : 1)
            if (n < 20)
                L[n].fn = fn, L[n].k = k, n++;
    int how = 0;
    for (int a = 0; a < n; a++)
        for (int b = 0; b < n; b++)
            for (int c = 0; c < n; c++)
                for (int x : {a, b, c})
                {
                    sample_request(L[x].fn, L[x].k);
                    make_good(0);
                    memcpy(fr, good, goodn);
                    frn = goodn;
                    how = (how + 1) % 5;
                    if (how == 1)
                        fr[1] |= 0x80, fr[2] = 1 + c % 11, frn = put_crc(fr, 3);
                    else if (how == 2)
                        fr[frn - 1] ^= 0x40;
                    else if (how == 3)
                        frn = put_crc(fr, goodn - 3);
                    else if (how == 4 && c % 4 == 0)
                        fr[0] ^= 3, frn = put_crc(fr, goodn - 2);
                    if (!response_case())
                        return;
                }
}
// exchanges one after the other that differ in one respect only: in a parameter or an element of the request, in an element
// of the response, or in how the exchange ends
static bool neighbour_exchange(const RefReq &r, int elem, int how)
{
    RQ[0] = r;
    rq_invalid[0] = !(r.fn == FC_WSC || r.fn == FC_WSR) && (r.qty == 0 || r.qty > fc_max(r.fn));
    cur_resp = "";
    if (rq_invalid[0])
        return good_exchange();
    if (fc_read(r.fn) && r.adr + r.qty > 65536)
        return true;
    for (int i = 0; i < r.qty && i < 2000; i++)
        gv[i] = fc_bits(r.fn) ? i * 3 % 5 < 2 : 0x2468 + i * 0x0D0B;
    if (elem >= 0)
        gv[elem] ^= fc_bits(r.fn) ? 1 : 1 << (elem * 7 % 16);
    frn = ref_good_resp(r, gv, fr);
    if (how == 1)
        fr[1] |= 0x80, fr[2] = 2, frn = put_crc(fr, 3);
    else if (how == 2)
        fr[frn / 2] ^= 0x10;
    else if (how == 3)
        fr[0] ^= 0x11, put_crc(fr, frn - 2);
    return response_case();
}
static void ax_neighbours()
{
    boot();
    for (u8 fn : all_fn)
        for (int q : {1, 2, 9, 100, 125, 264, 1000, 1968})
        {
            if (q > fc_max(fn) && !((fn == 5 || fn == 6) && q == 1))
                continue;
            RefReq b = plain_request(fn, 0x21, 0x1234, q);
            for (auto &r : neighbours(b, e_all))
                if (!neighbour_exchange(b, -1, 0) || !neighbour_exchange(r, -1, 0) || !neighbour_exchange(b, -1, 0))
                    return;
            for (int i = 0; fc_read(fn) && i < q; i++)
                if (!neighbour_exchange(b, -1, 0) || !neighbour_exchange(b, i, 0) || !neighbour_exchange(b, -1, 0))
                    return;
            for (int h = 1; h < 4; h++)
                for (int k = 0; k < 4; k++)
                    if (!neighbour_exchange(b, -1, 0) || !neighbour_exchange(b, 0, k) || !neighbour_exchange(b, -1, h) || !neighbour_exchange(b, -1, 0))
                        return;
        }
}
// every quantity after every other quantity
static void ax_qty_pairs()
{
    boot();
    for (u8 fn : {1, 3, 15, 16})
        for (int q = 1; q <= fc_max(fn); q++)
            for (int p = 1; p < q; p++)
            {
                if (!neighbour_exchange(plain_request(fn, 0x21, 0x1234, q), -1, 0) || !neighbour_exchange(plain_request(fn, 0x21, 0x1234, p), -1, 0))
                    return;
            }
}
// one request of which every attempt ends as s says (one digit of base 6 per attempt; or, if it is negative, its first att_n
// attempts end as att_a says and the others as att_b says), up to its outcome
static int att_n, att_a, att_b;
static bool attempts_case_(int s)
{
    int nth = 0;
    cur_resp = s >= 0 ? ", attempts " + std::to_string(s) : ", " + std::to_string(att_n) + " attempts that end with " + std::to_string(att_a) + ", then " + std::to_string(att_b);
    if (!begin())
        return !e_out();
    bool first = true;
    while (!g_viol_kind && (first || mw.np))
    {
        if (!transmit(first))
            return false;
        first = false;
        int o = s < 0 ? nth++ < att_n ? att_a : att_b : s % 6;
        if (s > 0)
            s /= 6;
        make_good(1);
        memcpy(fr, good, goodn);
        frn = goodn;
        bool answered = true;
        switch (o)
        {
        case 0: // silence
        case 5: // the answer of another slave, then silence
            if (o == 5)
            {
                fr[0] ^= 0x11;
                frn = put_crc(fr, goodn - 2);
                if (!respond(F_FOREIGN, fr, frn))
                    return false;
            }
            for (int i = 0; i <= cfg_TO && mw.np && !g_viol_kind; i++)
            {
                me_tick();
                if (cfg_TO < 10 || i < 2 || i > cfg_TO - 3 || i % 16 == 0)
                    polls(1);
            }
            polls(3);
            if (!g_viol_kind && mw.np)
                viol("NO_PROGRESS", "%s: no timeout was reported", describe().c_str());
            break;
        case 1:
            fr[frn - 1] ^= 4;
            break;
        case 2:
            frn = put_crc(fr, goodn - 3);
            break;
        case 3: // a frame error during a good response
            memcpy(fr_bytes[F_GOOD][0], fr, frn);
            fr_len[F_GOOD][0] = frn;
            me_frame(F_GOOD, 0);
            me_fe();
            me_t15();
            polls(1);
            me_t35();
            polls(READY);
            answered = false;
            break;
        case 4:
            break;
        }
        if (g_viol_kind)
            return false;
        if (o == 0 || o == 5)
            break;
        if (answered && !respond(F_GOOD, fr, frn))
            return false;
        if (o == 4)
        {
            if (mw.np)
                concluded();
            break;
        }
    }
    if (!g_viol_kind && mw.np)
        viol("NO_PROGRESS", "%s: the request got no outcome", describe().c_str());
    return !g_viol_kind && !e_out();
}
static bool attempts_case(int s) { return soft(attempts_case_(s)); }
// failures: every request of every kind, with every sequence of attempt outcomes up to the report
static void ax_failures()
{
    boot();
    if (cfg_R > 4)
    { // too many sequences for all of them: any number of attempts that end in one way, the others in another one
        for (u8 fn : all_fn)
            for (att_a = 1; att_a < 4; att_a++)
                for (att_b = 0; att_b < 6; att_b++)
                    for (att_n = 0; att_n <= cfg_R + 1; att_n++)
                    {
                        if (fn != 1 + att_a && att_n > 3 && att_n < cfg_R - 3 && att_n % 32 > 1)
                            continue;
                        sample_request(fn, att_n % 4);
                        if (!attempts_case(-1) && e_out())
                            return;
                    }
        return;
    }
    int outcomes = 1;
    for (int i = 0; i <= cfg_R; i++)
        outcomes *= 6;
    for (u8 fn : all_fn)
        for (int k = 0; k < 4; k++)
            for (int seq = 0; seq < outcomes; seq++)
            {
                sample_request(fn, k);
                if (!attempts_case(seq) && e_out())
                    return;
            }
}
// how a request with any parameters is reported when it is answered by an exception, or not properly
static bool outcome_case(int o)
{
    if (o > 0)
    {
        static const int dig[] = {0, 0, 1, 3, 2};
        att_n = 0;
        att_b = dig[o];
        return attempts_case(-1);
    }
    fr[0] = RQ[0].id;
    fr[1] = RQ[0].fn | 0x80;
    fr[2] = 1 + (RQ[0].adr * 7 + RQ[0].qty) % 255;
    frn = put_crc(fr, 3);
    return response_case();
}
static void ax_outcomes()
{
    boot();
    static const int adrs[] = {0, 1, 0x00FF, 0x1234, 0x7FFF, 0x8000, 0xF800};
    for (u8 fn : {1, 2, 3, 4, 15, 16})
        for (int q = 1; q <= fc_max(fn); q++)
            for (int o = 0; o < 5; o++)
            {
                if (cfg_TO > 100 && o == 1 && q % 16 > 1)
                    continue;
                request_is(fn, 1 + q % 247, adrs[q % 7], q, q);
                if (!outcome_case(o))
                    return;
            }
    for (u8 fn : all_fn)
        for (int a = 0; a < 65536; a++)
        {
            int o = a / 3 % 5;
            if (cfg_TO > 100 && o == 1)
                o = a % 64 ? 0 : 1;
            int q = 1 + a % (fn == 5 || fn == 6 ? 1 : fc_max(fn));
            request_is(fn, 1 + a % 255, a, a + q > 65536 && fc_read(fn) ? 1 : q, a & 1);
            if (!outcome_case(o))
                return;
        }
    for (u8 fn : all_fn)
        for (int id = 1; id < 256; id++)
            for (int o = 0; o < 5; o++)
            {
                request_is(fn, id, 0x0203, 1 + id % 9, id);
                if (!outcome_case(o))
                    return;
            }
}
// a response that arrives in two parts: split at any place, with the manager called in between, with or without a gap of more
// than 1.5 characters, with or without a character error
static bool split_case_(int at, int how, int np)
{
    cur_resp = ", response " + hex(fr, frn < 24 ? frn : 24) + " split behind byte " + std::to_string(at) + (how == 1 ? " by a gap" : how == 2 ? " with a character error" : how == 3 ? " with a character error behind the last byte" : "");
    if (!begin())
        return !e_out();
    int c = ref_classify(RQ[0], fr, frn);
    if (!transmit())
        return false;
    memcpy(fr_bytes[F_GOOD][0], fr, frn);
    fr_len[F_GOOD][0] = frn;
    fr_split = at;
    bool ok = me_frame(F_GOOD, 1);
    polls(np);
    if (how == 1)
    {
        me_t15();
        polls(np);
    }
    else if (how == 2)
        me_fe();
    ok = ok && me_rest();
    polls(np);
    if (how == 3)
        me_fe();
    fr_split = -1;
    if (!ok && !g_viol_kind)
        viol("NO_PROGRESS", "%s: the environment could not answer", describe().c_str());
    me_t15();
    polls(4 - np);
    me_t35();
    for (int i = 0; i < READY + 1 && mw.np && !mw.tx_busy && !g_viol_kind; i++)
        polls(1);
    if (g_viol_kind)
        return false;
    bool bad = how || c == CL_BAD;
    if (!bad || !cfg_R)
        return concluded();
    if (!mw.np)
        viol("DELIVER_UNJUSTIFIED", "%s: the request was concluded", describe().c_str());
    make_good(1);
    if (g_viol_kind || !transmit(false) || !respond(F_GOOD2, good, goodn))
        return false;
    return concluded();
}
static void ax_gap()
{
    boot();
    for (u8 fn : all_fn)
        for (int k = 0; k < 4; k++)
            for (int what = 0; what < 3; what++)
            {
                sample_request(fn, k);
                make_good(1);
                int n = what == 1 ? 5 : goodn;
                for (int how = 0; how < 4; how++)
                    for (int at = 1; at < n; at++)
                        for (int np = 0; np < 5; np++)
                        {
                            sample_request(fn, k);
                            make_good(1);
                            memcpy(fr, good, goodn);
                            frn = goodn;
                            if (what == 1)
                                fr[1] |= 0x80, fr[2] = 1 + at % 11, frn = put_crc(fr, 3);
                            else if (what == 2)
                                fr[frn - 2] ^= 1 << at % 8;
                            if (!soft(split_case_(at, how, np)))
                                return;
                        }
            }
}
// long phases of every kind: n calls of the manager (what 0), n ticks (1) or n of both (2), while the bus is idle (at 0), during
// the transmission (1), while waiting for the response (2), in the middle of the response (3), behind it (4), behind the gap of
// 1.5 characters (5); at 6 the main program does not call the manager for n ticks after a response failed to come
static void idle(int what, int n)
{
    for (int i = 0; i < n && !g_viol_kind; i++)
    {
        if (what)
            me_tick();
        if (what != 1)
            polls(1);
    }
}
static bool idle_case_(int at, int what, int n)
{
    static const char *const a[] = {"on the idle bus", "during the transmission", "before the response", "in the middle of the response", "behind the response", "behind the gap of 1.5 characters", "without a response"};
    static const char *const w[] = {"calls of the manager", "ticks", "ticks and calls of the manager"};
    cur_resp = std::string(", ") + std::to_string(n) + " " + w[what] + " " + a[at];
    if (!begin())
        return !e_out();
    make_good(1);
    memcpy(fr, good, goodn);
    frn = goodn;
    if (at == 0)
        idle(what, n);
    e_calls++;
    m_app(0);
    for (int i = 0; i < 8 && !mw.tx_busy && !g_viol_kind; i++)
        polls(1);
    if (!g_viol_kind && !mw.tx_busy)
        viol("NO_PROGRESS", "%s: the request was not transmitted", describe().c_str());
    if (g_viol_kind)
        return false;
    if (at == 1)
        idle(what, n);
    me_txdone();
    polls(2);
    if (at == 2)
        idle(what, n);
    if (at == 6)
    {
        idle(1, n);
        polls(4);
        if (!g_viol_kind && mw.np)
            viol("NO_PROGRESS", "%s: no timeout was reported", describe().c_str());
        return !g_viol_kind && !e_out();
    }
    memcpy(fr_bytes[F_GOOD][0], fr, frn);
    fr_len[F_GOOD][0] = frn;
    fr_split = frn / 2;
    bool ok = me_frame(F_GOOD, 1);
    if (at == 3)
        idle(what, n);
    ok = ok && me_rest();
    fr_split = -1;
    if (!ok && !g_viol_kind)
        viol("NO_PROGRESS", "%s: the environment could not answer", describe().c_str());
    if (at == 4)
        idle(what, n);
    me_t15();
    if (at == 5)
        idle(what, n);
    else
        polls(n % 3);
    me_t35();
    for (int i = 0; i < READY + 1 && mw.np && !mw.tx_busy && !g_viol_kind; i++)
        polls(1);
    return concluded();
}
static void ax_idle()
{
    for (int n : {255, 256, 300, 65535, 65536, 70000}) // in front of the first request
        for (int what = 0; what < 3; what++)
        {
            boot();
            sample_request(FC_RHR, 0);
            if (!soft(idle_case_(0, what, n)))
                return;
        }
    for (int at = 0; at < 7; at++)
        for (int n : {100, 255, 256, 257, cfg_TO - 2, 1000, 10000, 32767, 32768, 65535, 65536, 65537, 70000, 140000})
            for (int what = at == 6; what < (at == 6 ? 2 : 3); what++)
                for (u8 fn : all_fn)
                    for (int k = 0; k < 3; k++)
                    {
                        if ((at >= 2 && at <= 5 && what && n > cfg_TO - 2) || (at == 6 && n < cfg_TO + 2) || n < 1)
                            continue;
                        sample_request(fn, k);
                        if (!soft(idle_case_(at, what, n)) || !good_exchange())
                            return;
                    }
}
// n frames pass by on the bus: before the request is made (at 0), during its transmission (1), before its response (2), or
// before a response that is damaged and before the one to the repetition (3)
static bool pass_by(int n, int kind)
{
    polls(READY);
    for (int i = 0; i < n && !g_viol_kind; i++)
    {
        u8 f[300];
        RefReq r = RQ[0];
        int len;
        int kd = kind == 4 ? (i ^ i >> 2) & 3 : kind;
        if (mw.hs == 2 && kd == 3)
            kd = 1;
        if (kd < 2)
            r.id ^= 1 + i % 200;
        if (kd == 2) // the same frame again and again
            r.id ^= 0x11;
        if (r.id == RQ[0].id)
            r.id ^= 0x80;
        if (kd == 1) // other lengths
            f[0] = r.id, f[1] = 1 + i % 127, memset(f + 2, i, 40), len = put_crc(f, 2 + i % 31);
        else
            len = ref_good_resp(r, gv, f);
        memcpy(fr_bytes[F_FOREIGN][0], f, len);
        fr_len[F_FOREIGN][0] = len;
        mw.nfr = 0;
        if (!me_frame(F_FOREIGN, 0))
            viol("NO_PROGRESS", "%s: the environment could not go on", describe().c_str());
        me_t15();
        polls(1 + i % 2);
        me_t35();
        polls(READY);
    }
    return !g_viol_kind;
}
static bool traffic_case_(int at, int kind, int n)
{
    cur_resp = ", " + std::to_string(n) + " frames (kind " + std::to_string(kind) + ") pass by at " + std::to_string(at);
    if (!begin())
        return !e_out();
    make_good(1);
    opt_stray = 1;
    if (at == 0 && !pass_by(n, kind))
        return false;
    m_app(0);
    for (int i = 0; i < 8 && !mw.tx_busy && !g_viol_kind; i++)
        polls(1);
    if (!g_viol_kind && !mw.tx_busy)
        viol("NO_PROGRESS", "%s: the request was not transmitted", describe().c_str());
    if (g_viol_kind || (at == 1 && !pass_by(n, kind)))
        return false;
    opt_stray = 0;
    me_txdone();
    polls(2);
    if (at >= 2 && !pass_by(n, kind))
        return false;
    if (at == 3 && cfg_R)
    {
        memcpy(fr, good, goodn);
        fr[goodn - 1] ^= 4;
        if (!respond(F_GOOD, fr, goodn))
            return false;
        if (!mw.np)
            viol("DELIVER_UNJUSTIFIED", "%s: the request was concluded", describe().c_str());
        if (g_viol_kind || !transmit(false) || !pass_by(n, kind))
            return false;
    }
    if (!respond(F_GOOD2, good, goodn))
        return false;
    return concluded();
}
static void ax_traffic()
{
    boot();
    for (int at = 0; at < 4; at++)
        for (int n : {1, 2, 3, 7, 16, 50, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 66000})
            for (int kind = 0; kind < 5; kind++)
                for (u8 fn : all_fn)
                    for (int k = 0; k < (n < 1000 ? 4 : 1); k++)
                    {
                        if ((kind == 3 && at >= 2) || (n > 1000 && fn != 1 + kind))
                            continue;
                        sample_request(fn, k);
                        if (!soft(traffic_case_(at, kind, n)))
                            return;
                        opt_stray = 0;
                    }
}
// a long life: the queue is filled and emptied over and over, with every mixture of outcomes
static void ax_life()
{
    boot();
    for (int k = 0; k < 8; k++)
    {
        req_menu[k] = k;
        rq_invalid[k] = 0;
    }
    cur_resp = "";
    n_req_menu = 8;
    u32 x = 0;
    for (int round = 0; round < 80000; round++)
    {
        if (!begin())
        {
            if (e_out())
                return;
            continue;
        }
        int fill = round % 7 == 6 ? cfg_N + 2 : 1 + round % cfg_N; // sometimes beyond the capacity
        for (int i = 0; i < fill && !g_viol_kind; i++)
            m_app(i == round % 5 && round % 3 == 0 ? 8 + round % 6 : (round * 3 + i * 5) % 8);
        int guard = 0;
        while (mw.np && !g_viol_kind && guard++ < 400 + 100 * cfg_N)
        {
            polls(1);
            if (!mw.tx_busy)
                continue;
            me_txdone();
            polls(2);
            int k = mw.pend[0];
            switch (x++ % 23)
            {
            case 3:
            case 9:
                me_frame(F_BADCRC, 0);
                break;
            case 5:
                me_frame(F_EXC, 0);
                break;
            case 11:
                me_frame(F_FOREIGN, 0);
                me_t15();
                polls(2);
                me_t35();
                polls(READY);
                me_frame(F_GOOD2, 0);
                break;
            case 17:
                me_frame(F_TRUNC, 0);
                break;
            case 21: // silence
                if (round % 16 == 0)
                {
                    for (int i = 0; i < cfg_TO - 2 && !g_viol_kind; i++)
                    {
                        me_tick();
                        if (i % 64 == 0)
                            polls(1);
                    }
                    polls(3);
                    if (!g_viol_kind && cfg_TO > 2 && (mw.hs != 2 || mw.pend[0] != k))
                        viol("TIMEOUT_EARLY", "the request was concluded before the timeout (phase %d, %d -> %d, case %d round %d retries %d)", mw.hs, k, mw.pend[0], x - 1, round, mw.retries);
                    me_tick();
                    me_tick();
                    me_tick();
                    polls(4);
                    if (!g_viol_kind && mw.hs == 2)
                        viol("NO_PROGRESS", "no timeout was reported");
                    continue;
                }
                me_frame(F_GOOD, 0);
                break;
            default:
                me_frame(F_GOOD, 0);
            }
            me_t15();
            polls(1 + x % 2);
            me_t35();
            polls(2);
        }
        if (!g_viol_kind && mw.np)
            viol("NO_PROGRESS", "requests got no outcome in round %d", round);
        if (!soft(!e_out()))
            return;
    }
}
// every short sequence of requests (valid, refused, from a callback) and outcomes, from every number of waiting requests
static bool q_send()
{
    for (int i = 0; i < 8 && mw.np && mw.hs < 1 && !g_viol_kind; i++)
        polls(1);
    if (mw.hs == 1)
    {
        me_txdone();
        polls(2);
    }
    if (!g_viol_kind && mw.np && mw.hs != 2)
        viol("NO_PROGRESS", "the oldest of %d requests was not transmitted", mw.np);
    return !g_viol_kind && mw.np;
}
static void q_frame(int type)
{
    int np = mw.np;
    bool armed = mw.arm;
    if (!me_frame(type, 0))
        return;
    me_t15();
    polls(1);
    me_t35();
    for (int i = 0; i < READY + 1 && mw.np == np && !mw.tx_busy && !g_viol_kind; i++)
        polls(1);
    if (type == F_GOOD && !g_viol_kind && mw.np != np - 1 && (!armed || mw.arm || mw.np != np))
        viol(ignored("NO_PROGRESS"), "a complete, intact response was not delivered");
}
static int q_fill, q_seq, q_len, q_next;
static bool queue_case_()
{
    static const char *const ON[] = {"request", "refused request", "answer", "transmission", "silence", "damaged answer", "answer and request from its callback"};
    cur_resp = "; queue case: " + std::to_string(q_fill) + " requests";
    for (int i = 0, x = q_seq; i < q_len; i++, x /= 7)
        cur_resp += std::string(", ") + ON[x % 7];
    if (!begin())
        return !e_out();
    for (int i = 0; i < q_fill && !g_viol_kind; i++)
        m_app(q_next++ % 13);
    for (int i = 0, x = q_seq; i < q_len && !g_viol_kind; i++, x /= 7)
        switch (x % 7)
        {
        case 0:
            m_app(q_next++ % 13);
            break;
        case 1:
            m_app(13 + q_next % 3);
            break;
        case 6:
            req_menu[0] = q_next++ % 13;
            mw.arm = mw.np > 0;
            // fall through
        case 2:
            if (q_send())
                q_frame(F_GOOD);
            mw.arm = 0;
            break;
        case 3:
            q_send();
            break;
        case 4:
            if (q_send())
            {
                int np = mw.np;
                for (int t = 0; t < cfg_TO + 1 && !g_viol_kind; t++)
                    me_tick();
                polls(3);
                if (!g_viol_kind && mw.np == np)
                    viol("NO_PROGRESS", "no timeout was reported");
            }
            break;
        case 5:
            if (q_send())
                q_frame(F_BADCRC);
        }
    for (int guard = 0; mw.np && !g_viol_kind && guard < 400; guard++)
        if (q_send())
            q_frame(F_GOOD);
    return !g_viol_kind && !e_out();
}
static bool ax_queue_(int len)
{
    boot();
    rq_set(8, FC_RHR, 5, 0x0104, 3, 0);
    rq_set(9, FC_RC, 7, 0x0001, 5, 0);
    rq_set(10, FC_WSR, 5, 0x0008, 1, 0x4321);
    rq_set(11, FC_RHR, 6, 0x0102, 2, 0);
    rq_set(12, FC_WSC, 5, 0x0004, 1, 0);
    rq_set(13, FC_RHR, 5, 0, 126, 0, true);
    rq_set(14, FC_RC, 5, 0, 0, 0, true);
    rq_set(15, FC_WMR, 5, 0, 124, 0, true);
    frames_init();
    q_next = 0;
    q_len = len;
    int seqs = 1;
    for (int i = 0; i < len; i++)
        seqs *= 7;
    for (q_fill = 0; q_fill <= cfg_N; q_fill++)
    {
        if (q_fill > 3 && q_fill < cfg_N - 3)
            continue;
        for (q_seq = 0; q_seq < seqs; q_seq++)
        {
            req_menu[0] = 0;
            if (!soft(queue_case_()))
                return false;
        }
    }
    return true;
}
static void ax_queue()
{
    for (int len = 1; len <= (cfg_N > 20 ? 4 : 6); len++)
        if (!ax_queue_(len))
            return;
}
static const Axis axes[] = {{"adr", ax_adr}, {"qty", ax_qty}, {"id", ax_id}, {"write_values", ax_write_values}, {"read_values", ax_read_values}, {"exception", ax_exception}, {"resp_fn", ax_resp_fn}, {"resp_len", ax_resp_len}, {"resp_bc", ax_resp_bc}, {"resp_echo", ax_resp_echo}, {"crc", ax_crc}, {"burst", ax_burst}, {"triples", ax_triples}, {"failures", ax_failures}, {"outcomes", ax_outcomes}, {"gap", ax_gap}, {"neighbours", ax_neighbours}, {"idle", ax_idle}, {"traffic", ax_traffic}, {"qty_pairs", ax_qty_pairs}, {"queue", ax_queue}, {"life", ax_life}};
static void stats(std::string &s)
{
    char b[400];
    snprintf(b, sizeof b, ",\"sends\":%llu,\"retransmissions\":%llu,\"values_delivered\":%llu,\"confirmations\":%llu,\"exceptions\":%llu,\"timeouts\":%llu,\"communication_errors\":%llu,\"refused\":%llu", (unsigned long long)m_obs_send, (unsigned long long)m_obs_retx, (unsigned long long)m_obs_deliver, (unsigned long long)m_obs_conf, (unsigned long long)m_obs_exc, (unsigned long long)m_obs_timeout, (unsigned long long)m_obs_comm, (unsigned long long)m_obs_refused);
    s += b;
}
int main(int argc, char **argv)
{
    parse_opts(argc, argv);
    world_ptr = &mw;
    world_size = sizeof mw;
    e_describe = describe;
    extra_stats = stats;
    return enum_main(axes, sizeof axes / sizeof axes[0]);
}
