// Exhaustive enumeration of input spaces on the real library code.
// An axis is a deterministic enumeration of cases; cases of one axis are executed one after the other without resetting
// the library, so that every case also runs in the state its predecessors left behind.
#pragma once
#include "core.hpp"
#include <algorithm>
#include <functional>
struct Axis
{
    const char *name;
    void (*fn)();
};
static u64 e_cases = 0, e_calls = 0, e_axis_cases = 0;
static std::string (*e_describe)() = 0; // the current case
static const char *e_axis = "";
static u64 e_stop_at = 0; // replay: stop after this case
static std::string e_sample;
static double e_t0;
static bool e_capped = false;
static u64 e_cuts = 0, e_axis_cuts = 0;
static std::string e_other; // the first violation that does not concern the property
// to be called at the end of a case: true if it ended in a violation that does not concern the property; the engine then
// starts afresh with the next case
static bool e_soft()
{
    if (!g_viol_kind || kind_relevant(g_viol_kind))
        return false;
    e_cuts++;
    e_axis_cuts++;
    if (e_other.empty())
        e_other = std::string(g_viol_kind) + ": " + g_viol_msg;
    if (e_axis_cuts >= 3000)
        return false; // the rest of the axis is abandoned
    g_viol_kind = 0;
    return true;
}
static bool e_out()
{
    return g_viol_kind || e_capped || (e_stop_at && e_axis_cases >= e_stop_at);
}
static int e_part = 0, e_parts = 1;
static bool e_all = true;
static bool e_mine() // cases are dealt out to e_parts processes in blocks
{
    static u64 n = 0;
    return e_parts == 1 || (int)((n++ >> 6) % e_parts) == e_part;
}
// to be called once per case, before it is executed
static void e_begin()
{
    e_cases++;
    e_axis_cases++;
    g_progress++;
    if (g_verbose && e_axis_cases + 3 > e_stop_at)
        printf("case %llu: %s\n", (unsigned long long)e_axis_cases, e_describe ? e_describe().c_str() : "");
    if ((e_cases & 0xFFFF) == 0 && now() - e_t0 > opts.max_sec)
        e_capped = true;
}
static std::string e_where() { return std::string(e_axis) + ":" + std::to_string(e_axis_cases); }
// core.hpp's explorer is not used here
static void root() {}
static void canon() {}
static int gen(Ev *) { return 0; }
static void apply(Ev) {}
static void settle() {}
static std::string ev_str(Ev) { return ""; }
static int bursts_for(Ev, int *) { return 0; }
#ifndef ENUM_OWN_BURST
static bool fire_burst(int) { return false; }
#endif

static void run_axis(const Axis &a, u64 stop)
{
    e_axis = a.name;
    e_axis_cases = 0;
    e_axis_cuts = 0;
    e_stop_at = stop;
    lib_load(lib_pristine);
    a.fn();
}
static bool axis_selected(const char *n)
{
    std::string s = "," + opts.gets("axis", "all") + ",";
    return s == ",all," || s.find("," + std::string(n) + ",") != std::string::npos;
}
static int enum_main(const Axis *axes, int n)
{
    install_guards();
    lib_keep_pristine();
    e_t0 = now();
    g_where = e_where;
    e_parts = opts.get("parts", 1);
    e_part = opts.get("part", 0);
    e_all = opts.get("all", 1);
    if (!opts.replay.empty() && opts.replay != " ")
    {
        size_t c = opts.replay.find(':');
        std::string an = opts.replay.substr(0, c);
        u64 k = strtoull(opts.replay.c_str() + c + 1, 0, 10);
        g_verbose = false;
        for (int i = 0; i < n; i++)
            if (an == axes[i].name)
            {
                g_verbose = true;
                run_axis(axes[i], k);
            }
        if (g_viol_kind)
            printf("==> %s: %s\nVIOLATION REPRODUCED\n", g_viol_kind, g_viol_msg);
        else
            printf("NO VIOLATION\n");
        return g_viol_kind ? 1 : 0;
    }
    bool violated = false;
    u64 axes_run = 0, reval = 0, mism = 0;
    for (int i = 0; i < n && !violated && !e_capped; i++)
    {
        if (!axis_selected(axes[i].name))
            continue;
        axes_run++;
        u64 c0 = e_cases;
        run_axis(axes[i], 0);
        u64 last = e_axis_cases, total = e_cases;
        std::string d = e_describe ? e_describe() : "";
        if (i % 3 == 0 || e_sample.empty())
            e_sample = std::string(axes[i].name) + ", last case: " + d;
        if (g_viol_kind && !kind_relevant(g_viol_kind))
        {
            g_viol_kind = 0;
            e_cases = total;
            continue; // the rest of the axis follows a violation of another property
        }
        if (g_viol_kind)
        {
            std::string k = g_viol_kind, m = g_viol_msg;
            bool same = true;
            for (int rep = 0; rep < 2 && e_parts == 1; rep++)
            {
                g_viol_kind = 0;
                e_capped = false;
                e_t0 = now();
                run_axis(axes[i], last);
                same = same && g_viol_kind && e_axis_cases == last;
            }
            if (!same)
            {
                fprintf(stderr, "replay diverged: %s / %s at %s:%llu\n", k.c_str(), m.c_str(), axes[i].name, (unsigned long long)last);
                printf("@DIVERGED\n");
                fflush(stdout);
                return 4;
            }
            if (!g_viol_kind)
                viol("DATA", "%s", m.c_str());
            report_violation(e_where(), "axis " + std::string(axes[i].name) + ", case " + std::to_string(last) + ": " + d + "\n==> " + g_viol_kind + ": " + g_viol_msg + "\n");
            violated = true;
        }
        else if (!e_capped && e_parts == 1)
        { // the enumeration is deterministic: its beginning executed again has the same outcome
            std::vector<char> s1(lib_size()), s2(lib_size());
            u64 k = last < 200 ? last : 200;
            run_axis(axes[i], k);
            lib_save(s1.data());
            run_axis(axes[i], k);
            lib_save(s2.data());
            if (s1 != s2)
                mism++;
            reval += k;
            e_stop_at = 0;
        }
        e_cases = total;
        (void)c0;
    }
    std::string ex;
    u64 cut = e_cuts;
    if (extra_stats)
        extra_stats(ex);
    if (!violated)
        printf("@SAMPLE {\"events\":\"%s\"}\n", jesc(e_sample).c_str());
    printf("@STAT {\"name\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"settled\":0,\"depth\":%d,\"preempted_calls\":0,\"points\":0,\"complete\":%s,\"revalidated\":%llu,\"mismatch\":%llu,\"cut_other\":%llu,\"other\":\"%s\",\"sec\":%.2f,\"axes\":%llu%s}\n",
           opts.name.c_str(), (unsigned long long)e_cases, (unsigned long long)(e_calls ? e_calls : e_cases), 1, e_capped ? "false" : "true", (unsigned long long)reval, (unsigned long long)mism, (unsigned long long)cut, jesc(e_other).c_str(), now() - e_t0, (unsigned long long)axes_run, ex.c_str());
    printf("@DONE\n");
    fflush(stdout);
    return violated ? 1 : 0;
}
