"""Which exploration runs decide which property.

A job is one exhaustive exploration (or exhaustive enumeration) with one engine:
  engine   harness/<engine>.cpp
  flavour  plain | tsan (memory accesses are preemption points) | asan | short, packed (compiler settings of the example platforms) | clang |
           lto | int16, tearh, tearl (C07, C08) | insnlto, insnos, insnclang (machine instructions are preemption points)
  cfg      configuration macros of the library for this build
  opts     alphabet and bounds
  kinds    the violations that concern the property; anything else cuts the branch silently
"""

ASSUME = [
    "x86-64 build with gcc; preemption points are the library's memory accesses; interrupt handlers run to completion and do not nest; the platform driver behaves as documented in the example drivers (callbacks from interrupt context, transmission complete callback after the last byte, 1.5/3.5 character events derived from the idle line).",
    "The frame contents come from the alphabets listed per job or from the enumerated axes; the state space is exhausted within those alphabets and bounds (jobs listed under capped_jobs stopped at their state or time limit, breadth first).",
]

ALWAYS = "CRASH,HANG"


def kinds(*ks):
    return ",".join(ks) + "," + ALWAYS


def J(name, engine, opts, flavour="plain", cap=None, sec=None, weight=1, repairs=(), **cfg):
    full = dict(MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS=1, MODBUS_MASTER_RESP_TIME_OUT_MS=2, MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR=1,
                MAIN_APP_COILS_QTY=4, MAIN_APP_DISCRET_INPUTS_QTY=4, MAIN_APP_INPUT_REG_QTY=4, MAIN_APP_HOLDING_REG_QTY=4)
    full.update(cfg)
    return dict(name=name, engine=engine, flavour=flavour, cfg=full, opts=opts.split(), max_states=cap, max_sec=sec, weight=weight, repairs=list(repairs))


def NTR(n, to, r):
    return dict(MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS=n, MODBUS_MASTER_RESP_TIME_OUT_MS=to, MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR=r)


def TAB(c, d=None, i=None, h=None):
    d = c if d is None else d
    i = c if i is None else i
    h = c if h is None else h
    return dict(MAIN_APP_COILS_QTY=c, MAIN_APP_DISCRET_INPUTS_QTY=d, MAIN_APP_INPUT_REG_QTY=i, MAIN_APP_HOLDING_REG_QTY=h)


def finish(jobs, tier, ks):
    seen, res = set(), []
    for j in jobs:
        if j["name"] in seen:
            continue
        seen.add(j["name"])
        j["kinds"] = ks
        if j["max_states"] is None:
            j["max_states"] = 2000000 if tier == "quick" else 8000000
        if j["max_sec"] is None:
            j["max_sec"] = 60 if tier == "quick" else 1800
        res.append(j)
    return res


# ---------------------------------------------------------------- master
GROUPS = {"a": "0,1,2,3,4,5", "b": "0,6,7,8,9,10", "c": "0,11,12,13,14", "d": "0,15,16,17,18,19", "e": "0,4,13,20,21"}


def m_base(tier):
    """every kind of response, every function code, small configurations"""
    q = [J("read-" + g, "master_mc", "reqs=0 frames=" + f) for g, f in GROUPS.items()]
    q += [J("write-" + g, "master_mc", "reqs=3 frames=" + f) for g, f in GROUPS.items()]
    q += [
        J("coils", "master_mc", "reqs=1,2 frames=0,4,10,13"),
        J("regs", "master_mc", "reqs=4,5 frames=0,4,7,12"),
        J("bits", "master_mc", "reqs=6,7 frames=0,4,8,14"),
        J("two-kinds", "master_mc", "reqs=0,3 frames=0,2,4,9,12", weight=5),
        J("no-retry", "master_mc", "reqs=0,3 frames=0,2,4,8", weight=3, **NTR(1, 2, 0)),
        J("two-retries", "master_mc", "reqs=0,3 frames=0,4,12", **NTR(1, 3, 2)),
        J("queue2", "master_mc", "reqs=0,1 frames=0,4", weight=9, **NTR(2, 2, 1)),
        J("errors", "master_mc", "reqs=0 frames=0,4 fe=2"),
        J("split", "master_mc", "reqs=0 frames=0,4 fe=1 split=1", weight=4),
        J("callback", "master_mc", "reqs=0,5 frames=0,4 arm=1"),
    ]
    if tier == "thorough":
        q += [J("all-read-%d" % r, "master_mc", "reqs=%d frames=%s" % (r, ",".join(map(str, range(22)))), cap=9000000, weight=20) for r in (0, 3)]
        q += [J("pairs-%d-%s" % (r, g), "master_mc", "reqs=%d frames=%s" % (r, f)) for r in (1, 2, 4, 5, 6, 7) for g, f in GROUPS.items()]
        q += [J("two-%s" % g, "master_mc", "reqs=0,3 frames=" + f, weight=9, cap=4000000) for g, f in GROUPS.items()]
        q += [J("queue2-%s" % f.replace(",", "-"), "master_mc", "reqs=0,1 frames=" + f, weight=9, cap=4000000, **NTR(2, 2, 1)) for f in ("0,2", "0,1", "0,6", "0,12")]
        q += [
            J("queue3", "master_mc", "reqs=0,1 frames=0", weight=9, cap=4000000, **NTR(3, 2, 1)),
            J("queue3-bad", "master_mc", "reqs=0 frames=0,4", weight=6, cap=4000000, **NTR(3, 2, 1)),
            J("queue2-callback", "master_mc", "reqs=0,5 frames=0,4 arm=1", weight=9, cap=4000000, **NTR(2, 2, 1)),
            J("retries3", "master_mc", "reqs=0 frames=0,2,4,7,8,10,12", **NTR(1, 4, 3)),
            J("split-bc", "master_mc", "reqs=3 frames=0,2,4,10 fe=1 split=1", weight=5, cap=4000000),
            J("errors2", "master_mc", "reqs=0,1 frames=0,2,4 fe=2", weight=5, cap=4000000),
        ]
    return q


def m_queue(tier):
    q = [
        J("queue2-invalid", "master_mc", "reqs=0,8,9 frames=0", weight=3, **NTR(2, 2, 1)),
        J("queue2-same", "master_mc", "reqs=0,14 frames=0,5", weight=2, **NTR(2, 2, 1)),
        J("queue2-arm", "master_mc", "reqs=0,5 frames=0 arm=1", weight=3, **NTR(2, 2, 1)),
        J("queue3-one", "master_mc", "reqs=0 frames=0,4", weight=5, **NTR(3, 2, 1)),
        J("invalid-1", "master_mc", "reqs=0,8,9,10 frames=0,4", **NTR(1, 2, 1)),
        J("invalid-2", "master_mc", "reqs=3,11,12,13 frames=0,4", **NTR(1, 2, 1)),
        J("queue4", "master_mc", "reqs=0 frames=0", weight=7, **NTR(4, 1, 0)),
    ]
    if tier == "thorough":
        q += [
            J("queue3-two", "master_mc", "reqs=0,1 frames=0", weight=9, cap=5000000, **NTR(3, 2, 1)),
            J("queue4-R1", "master_mc", "reqs=0 frames=0,4", weight=9, cap=5000000, **NTR(4, 2, 1)),
            J("queue5", "master_mc", "reqs=0 frames=0", weight=9, cap=5000000, **NTR(5, 1, 0)),
            J("queue3-invalid", "master_mc", "reqs=0,8,9 frames=0", weight=9, cap=5000000, **NTR(3, 2, 0)),
            J("queue2-arm-bad", "master_mc", "reqs=0,5,8 frames=0,4 arm=1", weight=9, cap=5000000, **NTR(2, 2, 1)),
        ]
    return q


def m_noise(tier):
    q = [
        J("hostile", "master_mc", "reqs=0 frames=0,4 hostile=1"),
        J("stray-noise", "master_mc", "reqs=0 frames=0,5 noise=15 stray=1"),
        J("stray-bad", "master_mc", "reqs=0 frames=0,5 noise=4 stray=1"),
        J("stray-late", "master_mc", "reqs=0 frames=0,5 noise=15 stray=2", weight=3),
        J("foreign-trains", "master_mc", "reqs=0 frames=0,5,12 noise=12,11 stray=1", weight=3),
        J("foreign-write", "master_mc", "reqs=3 frames=0,5,19 noise=12 stray=1", weight=3),
        J("spurious", "master_mc", "reqs=0 frames=0,4 spur=1 rep15=1"),
        J("foreign-2", "master_mc", "reqs=0,14 frames=0,5,13", weight=2),
    ]
    if tier == "thorough":
        q += [
            J("stray-mix", "master_mc", "reqs=0 frames=0,5 noise=15,4 stray=1", weight=9, cap=6000000),
            J("hostile-more", "master_mc", "reqs=0,1 frames=0,4,5 hostile=1", weight=9, cap=6000000),
            J("hostile-fe", "master_mc", "reqs=0 frames=0,5 hostile=1 fe=1", weight=9, cap=6000000),
            J("stray-fe", "master_mc", "reqs=0 frames=0,5 noise=15 stray=1 fe=2", weight=9, cap=6000000),
            J("queue2-noise", "master_mc", "reqs=0 frames=0,5 noise=15 stray=1", weight=9, cap=6000000, **NTR(2, 2, 1)),
        ]
    return q


def m_reinit(tier):
    q = [
        J("reinit", "master_mc", "reqs=0,1 frames=0,4 reinit=1 fe=1", weight=3),
        J("reinit-queue2", "master_mc", "reqs=0 frames=0,4 reinit=1", weight=2, **NTR(2, 2, 1)),
        J("reinit-write", "master_mc", "reqs=3,7 frames=0,2,4 reinit=1", weight=2),
        J("reinit-stray", "master_mc", "reqs=0 frames=0,4 noise=15 stray=1 reinit=1", weight=2),
        J("reinit-callback", "master_mc", "reqs=0,5 frames=0,4,8 arm=2", weight=2),
        J("reinit-callback-write", "master_mc", "reqs=3,1 frames=0,4,8 arm=2 fe=1", weight=3),
        J("reinit-callback-queue2", "master_mc", "reqs=0,5 frames=0,4 arm=2", weight=6, **NTR(2, 2, 1)),
        J("reinit-callback-queue3", "master_mc", "reqs=0 frames=0 arm=2", weight=5, **NTR(3, 2, 0)),
    ]
    if tier == "thorough":
        q += [
            J("reinit-many", "master_mc", "reqs=0,1 frames=0,1,2,4,5,10,11,12 reinit=1 fe=2 split=1", weight=9, cap=6000000),
            J("reinit-queue3", "master_mc", "reqs=0 frames=0,4 reinit=1", weight=9, cap=6000000, **NTR(3, 2, 1)),
            J("reinit-arm", "master_mc", "reqs=0,5 frames=0,4 reinit=1 arm=1", weight=9, cap=6000000, **NTR(2, 2, 1)),
        ]
    return q


def m_late(tier):
    q = [
        J("late", "master_mc", "reqs=0 frames=0,2,4 late=1"),
        J("late-write", "master_mc", "reqs=3,1 frames=0,4 late=1"),
        J("late-timeout5", "master_mc", "reqs=0 frames=0,2,4,8 late=1", **NTR(1, 5, 1)),
        J("late-timeout1", "master_mc", "reqs=0 frames=0,2,4,8 late=1", **NTR(1, 1, 1)),
        J("late-queue2", "master_mc", "reqs=0 frames=0,4 late=1", weight=2, **NTR(2, 2, 1)),
        J("late-foreign", "master_mc", "reqs=0 frames=0,5,12 noise=5 stray=1 late=1", weight=2, **NTR(1, 3, 1)),
        J("late-timeout1000", "master_mc", "reqs=0,3 frames=0,2,4 late=1 tstep=333", weight=2, **NTR(1, 1000, 1)),
        J("late-timeout70000", "master_mc", "reqs=0 frames=0,4 late=1 tstep=35000", weight=3, **NTR(1, 70000, 1)),
    ]
    if tier == "thorough":
        q += [J("late-timeout%d" % t, "master_mc", "reqs=0,3 frames=0,2,4,8,11,12 late=1 fe=1", weight=7, cap=6000000, **NTR(1, t, 2)) for t in (2, 7, 12)]
        q += [J("late-queue2-two", "master_mc", "reqs=0,1 frames=0,4 late=1", weight=7, cap=6000000, **NTR(2, 4, 1))]
    return q


def m_inj(tier):
    q = [
        J("preempt", "master_mc", "reqs=0,5 frames=0,4 inj=1", "tsan", weight=4),
        J("preempt-callback", "master_mc", "reqs=0 frames=0 inj=1 arm=1", "tsan", weight=2),
        J("preempt-errors", "master_mc", "reqs=0 frames=0,4 inj=1 fe=1", "tsan", weight=3),
        J("preempt-reinit", "master_mc", "reqs=0 frames=0,4 inj=1 reinit=1", "tsan"),
        J("preempt-invalid", "master_mc", "reqs=0,8 frames=0,2 inj=1", "tsan"),
        J("preempt-foreign", "master_mc", "reqs=3 frames=0,5,12 inj=1", "tsan", weight=2),
        J("preempt-write", "master_mc", "reqs=3,1 frames=0,2 inj=1", "tsan", weight=2),
        J("preempt-queue2", "master_mc", "reqs=0 frames=0 inj=1", "tsan", weight=5, **NTR(2, 2, 1)),
        J("preempt-noretry", "master_mc", "reqs=0 frames=0,4,8 inj=1", "tsan", **NTR(1, 2, 0)),
        J("preempt-twice", "master_mc", "reqs=0 frames=0 inj=2", "tsan", weight=5),
    ]
    if tier == "thorough":
        q += [
            J("preempt-stray", "master_mc", "reqs=0 frames=0,4 inj=1 stray=1", "tsan", weight=9),
            J("preempt-noise", "master_mc", "reqs=0 frames=0,5 noise=15 inj=1 stray=1", "tsan", weight=9),
            J("preempt-queue2-two", "master_mc", "reqs=0,1 frames=0,4 inj=1", "tsan", weight=9, **NTR(2, 2, 1)),
            J("preempt-queue3", "master_mc", "reqs=0 frames=0 inj=1", "tsan", weight=9, **NTR(3, 2, 1)),
            J("preempt2-bad", "master_mc", "reqs=0 frames=0,4 inj=2", "tsan", weight=9),
            J("preempt2-write", "master_mc", "reqs=3 frames=0,4 inj=2", "tsan", weight=9),
            J("preempt2-foreign", "master_mc", "reqs=0 frames=0,5,2 inj=2", "tsan", weight=9),
            J("preempt2-two", "master_mc", "reqs=0,5 frames=0 inj=2", "tsan", weight=9),
            J("preempt2-retries", "master_mc", "reqs=0 frames=0,4 inj=2", "tsan", weight=9, **NTR(1, 3, 2)),
            J("preempt2-queue2", "master_mc", "reqs=0 frames=0 inj=2", "tsan", weight=9, **NTR(2, 2, 1)),
            J("preempt2-fe", "master_mc", "reqs=0 frames=0,4 inj=2 fe=1", "tsan", weight=9),
            J("preempt2-split", "master_mc", "reqs=0 frames=0,4 inj=1 fe=1 split=1", "tsan", weight=9),
            J("preempt-late", "master_mc", "reqs=0 frames=0,4 inj=1 late=1", "tsan", weight=3, **NTR(1, 4, 1)),
        ]
    return q


def m_axes(tier, names, cfgs=("1",), **over):
    q = []
    for n in names.split():
        q.append(J("data-" + n, "data_master", "axis=" + n, weight=6 if n in ("adr", "burst", "outcomes", "gap", "read_values", "crc") else 2))
        if tier == "thorough" or n in ("failures", "life", "outcomes", "gap", "neighbours", "idle", "traffic", "queue"):
            q.append(J("data5-" + n, "data_master", "axis=" + n, weight=6, **NTR(5, 10 if n == "queue" else 1000, 3)))
        if n in ("failures", "life", "idle", "queue") or (tier == "thorough" and n in ("outcomes", "traffic", "gap")): # extreme settings
            q.append(J("dataL-" + n, "data_master", "axis=" + n, weight=4, **NTR(3, 300 if n == "queue" else 70000, 1)))
            q.append(J("dataX-" + n, "data_master", "axis=" + n, weight=7, **NTR(200, 20, 254)))
        if tier == "thorough" and n == "neighbours" and len(names.split()) > 9:
            q.append(J("data-qty_pairs", "data_master", "axis=qty_pairs", weight=9))
        if tier == "thorough" or n == "queue":
            q.append(J("data9-" + n, "data_master", "axis=" + n, weight=6, **NTR(9, 10 if n == "queue" else 100, 0)))
    return q


# ---------------------------------------------------------------- slave
def s_base(tier):
    q = [
        J("valid", "slave_mc", "frames=0,1,2,3,4,5,6,7,8", weight=2),
        J("exceptions", "slave_mc", "frames=4,9,10,11,12,13"),
        J("ignored", "slave_mc", "frames=4,14,15,16,17,18"),
        J("short", "slave_mc", "frames=4,6,16,17,18,23,25,29"),
        J("long", "slave_mc", "frames=4,19,20,21,22,23,24"),
        J("more", "slave_mc", "frames=4,6,24,25,26,27,28,29"),
        J("application", "slave_mc", "frames=0,4,6 app=1 reg=1", weight=4),
        J("errors", "slave_mc", "frames=4,6,16 stray=1 fe=1", weight=4),
        J("back-to-back", "slave_mc", "frames=4,6 stray=2 fe=2", weight=4, cap=2000000 if tier == "quick" else None),
        J("split", "slave_mc", "frames=4,16 stray=1 split=1 fe=1", weight=4, cap=2000000 if tier == "quick" else None),
        J("spurious", "slave_mc", "frames=4,6,16 spur=1 rep15=1"),
    ]
    if tier == "thorough":
        q += [
            J("wide", "slave_mc", "frames=0,1,2,4,5,6,7,8,9,12,13,16,17,18,19,20", weight=9),
            J("wide-app", "slave_mc", "frames=5,6,13,4 app=1 reg=1", weight=9),
            J("pairs-1", "slave_mc", "frames=4,6,14 stray=2 fe=2", weight=9),
            J("pairs-2", "slave_mc", "frames=5,16,17 stray=2 fe=2 split=1", weight=9),
            J("pairs-3", "slave_mc", "frames=2,3,20 stray=2 split=1", weight=9),
        ]
    return q


def s_noise(tier):
    q = [
        J("hostile", "slave_mc", "frames=4,6,14 hostile=1", weight=4, cap=2000000 if tier == "quick" else None),
        J("hostile-short", "slave_mc", "frames=4,17,29 hostile=2", weight=4, cap=2000000 if tier == "quick" else None),
        J("foreign", "slave_mc", "frames=4,6,14,19,24,26,27 stray=1", weight=3),
        J("foreign-errors", "slave_mc", "frames=6,14,19 fe=2 stray=1", weight=3, cap=2000000 if tier == "quick" else None),
    ]
    return q


def s_reinit(tier):
    q = [
        J("reinit", "slave_mc", "frames=4,6 reinit=1 fe=1"),
        J("reinit-short", "slave_mc", "frames=4,6,16,17,18,29 reinit=1"),
        J("reinit-split", "slave_mc", "frames=4,5,16 reinit=1 split=1 stray=1", weight=3, cap=2000000 if tier == "quick" else None),
        J("reinit-app", "slave_mc", "frames=4,6 reinit=1 app=1 reg=1", weight=3),
        J("reinit-coils", "slave_mc", "frames=0,2,5,7 reinit=1 stray=1", weight=3, cap=2000000 if tier == "quick" else None),
    ]
    return q


def s_inj(tier):
    q = [
        J("preempt", "slave_mc", "frames=4,6 inj=1 stray=2", "tsan", weight=5),
        J("preempt-reads", "slave_mc", "frames=1,5 inj=1 stray=1", "tsan", weight=5),
        J("preempt-ignored", "slave_mc", "frames=4,14,15 inj=1", "tsan"),
        J("preempt-short", "slave_mc", "frames=4,16,17 inj=1 fe=1", "tsan"),
        J("preempt-reinit", "slave_mc", "frames=4,6 inj=1 reinit=1", "tsan"),
        J("preempt-coils", "slave_mc", "frames=0,2,5,12 inj=1", "tsan"),
        J("preempt-twice", "slave_mc", "frames=4,6 inj=2", "tsan"),
        J("preempt-twice-errors", "slave_mc", "frames=4,16 inj=2 fe=1", "tsan", weight=2),
    ]
    if tier == "thorough":
        q += [
            J("preempt-twice-stray", "slave_mc", "frames=4,16 inj=2 stray=1", "tsan", weight=4),
            J("preempt-twice-stray2", "slave_mc", "frames=4,6 inj=2 stray=2", "tsan", weight=9),
            J("preempt-twice-mix", "slave_mc", "frames=1,5,14 inj=2 stray=1", "tsan", weight=9),
            J("preempt-split", "slave_mc", "frames=4,16 inj=1 stray=1 split=1 fe=1", "tsan", weight=9),
            J("preempt-app", "slave_mc", "frames=4,6 inj=1 app=1", "tsan", weight=9),
        ]
    return q


ALL_M = "adr qty id write_values read_values exception resp_fn resp_len resp_bc resp_echo crc burst triples failures outcomes gap neighbours idle traffic life queue"
ALL_S = "read_adr read_qty read_square single multi_adr multi_qty multi_bc patterns values function short address crc burst registration triples errors reid neighbours idle life"
TABLES = {"t1": 1, "t8": 8, "t100": 100, "t2000": 2000, "t65535": 65535}


def s_axes(tier, names, tables, more=()):
    q = []
    for t in tables:
        for n in names.split():
            slow = t in ("t65535", "t2000") and n in ("read_adr", "multi_adr", "read_square")
            if n == "neighbours" and tier == "thorough" and t == "t2000":
                q.append(J("t2000-qty_pairs", "data_slave", "axis=qty_pairs", weight=9, **TAB(2000)))
            if n == "registration" and TABLES[t] > 8:
                continue
            if n == "read_square" and tier == "quick" and t in ("t2000", "t65535"):
                continue
            q.append(J("%s-%s" % (t, n), "data_slave", "axis=" + n, weight=9 if slow else 2, **TAB(TABLES[t])))
    if more:
        for n in names.split():
            if n != "registration":
                q.append(J("mixed-%s" % n, "data_slave", "axis=" + n, weight=2, **TAB(*more)))
    return q


MIX = (13, 5, 130, 66)
LIMITS = {"limits": (1969, 1999, 126, 123), "limits2": (1968, 2001, 124, 125), "high": (33000, 40000, 32769, 65000)}


def s_limits(names):
    """tables about as large as the largest request, and larger than 32767"""
    return [J("%s-%s" % (t, n), "data_slave", "axis=" + n, weight=4, **TAB(*c)) for t, c in LIMITS.items() for n in names.split()]


# ---------------------------------------------------------------- properties
DELIVER = ["DELIVER_UNJUSTIFIED", "DELIVER_CALLBACK", "DELIVER_WRONG", "DELIVER_PARTIAL"]
CONFIRM = ["WRITE_IGNORED", "CONFIRM_CALLBACK", "CONFIRM_WRONG"]
EXC = ["EXC_IGNORED", "EXC_UNJUSTIFIED", "EXC_CALLBACK", "EXC_WRONG", "EXC_REPORT"]
TIME = ["TIMEOUT_EARLY", "TIMEOUT_UNJUSTIFIED", "TIMEOUT_LATE"]
COMM = ["COMM_UNJUSTIFIED", "COMM_EARLY"]
SEND = ["SEND_CONTEXT", "SEND_BUSY", "SEND_NO_REQ", "SEND_EARLY"]
IGN = ["READ_IGNORED", "WRITE_IGNORED", "EXC_IGNORED"]
RETX = ["RETX_SPURIOUS", "RETX_MANY", *IGN]

PROPS = {}


def prop(pid, ks, jobs, assume=()):
    PROPS[pid] = dict(jobs=lambda tier: finish(jobs(tier), tier, ks), assume=list(assume))


def pick(jobs, *names):
    return [j for j in jobs if j["name"] in names]


CORE = ("read-a", "read-b", "write-a", "write-c", "coils", "regs", "bits", "two-retries")


def core(t):
    b = m_base(t)
    return b if t == "thorough" else pick(b, *CORE)


prop("M01", kinds("FRAME", "ORDER", "SEND_CONTEXT", "NO_PROGRESS"),
     lambda t: m_axes(t, ALL_M) + core(t) + pick(m_queue(t), "queue2-same", "queue2-invalid") + pick(m_reinit(t), "reinit-write"))
prop("M02", kinds("INVALID_ACCEPTED", "RET_INVALID", "CAPACITY", "FRAME", "SEND_NO_REQ", "CALLBACK_CONTEXT", "OUTCOME_SPURIOUS", "NO_PROGRESS"),
     lambda t: m_axes(t, ALL_M) + m_queue(t) + pick(m_inj(t), "preempt-invalid"))
prop("M03", kinds("CAPACITY", "RET_INVALID", "ORDER", "SEND_NO_REQ", "NO_PROGRESS", "FRAME"),
     lambda t: m_queue(t) + m_axes(t, ALL_M) + pick(m_base(t), "queue2", "callback", "coils", "two-kinds", *([] if t == "quick" else ["queue3", "queue2-callback"])) + pick(m_reinit(t), "reinit-queue2") + pick(m_inj(t), "preempt-queue2"))
prop("M04", kinds(*IGN, "DELIVER_CALLBACK", "CONFIRM_CALLBACK", "EXC_CALLBACK", "DELIVER_WRONG", "OUTCOME_SPURIOUS", "NO_PROGRESS", "CALLBACK_CONTEXT", "ORDER", "SEND_NO_REQ", "DELIVER_PARTIAL", "DELIVER_UNJUSTIFIED", "TIMEOUT_UNJUSTIFIED", "COMM_UNJUSTIFIED"),
     lambda t: m_base(t) + pick(m_queue(t), "queue2-same", "queue3-one") + pick(m_noise(t), "hostile", "stray-noise") + m_axes(t, ALL_M) + pick(m_inj(t), "preempt", "preempt-queue2"))
prop("M05", kinds(*DELIVER, "READ_IGNORED", "OUTCOME_SPURIOUS"),
     lambda t: m_axes(t, ALL_M) + core(t) + pick(m_queue(t), "queue2-same") + pick(m_base(t), "split", "callback"))
prop("M06", kinds(*IGN, "DELIVER_UNJUSTIFIED", "DELIVER_CALLBACK", "DELIVER_WRONG", "DELIVER_PARTIAL", "CONFIRM_CALLBACK", "CONFIRM_WRONG", "EXC_UNJUSTIFIED"),
     lambda t: m_axes(t, ALL_M) + m_base(t) + pick(m_noise(t), "hostile", "stray-noise", "stray-bad", "stray-late", "foreign-trains", "foreign-write", "foreign-2"))
prop("M07", kinds(*RETX, "FRAME", "COMM_UNJUSTIFIED", "COMM_EARLY", "ORDER", "NO_PROGRESS"),
     lambda t: m_base(t) + m_axes(t, ALL_M) + pick(m_noise(t), "hostile", "stray-bad", "stray-noise") + pick(m_inj(t), "preempt", "preempt-noretry"))
prop("M08", kinds(*TIME, *IGN, "NO_PROGRESS", "RETX_SPURIOUS", "COMM_UNJUSTIFIED", "SEND_NO_REQ"),
     lambda t: m_late(t) + m_axes(t, ALL_M) + core(t) + pick(m_base(t), "two-kinds", "queue2", "errors", "no-retry") + pick(m_noise(t), "stray-noise", "foreign-trains") + pick(m_inj(t), "preempt", "preempt-foreign", "preempt-late"))
prop("M09", kinds("NO_PROGRESS", *IGN, "CAPACITY"),
     lambda t: m_axes(t, ALL_M) + m_base(t) + m_noise(t) + m_late(t) + m_reinit(t) + pick(m_inj(t), "preempt", "preempt-errors") + pick(m_queue(t), "queue3-one"))
prop("M10", kinds(*IGN, "REPORT", "EXC_REPORT", "TIMEOUT_UNJUSTIFIED", "COMM_UNJUSTIFIED"),
     lambda t: m_axes(t, ALL_M) + m_base(t) + pick(m_queue(t), "queue2-same") + pick(m_late(t), "late", "late-queue2"))
prop("M11", kinds(*EXC, "OUTCOME_SPURIOUS"),
     lambda t: m_axes(t, ALL_M) + m_base(t) + pick(m_queue(t), "queue2-same"))
prop("M12", "all", lambda t: m_inj(t) + m_axes(t, "life failures gap idle traffic queue"))
prop("M13", kinds("NOTHING_ELSE"),
     lambda t: [J("asan-read", "master_mc", "reqs=0,8 frames=0,1,2,4,10,11,12", "asan", cap=25000 if t == "quick" else 400000, weight=5),
                J("asan-write", "master_mc", "reqs=3,10 frames=0,2,4,10,11,12,14", "asan", cap=25000 if t == "quick" else 400000, weight=5),
                J("asan-noise", "master_mc", "reqs=0 frames=0,5 noise=15,12 stray=1 fe=2", "asan", cap=25000 if t == "quick" else 400000, weight=5),
                J("asan-queue2", "master_mc", "reqs=0,6 frames=0,4,8", "asan", cap=25000 if t == "quick" else 400000, weight=5, **NTR(2, 2, 1)),
                J("asan-reinit", "master_mc", "reqs=0,7 frames=0,11 reinit=1 split=1", "asan", cap=25000 if t == "quick" else 400000, weight=5)]
     + [J("asan-" + n, "data_master", "axis=" + n, "asan", weight=7) for n in "resp_len resp_bc resp_fn exception triples life queue write_values read_values failures gap idle traffic qty id resp_echo crc neighbours".split()]
     + ([J("asan-" + n, "data_master", "axis=" + n, "asan", weight=9) for n in "adr burst outcomes".split()] if t == "thorough" else [])
     + [J("asan5-" + n, "data_master", "axis=" + n, "asan", weight=7, **NTR(5, 10, 3)) for n in "life queue failures resp_len".split()])
prop("M14", kinds(*SEND, "RETX_SPURIOUS", "ORDER", "FRAME"),
     lambda t: m_base(t) + pick(m_queue(t), "queue2-arm", "queue3-one") + m_noise(t) + m_axes(t, ALL_M) + pick(m_inj(t), "preempt", "preempt-queue2"))
prop("M15", "all", lambda t: m_axes(t, "life outcomes idle traffic queue") + m_reinit(t) + pick(m_inj(t), "preempt-reinit"))
prop("M16", "all", lambda t: m_noise(t) + pick(m_inj(t), "preempt-foreign", "preempt-noise", "preempt-stray") + m_axes(t, "id resp_fn triples failures gap idle traffic queue life"))
prop("M17", kinds(*CONFIRM, "DELIVER_UNJUSTIFIED", "OUTCOME_SPURIOUS", "DELIVER_CALLBACK"),
     lambda t: m_axes(t, ALL_M) + m_base(t))

prop("S01", kinds("REPLY_READ", "NO_REPLY"),
     lambda t: s_axes(t, ALL_S, ["t1", "t8", "t100", "t2000", "t65535"], MIX) + s_limits("read_qty multi_qty multi_bc single values") + s_base(t))
prop("S02", kinds("REPLY_WRITE", "DATA", "NO_REPLY", "TX_CHANGED"),
     lambda t: s_axes(t, ALL_S, ["t1", "t8", "t100", "t2000", "t65535"], MIX) + s_limits("read_qty multi_qty multi_bc single values") + s_base(t))
prop("S03", kinds("EXECUTED_SHORT", "REPLY_EXC", "DATA", "NO_REPLY", "REPLY_READ", "REPLY_WRITE"),
     lambda t: s_axes(t, ALL_S, ["t1", "t8", "t100", "t65535"] + (["t2000"] if t == "thorough" else []), MIX) + s_limits("read_qty multi_qty multi_bc single function") + s_base(t))
prop("S04", kinds("REPLY_FAILURE", "REPLY_READ", "REPLY_WRITE", "DATA", "NO_REPLY"),
     lambda t: s_axes(t, ALL_S, ["t1", "t8"]) + s_base(t) + pick(s_reinit(t), "reinit-app") +
     [J("registration-%s" % f.replace(",", "-"), "slave_mc", "frames=%s app=1 reg=1" % f, weight=4) for f in ("1,6", "5,0", "7,8", "2,3")])
prop("S05", kinds("REPLY_SPURIOUS", "DATA"),
     lambda t: s_axes(t, ALL_S, ["t8", "t100"]) + s_noise(t) + s_base(t))
prop("S06", kinds("REPLY_SPURIOUS", "DATA", "NO_REPLY", "EXECUTED_SHORT"),
     lambda t: s_axes(t, ALL_S, ["t8", "t100"]) + s_base(t) + pick(s_reinit(t), "reinit-short", "reinit-split") + pick(s_inj(t), "preempt-short"))
prop("S07", kinds("EXECUTED_SHORT", "NO_REPLY", "REPLY_READ", "REPLY_WRITE", "REPLY_EXC", "REPLY_FAILURE", "DATA"),
     lambda t: s_base(t) + s_noise(t) + s_reinit(t) + s_axes(t, ALL_S, ["t8", "t100"]) + pick(s_inj(t), "preempt", "preempt-ignored"))
prop("S08", kinds("REPLY_EARLY", "REPLY_BUSY", "REPLY_CONTEXT", "REPLY_SPURIOUS", "NO_REPLY", "TX_CHANGED"),
     lambda t: s_base(t) + s_noise(t) + s_axes(t, ALL_S, ["t8", "t100"]) + pick(s_inj(t), "preempt", "preempt-reads", "preempt-short"))
prop("S09", "all", lambda t: s_inj(t) + s_axes(t, "life errors triples idle", ["t8"]))
prop("S10", kinds("NOTHING_ELSE"),
     lambda t: [J("asan-valid", "slave_mc", "frames=0,1,2,3,4,5,6", "asan", weight=5),
                J("asan-short", "slave_mc", "frames=4,16,17,18,23,25,29", "asan"),
                J("asan-reinit", "slave_mc", "frames=4,6 reinit=1 fe=2", "asan"),
                J("asan-long", "slave_mc", "frames=4,19,20,21,22,26,28", "asan"),
                J("asan-hostile", "slave_mc", "frames=4,17,19 hostile=2 stray=1", "asan", cap=15000 if t == "quick" else 400000, weight=5),
                J("asan-app", "slave_mc", "frames=0,6 app=1 reg=1", "asan", cap=15000 if t == "quick" else 400000, weight=5)]
     + [J("asan-%s-%s" % (tn, n), "data_slave", "axis=" + n, "asan", weight=8, **TAB(tv))
        for tn, tv in (("t1", 1), ("t100", 100)) for n in "read_qty single multi_adr multi_qty multi_bc function short address".split()]
     + [J("asan-t8-" + n, "data_slave", "axis=" + n, "asan", weight=8, **TAB(8)) for n in "registration read_adr triples errors idle neighbours life".split()]
     + ([J("asan-%s-%s" % (tn, n), "data_slave", "axis=" + n, "asan", weight=9, **TAB(tv))
         for tn, tv in (("t2000", 2000), ("t65535", 65535)) for n in "read_qty read_adr single multi_adr multi_qty multi_bc short patterns".split()] if t == "thorough" else []))
prop("S11", "all", lambda t: s_axes(t, "reid life address idle", ["t8"]) + s_reinit(t) + pick(s_inj(t), "preempt-reinit"))
prop("S12", kinds("EXECUTED_SHORT", "REPLY_READ", "REPLY_WRITE", "REPLY_EXC", "DATA", "NO_REPLY"),
     lambda t: s_axes(t, ALL_S, ["t1", "t8", "t100"] + (["t2000", "t65535"] if t == "thorough" else []), MIX)
     + [J("big-%s" % n, "data_slave", "axis=" + n, weight=9, **TAB(65535)) for n in ("single", "multi_adr", "read_qty")]
     + [J("n%d-%s" % (k, n), "data_slave", "axis=" + n, weight=2, **TAB(k)) for k in (2, 7, 9, 16, 17) for n in ("read_square", "multi_qty", "single")])

# ---------------------------------------------------------------- both roles
prop("C01", kinds("CRC", "FRAME", "REPLY_READ", "REPLY_WRITE", "REPLY_EXC", "REPLY_SPURIOUS", "NO_REPLY", "DATA", "READ_IGNORED", "WRITE_IGNORED", "EXC_IGNORED", "DELIVER_UNJUSTIFIED", "DELIVER_CALLBACK", "CONFIRM_CALLBACK", "EXC_UNJUSTIFIED"),
     lambda t: [J("function-" + a, "crc_enum", "axis=" + a, weight=6) for a in ("three", "length", "position")]
     + ([J("function-four-%d" % i, "crc_enum", "axis=four parts=8 part=%d" % i, weight=9) for i in range(8)] if t == "thorough" else [])
     + [J("function-asan", "crc_enum", "axis=length,position", "asan", weight=6)]
     + m_axes(t, ALL_M) + s_axes(t, "crc burst life", ["t8"] + (["t100"] if t == "thorough" else [])))


def both(tier):
    q = [
        J("read-write", "both_mc", "reqs=0,3 frames=0,4 s_frames=4,6", weight=9),
        J("short", "both_mc", "reqs=0 frames=0,2 s_frames=0,1,16", weight=9),
        J("order", "both_mc", "reqs=7 frames=0,4,5 s_frames=2,14,17 order=1", weight=4),
        J("errors", "both_mc", "reqs=6 frames=0,4 s_frames=4 fe=1 s_fe=1", weight=6),
        J("application", "both_mc", "reqs=0 frames=0 s_frames=4,6 s_app=1", weight=4),
        J("stray", "both_mc", "reqs=0 frames=0,5 noise=15 stray=1 s_frames=4 s_stray=1", weight=9, cap=2000000 if tier == "quick" else None),
        J("reinit", "both_mc", "reqs=0 frames=0,4 s_frames=4 reinit=1 s_reinit=1", weight=6),
        J("queue2", "both_mc", "reqs=0,1 frames=0 s_frames=5", weight=9, cap=700000 if tier == "quick" else None, **NTR(2, 2, 1)),
        J("mirror-read", "both_mc", "reqs=0 frames=0,4 s_frames=1,4 mirror=1", weight=4),
        J("mirror-write", "both_mc", "reqs=5 frames=0,4 s_frames=4,7 mirror=1", weight=4),
        J("mirror-bits", "both_mc", "reqs=1,6 frames=0 s_frames=2,7 mirror=1", weight=4),
        J("mirror-regs", "both_mc", "reqs=0,4 frames=0 s_frames=1,8 mirror=1", weight=4),
        J("preempt", "both_mc", "reqs=0 frames=0 s_frames=4 inj=1", "tsan", weight=9),
        J("asan", "both_mc", "reqs=0,3 frames=0,4 s_frames=4,6", "asan", weight=9, cap=25000 if tier == "quick" else 400000),
    ]
    if tier == "thorough":
        q += [
            J("preempt-write", "both_mc", "reqs=3 frames=0,4 s_frames=1 inj=1", "tsan", weight=9),
            J("preempt-bad", "both_mc", "reqs=0 frames=0,2 s_frames=4,16 inj=1", "tsan", weight=9),
            J("preempt-order", "both_mc", "reqs=1 frames=0,4 s_frames=6 order=1 inj=1", "tsan", weight=9),
            J("wide", "both_mc", "reqs=0,3 frames=0,1,2,4,12 s_frames=4,5,6,12,16", weight=9),
            J("wide2", "both_mc", "reqs=1,7 frames=0,4,8,10 s_frames=0,2,9,17 s_stray=1", weight=9),
        ]
    return q


prop("C02", "all", both)


def e2e(tier):
    c = NTR(1, 3, 1)
    q = [
        J("read-write", "e2e_mc", "reqs=0,1", weight=3, **c),
        J("registers", "e2e_mc", "reqs=1,12 faults=0,5", weight=3, **c),
        J("more", "e2e_mc", "reqs=11,2,6 faults=0,2,8", weight=4, **c),
        J("pair-a", "e2e_mc", "reqs=3,4 faults=0,1,4,6,9", weight=5, cap=700000 if tier == "quick" else None, **c),
        J("pair-b", "e2e_mc", "reqs=5,9 faults=0,3,7,10", weight=5, cap=700000 if tier == "quick" else None, **c),
        J("flip", "e2e_mc", "reqs=7,8 faults=0,2,5 flip=1", weight=5, cap=700000 if tier == "quick" else None, **c),
        J("flip-more", "e2e_mc", "reqs=9,10 faults=0,1 flip=1", weight=5, cap=700000 if tier == "quick" else None, **c),
        J("all-requests", "e2e_mc", "reqs=0,1,2,3,4,5,6,7,8,9,10,11,12 faults=0,1,5", weight=7, cap=900000 if tier == "quick" else None, **c),
        J("two-retries", "e2e_mc", "reqs=0,1 faults=0,1,2,4", weight=4, cap=700000 if tier == "quick" else None, **NTR(1, 4, 2)),
        J("queue2", "e2e_mc", "reqs=0,1 faults=0,2", weight=6, cap=700000 if tier == "quick" else None, **NTR(2, 3, 1)),
        J("order", "e2e_mc", "reqs=3,12 faults=0,2,6 order=1", weight=4, cap=700000 if tier == "quick" else None, **c),
        J("preempt", "e2e_mc", "reqs=0,1 faults=0 inj=1", "tsan", weight=5, **c),
        J("preempt-faults", "e2e_mc", "reqs=1,12 faults=0,5 inj=1", "tsan", weight=5, **c),
        J("extremes", "e2e_mc", "reqs=0,13,14 faults=0,2,5", weight=4, cap=700000 if tier == "quick" else None, **c),
        J("asan", "e2e_mc", "reqs=0,1,4,7 faults=0,1,4,8", "asan", weight=7, cap=25000 if tier == "quick" else 400000, **c),
    ]
    if tier == "thorough":
        q += [J("pair-%d-%d" % (a, b), "e2e_mc", "reqs=%d,%d" % (a, b), weight=9, **c) for a, b in ((0, 3), (2, 5), (4, 7), (6, 9), (8, 11), (10, 12))]
        q += [J("queue2-%d-%d" % (a, b), "e2e_mc", "reqs=%d,%d faults=0,2,5 flip=1" % (a, b), weight=9, cap=4000000, **NTR(2, 4, 2)) for a, b in ((0, 1), (3, 4), (7, 12))]
        q += [J("preempt-%d-%d" % (a, b), "e2e_mc", "reqs=%d,%d faults=0,1,5 inj=1" % (a, b), "tsan", weight=9, **c) for a, b in ((0, 1), (3, 4), (7, 12), (2, 9))]
        q += [J("preempt-twice", "e2e_mc", "reqs=0,1 faults=0 inj=2", "tsan", weight=9, **c)]
    return q


def e2e_axes(tier):
    q = []
    for n in "values qty adr id damage mixed neighbours life".split():
        q.append(J("data-" + n, "data_e2e", "axis=" + n, weight=5, **dict(NTR(1, 3, 1), **TAB(*MIX))))
        if n in ("qty", "life", "damage", "neighbours"):
            q.append(J("data-t2000-" + n, "data_e2e", "axis=" + n, weight=5, **dict(NTR(5, 1000 if n == "qty" else 10, 3), **TAB(2000))))
        if n in ("mixed", "damage", "life", "id"):
            q.append(J("data-r0-" + n, "data_e2e", "axis=" + n, weight=3, **dict(NTR(1, 2, 0), **TAB(8))))
    if tier == "thorough":
        q += [J("data-t65535-" + n, "data_e2e", "axis=" + n, weight=9, **dict(NTR(2, 3, 2), **TAB(65535))) for n in "values qty adr mixed".split()]
        q += [J("data-asan-" + n, "data_e2e", "axis=" + n, "asan", weight=9, **dict(NTR(2, 3, 2), **TAB(*MIX))) for n in "values qty damage mixed life".split()]
    return q


prop("C03", "all", lambda t: e2e(t) + e2e_axes(t))
prop("C04", kinds("INIT"), lambda t: [J("settings-" + a, "init_enum", "axis=" + a, **NTR(2, 2, 1)) for a in ("pairs", "baud", "id", "mode")] + [J("default-queue", "init_enum", "axis=pairs,mode", **NTR(5, 1000, 3))] + [J("asan", "init_enum", "axis=pairs,id,mode", "asan", **NTR(2, 2, 1))])


def builds(t, flavours):
    q = []
    for f in flavours:
        q += [J("%s-data-%s" % (f, n), "data_master", "axis=" + n, f, weight=4) for n in "adr qty read_values write_values resp_fn resp_len resp_bc exception id failures outcomes neighbours idle traffic life".split()]
        q += [J("%s5-data-%s" % (f, n), "data_master", "axis=" + n, f, weight=4, **NTR(5, 10 if n == "queue" else 1000, 3)) for n in "failures outcomes idle life queue".split()]
        q += [J("%s-%s" % (f, n), "data_slave", "axis=" + n, f, weight=4, **TAB(100)) for n in "read_qty single multi_qty multi_bc function short address values patterns life errors neighbours idle".split()]
        q += [J("%s-t8-%s" % (f, n), "data_slave", "axis=" + n, f, weight=4, **TAB(8)) for n in "registration values triples".split()]
        q += [J("%s-t2000-%s" % (f, n), "data_slave", "axis=" + n, f, weight=5, **TAB(2000)) for n in "read_qty read_adr multi_qty".split()]
        q += [J(f + "-crc-" + a, "crc_enum", "axis=" + a, f, weight=5) for a in ("three", "length")]
        q += [J(f + "-init", "init_enum", "axis=pairs,id,mode", f),
              J(f + "-read", "master_mc", "reqs=0 frames=0,1,2,4,10,12", f), J(f + "-write", "master_mc", "reqs=3 frames=0,2,4,12", f),
              J(f + "-slave", "slave_mc", "frames=0,1,4,6,9,16", f), J(f + "-e2e-values", "data_e2e", "axis=values,damage", f, **dict(NTR(1, 3, 1), **TAB(*MIX))), J(f + "-e2e", "e2e_mc", "reqs=1,12 faults=0,5", f, **NTR(1, 3, 1))]
    if t == "thorough":
        for f in flavours:
            q += [dict(j, name=f + "-all-" + j["name"], flavour=f) for j in m_base("quick") + s_base("quick") if j["flavour"] == "plain"]
    return q


prop("C05", "all", lambda t: builds(t, ("short", "packed", "clang", "lto")))


def int16(t):
    q = builds(t, ("int16",))
    for n in (1, 8, 100, 2000):
        q += [J("t%d-%s" % (n, a), "data_slave", "axis=" + a, "int16", weight=5, **TAB(n)) for a in "read_qty read_adr read_square multi_adr multi_qty".split() if n < 2000 or a != "read_square"]
    q += [J("e2e-" + a, "data_e2e", "axis=" + a, "int16", weight=3, **dict(NTR(1, 3, 1), **TAB(*MIX))) for a in "adr qty mixed life".split()]
    q += [J("both", "both_mc", "reqs=0,3 frames=0,4 s_frames=4,6", "int16", weight=6, cap=300000 if t == "quick" else None)]
    if t == "thorough":
        q += [J("t2000-" + a, "data_slave", "axis=" + a, "int16", weight=9, **TAB(2000)) for a in "read_square qty_pairs".split()]
    return q


prop("C07", "all", int16)


def board(tier):
    """the library with the drivers of the examples, character by character"""
    c = NTR(1, 3, 0)
    r1 = NTR(1, 3, 1)
    cap = 400000 if tier == "quick" else 8000000
    # Four defects of the example drivers are known findings (known_findings.txt). They are not repaired in /repo, so the jobs in which
    # they would strike run on copies of the drivers with the repairs of board/repairs (where these still apply); all other jobs take the
    # drivers as they are. Each known-... job leaves one repair out and meets its finding.
    FIRST, SLOW, ECHO, AGAIN = "stray-before-first-request", "below-2400-baud", "receive-as-transmitted", "settings-again"
    q = [
        J("known-first", "board_mc", "reqs=0 faults=0 strays=1", repairs=(SLOW, ECHO, AGAIN), **c),
        J("known-slow", "board_mc", "reqs=0 chars=1 baud=1200 parity=0", repairs=(FIRST, ECHO, AGAIN), **c),
        J("known-echo", "board_mc", "reqs=0 faults=0 strays=1 inj=1", "tsan", repairs=(FIRST, SLOW, AGAIN), **c),
        J("known-again", "board_mc", "settings=1 reqs=0", repairs=(FIRST, SLOW, ECHO), **c),
        J("settings", "board_mc", "settings=1 reqs=0", repairs=(SLOW, AGAIN), **c),
        J("lost-read", "board_mc", "reqs=0 chars=1", weight=5, **c),
        J("lost-write", "board_mc", "reqs=1 chars=1", weight=6, **c),
        J("damaged-read", "board_mc", "reqs=0 chars=2", weight=5, **c),
        J("damaged-write", "board_mc", "reqs=12 chars=3", weight=5, cap=cap, **c),
        J("inverted", "board_mc", "reqs=0 chars=4 flip=1", weight=6, cap=cap, **c),
        J("requests-a", "board_mc", "reqs=0,1,2,3,4,5 faults=0 flip=1", weight=6, cap=cap, **c),
        J("requests-b", "board_mc", "reqs=6,7,8,9,10,11,12 faults=0", weight=6, cap=cap, **c),
        J("stray", "board_mc", "reqs=0 faults=0 strays=2 reinit=1", weight=6, cap=cap, repairs=(FIRST,), **c),
        J("stray-write", "board_mc", "reqs=1,12 faults=0 strays=1", weight=6, cap=cap, repairs=(FIRST,), **c),
        J("slow-program", "board_mc", "reqs=0 chars=1 lag=3", weight=7, cap=cap, **c),
        J("retry", "board_mc", "reqs=0 chars=1", weight=7, cap=cap, **r1),
        J("queue2", "board_mc", "reqs=0,12 faults=0", weight=6, cap=cap, **NTR(2, 3, 0)),
        J("b1200", "board_mc", "reqs=0 chars=1 baud=1200 parity=0", weight=5, repairs=(SLOW,), **c),
        J("b19200", "board_mc", "reqs=12 chars=1 baud=19200 parity=2 order=1", weight=5, cap=cap, **c),
        J("b38400", "board_mc", "reqs=0 chars=1 baud=38400", weight=5, **c),
        J("b115200", "board_mc", "reqs=0 chars=1 baud=115200 parity=2", weight=6, cap=cap, **c),
        J("preempt", "board_mc", "reqs=0 chars=1 inj=1", "tsan", weight=9, cap=cap, **c),
        J("preempt-stray", "board_mc", "reqs=0 faults=0 strays=1 inj=1", "tsan", weight=7, cap=cap, repairs=(FIRST, ECHO), **c),
        J("preempt-write", "board_mc", "reqs=1 faults=0 inj=1 lag=2", "tsan", weight=7, cap=cap, **c),
        J("asan", "board_mc", "reqs=0,4 faults=0 strays=1", "asan", weight=8, cap=60000, repairs=(FIRST,), **c),
        J("defaults", "board_mc", "reqs=0 faults=0 strays=1", weight=6, cap=cap, repairs=(FIRST,), **NTR(5, 20, 3)),
    ]
    if tier == "thorough":
        q += [J("pair-%d-%d" % (a, b), "board_mc", "reqs=%d,%d chars=1,2 flip=1" % (a, b), weight=9, cap=5000000, **c) for a, b in ((0, 3), (1, 12), (2, 5), (4, 7), (6, 9), (8, 11), (10, 12))]
        q += [J("two-faults", "board_mc", "reqs=0 chars=1,2 faults=2", weight=9, cap=5000000, **c),
              J("two-faults-write", "board_mc", "reqs=1 chars=1,3 faults=2", weight=9, cap=5000000, **c),
              J("strays3", "board_mc", "reqs=0,12 faults=0 strays=3 reinit=1", weight=9, cap=5000000, repairs=(FIRST,), **c),
              J("fault-stray", "board_mc", "reqs=0 chars=1 strays=2", weight=9, cap=5000000, repairs=(FIRST,), **c),
              J("retries2", "board_mc", "reqs=0,12 chars=1,2", weight=9, cap=5000000, **NTR(1, 4, 2)),
              J("queue3", "board_mc", "reqs=0,12 faults=1 chars=1", weight=9, cap=5000000, **NTR(3, 3, 1)),
              J("slower", "board_mc", "reqs=0 chars=1,2 lag=5", weight=9, cap=5000000, **c),
              J("preempt-twice", "board_mc", "reqs=0 faults=0 strays=1 inj=2", "tsan", weight=9, cap=5000000, repairs=(FIRST, ECHO), **c),
              J("preempt-retry", "board_mc", "reqs=0 chars=1 inj=1", "tsan", weight=9, cap=5000000, **r1),
              J("preempt-damaged", "board_mc", "reqs=12 chars=2 inj=1 lag=2", "tsan", weight=9, cap=5000000, **c),
              J("preempt-queue2", "board_mc", "reqs=0,12 faults=0 inj=1", "tsan", weight=9, cap=5000000, **NTR(2, 3, 0)),
              J("asan-chars", "board_mc", "reqs=1 chars=4", "asan", weight=9, cap=500000, repairs=(FIRST,), **c)]
    return q


prop("C06", "all", board)


def tear(t):
    q = []
    for f in ("tearh", "tearl"):
        for to in (300, 256):
            q += [J("%s-timeout%d" % (f, to), "master_mc", "reqs=0 frames=0,4 inj=1 tstep=100", f, weight=3, **NTR(1, to, 0))]
        q += [J(f + "-timeout-retry", "master_mc", "reqs=0 frames=0,4 inj=1 tstep=599", f, weight=4, **NTR(1, 600, 1)),
              J(f + "-timeout-70000", "master_mc", "reqs=0 frames=4 inj=1 tstep=69999", f, weight=4, **NTR(1, 70000, 0)),
              J(f + "-timeout-write", "master_mc", "reqs=3 frames=0,5 inj=1 tstep=256", f, weight=3, **NTR(1, 1000, 1)),
              J(f + "-reads", "master_mc", "reqs=0,5 frames=0,4 inj=1", f, weight=7),
              J(f + "-errors", "master_mc", "reqs=0 frames=0,4 inj=1 fe=1", f, weight=6),
              J(f + "-writes", "master_mc", "reqs=3 frames=0,5,12 inj=1", f, weight=4),
              J(f + "-callback", "master_mc", "reqs=0 frames=0 inj=1 arm=1", f, weight=5),
              J(f + "-reinit", "master_mc", "reqs=0 frames=0,4 inj=1 reinit=1", f, weight=5),
              J(f + "-queue2", "master_mc", "reqs=0 frames=0 inj=1", f, weight=7, **NTR(2, 2, 1)),
              J(f + "-slave", "slave_mc", "frames=4,6 inj=1", f, weight=2),
              J(f + "-slave-reads", "slave_mc", "frames=1,5 inj=1 stray=1", f, weight=5),
              J(f + "-slave-errors", "slave_mc", "frames=4,16,17 inj=1 fe=1", f, weight=2),
              J(f + "-slave-twice", "slave_mc", "frames=4,6 inj=2", f, weight=5),
              J(f + "-both", "both_mc", "reqs=0 frames=0,4 s_frames=4 inj=1", f, weight=7),
              J(f + "-e2e", "e2e_mc", "reqs=0,1 faults=0 inj=1", f, weight=7, **NTR(1, 3, 1)),
              J(f + "-data", "data_e2e", "axis=values,life", f, weight=3, **dict(NTR(1, 3, 1), **TAB(*MIX)))]
        if t == "thorough":
            q += [dict(j, name=f + "-all-" + j["name"], flavour=f) for j in m_inj("quick") + s_inj("quick")]
            q += [J(f + "-timeout-queue2", "master_mc", "reqs=0 frames=0,4 inj=1 tstep=150", f, weight=9, **NTR(2, 300, 1)),
                  J(f + "-timeout-twice", "master_mc", "reqs=0 frames=0,4 inj=2 tstep=299", f, weight=9, **NTR(1, 300, 1)),
                  J(f + "-timeout-fine", "master_mc", "reqs=0 frames=0,4 inj=1 tstep=10", f, weight=9, **NTR(1, 300, 1))]
    return q


prop("C08", "all", tear)


def insn(t):
    q = []
    for f in ("insnlto", "insnos", "insnclang"):
        q += [J(f + "-read", "master_mc", "reqs=0 frames=0,4 inj=1", f, weight=4, **NTR(1, 2, 1)),
              J(f + "-write", "master_mc", "reqs=3 frames=0,2 inj=1", f, weight=4, **NTR(1, 2, 1)),
              J(f + "-errors", "master_mc", "reqs=0 frames=4 inj=1 fe=1", f, weight=4, **NTR(1, 2, 0)),
              J(f + "-queue2", "master_mc", "reqs=0 frames=0 inj=1", f, weight=9, sec=150 if t == "quick" else None, **NTR(2, 2, 0)),
              J(f + "-reinit", "master_mc", "reqs=0 frames=0 inj=1 reinit=1", f, weight=4, **NTR(1, 2, 0)),
              J(f + "-slave", "slave_mc", "frames=4,6 inj=1", f, weight=3),
              J(f + "-slave-reads", "slave_mc", "frames=1,5 inj=1", f, weight=4),
              J(f + "-slave-errors", "slave_mc", "frames=4,16,17 inj=1 fe=1", f, weight=3),
              J(f + "-e2e", "e2e_mc", "reqs=0,1 faults=0 inj=1", f, weight=6, **NTR(1, 3, 1)),
              J(f + "-data", "data_e2e", "axis=values,life", f, weight=3, **dict(NTR(1, 3, 1), **TAB(*MIX)))]
        if t == "thorough":
            q += [J(f + "-both", "both_mc", "reqs=0 frames=0 s_frames=4 inj=1", f, weight=9, **NTR(1, 2, 1)),
                  J(f + "-both-noise", "both_mc", "reqs=0 frames=0,4 s_frames=4 inj=1", f, weight=9, **NTR(1, 2, 1)),
                  J(f + "-queue2-retry", "master_mc", "reqs=0,1 frames=0,4 inj=1", f, weight=9, **NTR(2, 2, 1)),
                  J(f + "-mixed", "master_mc", "reqs=0,3 frames=0,2,4,8 inj=1", f, weight=9, **NTR(1, 2, 0)),
                  J(f + "-slave-stray", "slave_mc", "frames=1,5 inj=1 stray=1", f, weight=9),
                  J(f + "-e2e-faults", "e2e_mc", "reqs=1,12 faults=0,5 inj=1", f, weight=9, **NTR(1, 3, 1))]
    return q


prop("C09", "all", insn)
