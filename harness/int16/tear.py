#!/usr/bin/env python3
"""tear.py IN.ll OUT.ll high|low

Makes every access to memory that is not a local variable the accesses that a processor of 8 bits carries out: byte by
byte, the most (high) or least (low) significant byte first, each byte preceded by a call of the preemption point.
"""
import re
import sys

HIGH = sys.argv[3] == "high"
BITS = {"i1": 1, "i8": 8, "i16": 16, "i24": 24, "i32": 32, "i64": 64, "ptr": 64}
LOAD = re.compile(r"^(\s*)(%[\w.]+) = load (?:volatile )?(\S+), (ptr .*)$")
STORE = re.compile(r"^(\s*)store (?:volatile )?(.*)$")


def split(s):
    """at the commas outside parentheses and brackets"""
    res, d, cur = [], 0, ""
    for c in s:
        if c in "([{<":
            d += 1
        if c in ")]}>":
            d -= 1
        if c == "," and d == 0:
            res.append(cur.strip())
            cur = ""
        else:
            cur += c
    return res + [cur.strip()]


n = 0
out = []
local = set()
for l in open(sys.argv[1]).read().split("\n"):
    if l.startswith("define"):
        local = set()
    m = re.match(r"\s*(%[\w.]+) = alloca", l)
    if m:
        local.add(m.group(1))
    m = LOAD.match(l)
    if m:
        ind, res, ty, rest = m.groups()
        p = split(rest)[0][4:]
        if ty not in BITS or p in local:
            out.append(l)
            continue
        k = max(1, BITS[ty] // 8)
        n += 1
        if k == 1:
            out += ["%scall void @__tsan_read1(ptr %s)" % (ind, p), l]
            continue
        w = "i%d" % BITS[ty]
        acc = None
        for j, b in enumerate(reversed(range(k)) if HIGH else range(k)):
            t = "%%tear%d.%d" % (n, b)
            out.append("%s%s.p = getelementptr i8, ptr %s, i64 %d" % (ind, t, p, b))
            out.append("%scall void @__tsan_read1(ptr %s.p)" % (ind, t))
            out.append("%s%s.b = load i8, ptr %s.p, align 1" % (ind, t, t))
            out.append("%s%s.z = zext i8 %s.b to %s" % (ind, t, t, w))
            out.append("%s%s.s = shl %s %s.z, %d" % (ind, t, w, t, 8 * b))
            last = j == k - 1
            if acc:
                name = res if last and ty != "ptr" else t + ".o"
                out.append("%s%s = or %s %s, %s.s" % (ind, name, w, acc, t))
                acc = name
            else:
                acc = t + ".s"
        if ty == "ptr":
            out.append("%s%s = inttoptr %s %s to ptr" % (ind, res, w, acc))
        continue
    m = STORE.match(l)
    if m:
        ind, rest = m.groups()
        q = split(rest)
        ty, val = q[0].split(" ", 1)
        p = q[1][4:]
        if ty not in BITS or p in local:
            out.append(l)
            continue
        k = max(1, BITS[ty] // 8)
        n += 1
        if k == 1:
            out += ["%scall void @__tsan_write1(ptr %s)" % (ind, p), l]
            continue
        w = "i%d" % BITS[ty]
        v = "%%tear%d.v" % n
        out.append("%s%s = %s" % (ind, v, "ptrtoint ptr %s to i64" % val if ty == "ptr" else "or %s %s, 0" % (ty, val)))
        for b in reversed(range(k)) if HIGH else range(k):
            t = "%%tear%d.%d" % (n, b)
            out.append("%s%s.s = lshr %s %s, %d" % (ind, t, w, v, 8 * b))
            out.append("%s%s.b = trunc %s %s.s to i8" % (ind, t, w, t))
            out.append("%s%s.p = getelementptr i8, ptr %s, i64 %d" % (ind, t, p, b))
            out.append("%scall void @__tsan_write1(ptr %s.p)" % (ind, t))
            out.append("%sstore i8 %s.b, ptr %s.p, align 1" % (ind, t, t))
        continue
    out.append(l)
out += ["declare void @__tsan_read1(ptr)", "declare void @__tsan_write1(ptr)"]
open(sys.argv[2], "w").write("\n".join(out) + "\n")
