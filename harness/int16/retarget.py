#!/usr/bin/env python3
"""retarget.py INT16.ll HOST.ll OUT.ll

INT16.ll was compiled for a processor whose int has 16 bits, HOST.ll is the same source compiled for the host.  OUT.ll has
the arithmetic of the former and the memory layout (pointers of 64 bits) of the latter.  Sizes of objects that contain
pointers, which the front end has already turned into numbers, are taken from HOST.ll; where that is not possible: exit 3.
"""
import re
import sys

MEM = re.compile(r"@(?:v16_|llvm\.)mem(?:set|cpy|move|cmp)[\w.]*\(.*")


def functions(text):
    name, res = None, {}
    for i, line in enumerate(text):
        m = re.match(r"define .*@([\w.$]+)\(", line)
        if m:
            name = m.group(1)
            res[name] = []
        elif line.startswith("}"):
            name = None
        elif name and " call " in " " + line and MEM.search(line):
            res[name].append(i)
    return res


a = open(sys.argv[1]).read().split("\n")
b = open(sys.argv[2]).read().split("\n")
fa, fb = functions(a), functions(b)
LEN = re.compile(r"(i16|i64|i32)( noundef)? (\d+)(?=(, i1 \w+)?\)\s*(#\d+)?$)")
for f, la in fa.items():
    lb = fb.get(f)
    if la and (lb is None or len(la) != len(lb)):
        sys.exit(3)
    for x, y in zip(la, lb or []):
        mx, my = LEN.search(a[x]), LEN.search(b[y])
        if (mx is None) != (my is None):
            sys.exit(3)
        if mx:
            a[x] = a[x][:mx.start(3)] + my.group(3) + a[x][mx.end(3):]
head = {k: next(l for l in b if l.startswith("target " + k)) for k in ("datalayout", "triple")}
out = []
for l in a:
    for k in head:
        if l.startswith("target " + k):
            l = head[k]
    out.append(l)
open(sys.argv[3], "w").write("\n".join(out))
