#!/usr/bin/env python3
"""Regenerates ref/golden_long.txt: reference digests of the messages of harness/long.cpp (hours of CPU; run once)."""
import sys, os, subprocess, tempfile, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib"); import vlib
from concurrent.futures import ThreadPoolExecutor
d = tempfile.mkdtemp(); out = V + "/ref/golden_long.txt"
have = {}
if os.path.exists(out):
    for l in open(out):
        f = l.split()
        if len(f) == 3: have[(f[0], f[1])] = f[2]
def one(av):
    a, v = av
    exe = "%s/%s" % (d, a)
    if not os.path.exists(exe): subprocess.check_call(["g++", "-std=c++17", "-O3", "-w", "-I" + V, "-I" + V + "/harness", "-I/repo/src", "-DALG_" + a, V + "/harness/long.cpp", "-o", exe])
    r = subprocess.check_output([exe, "--mode", "golden", "--variant", v]).decode().split()
    return (a, v), r[2]
for tup in (False, True):
    for v in ("0", "1"):
        todo = [(a, v) for a in sorted(vlib.ALGS, key=lambda a: a != "md2") if a.startswith("tuple") == tup and (a, v) not in have]
        with ThreadPoolExecutor(1 if tup else 7) as ex:
            for k, h in ex.map(one, todo):
                have[k] = h
                with open(out, "w") as f:
                    for (a, vv), h2 in sorted(have.items()): f.write("%s %s %s\n" % (a, vv, h2))
