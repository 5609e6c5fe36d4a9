#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
def body(c):
    if c.thorough:
        ok = set()
        for tag, kw in (("", {}), (".clang", dict(cxx="clang++")), (".o0", dict(opt="-O0")), (".cpp20", dict(std="c++20"))): ok |= set(c.per_alg("ambient.cpp", ALGS, tag=tag, flags=["-pthread"], **dict(dict(opt="-O2"), **kw)))
    else: ok = c.per_alg("ambient.cpp", ALGS, opt="-O1", flags=["-pthread"])
    for k in ("ambient_states", "thread_assignments", "after_main"): c.extra[k] = c.stats.get(k, 0)
    c.assumptions += ["enabled floating point traps: division by zero, invalid, overflow (not inexact)", "locales are the standard's facets with digit grouping and C.utf8; other national locales are not installed"]
    n = c.stats.get("evaluations", 0)
    return dict(evaluations=n, distinct_nontrivial=c.stats.get("ambient_states", 0) + c.stats.get("thread_assignments", 0), rule="a case is one class under one combination of ambient state (all of them differ from the start state but one), or one assignment of the calls on an object to threads",
                algorithms=len(ok), exhaustive=True, bounds="4 rounding modes x denormals x (traps, errno, filled heap) x 3 global locales x 2 C locales x main or small thread, each over the histories of C14; every assignment of 8 calls to 2 threads, ending or not; static destruction, used before or not")
if __name__ == "__main__": main("C22", "exploration", body)
