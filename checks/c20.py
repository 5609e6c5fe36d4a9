#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
def body(c):
    ok = c.per_alg("alloc.cpp", ALGS)
    san = ["-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    ok |= c.per_alg("alloc.cpp", ALGS, opt="-O1", flags=san, cxx="clang++", std="c++20", tag="_san", args=["--less", 1], env={"ASAN_OPTIONS": "detect_leaks=0"})
    if c.thorough:
        for std in ("c++14", "c++23"): ok |= c.per_alg("alloc.cpp", ALGS, opt="-O1", flags=["-faligned-new"], std=std, tag=std, args=["--less", 1])
    n = c.stats.get("failures_injected", 0)
    c.assumptions += ["oracle: a newly constructed object given the same data, and a count of live allocations"]
    return dict(evaluations=c.stats.get("traces", 0), distinct_nontrivial=n, rule="one evaluation = one history with one failing allocation (or none) and one recovery; a case is nontrivial when the failure was delivered",
                states=c.stats.get("states", 0), transitions=c.stats.get("transitions", 0), failures_injected=n, allocations_seen=c.stats.get("allocations_seen", 0),
                bounds="every legal history over 16 operations on two objects to depth %s; each allocation of the last operation in turn, alone and with all later ones; then destruction, reset or assignment" % ("8 (7 for further parameters)" if c.thorough else "6 (5)"), programs=len(ok), exhaustive=True)
if __name__ == "__main__": main("C20", "fault_enumeration", body)
