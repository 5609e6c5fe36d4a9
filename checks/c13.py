#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
WRAP = "__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_once pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock".split()
def body(c):
    conc = os.path.join(VERIF, "harness", "conc")
    rt = c.path("rt.o"); rtcmd = ["g++", "-std=c++17", "-O2", "-w", "-c", os.path.join(conc, "rt.cpp"), "-o", rt]
    r = c.build_all([("rt", rtcmd)])
    if not r["rt"][0]: raise Fatal("runtime does not build: " + r["rt"][1][-500:])
    jobs, runs = [], []
    stds = ["c++17", "c++20", "c++14"] if c.thorough else ["c++17"]
    for std in stds:
        for i, a in enumerate(ALGS):
            n = a + "_" + std.replace("+", "p")
            comp = c.compile_cmd(os.path.join(conc, "conc.cpp"), c.path(n + ".o"), defs=["ALG_" + a], cxx="clang++", std=std, opt="-O1", flags=["-g1", "-fsanitize=thread", "-c"], incs=[conc])
            link = ["g++", c.path(n + ".o"), rt] + ["-Wl,--wrap=" + w for w in WRAP] + ["-lpthread", "-o", c.path(n)]
            jobs.append((n, ["bash", "-c", shlex.join(comp) + " && " + shlex.join(link)]))
            runs.append(dict(name=n, exe=c.path(n), args=["--thorough", int(c.thorough)], build=[rtcmd, comp, link]))
    ok = set(c.build_or_violation(jobs))
    c.run_harness([r for r in runs if r["name"] in ok])
    c.assumptions += ["threads interleave between operations and at synchronisation operations; accesses in between are covered by happens-before race detection in every explored schedule (data-race-free code has sequentially consistent behaviour)",
                      "oracle: the same operations done by one thread alone in another process",
                      "memory accesses inside the precompiled standard library are not instrumented"]
    return dict(states=c.stats.get("schedules", 0), transitions=c.stats.get("accesses_monitored", 0), traces_validated_against_impl=c.stats.get("schedules", 0),
                schedules=c.stats.get("schedules", 0), accesses_monitored=c.stats.get("accesses_monitored", 0), sync_operations=c.stats.get("sync_operations", 0),
                scenarios_exhausted=c.stats.get("scenarios_exhausted", 0), scenarios_capped=c.stats.get("scenarios_capped", 0),
                bounds="per class: 2 threads x 4-5 operations and 3 threads x 3 operations: every interleaving of operations; with synchronisation operations as well: preemption bound %s; each execution starts in a process in which the class has not been used" % ("4 (3 for the longest scenario)" if c.thorough else "2 (1 for the longest scenario)"),
                programs=len(ok), exhaustive=True)
if __name__ == "__main__": main("C13", "model_checking", body)
