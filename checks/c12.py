#!/usr/bin/env python3
import sys, shutil; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
def body(c):
    san = ["-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
    env = {"ASAN_OPTIONS": "detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:abort_on_error=0", "UBSAN_OPTIONS": "print_stacktrace=0"}
    ok = c.per_alg("mem.cpp", ALGS, opt="-O1", flags=san, std="c++17", tag="_san17", env=env)
    ok |= c.per_alg("mem.cpp", ALGS, opt="-O1", flags=san + ["-fsanitize=local-bounds"], cxx="clang++", std="c++20", tag="_san20", env=env)
    ok |= c.per_alg("mem.cpp", ALGS, opt="-O2", defs=["GUARD"], tag="_guard")
    if c.thorough:
        for std in ("c++14", "c++23"): ok |= c.per_alg("mem.cpp", ALGS, opt="-O1", flags=san, std=std, tag="_san" + std, env=env)
    n = c.stats.get("traces", 0)
    if shutil.which("valgrind") and c.thorough:
        jobs, runs = [], []
        for a in ALGS:
            cmd = c.compile_cmd("mem.cpp", c.path(a + "_vg"), defs=["ALG_" + a], opt="-O1", flags=["-g1"]); jobs.append((a, cmd))
            runs.append(dict(name=a + "_vg", prog=a, exe="valgrind", args=["-q", "--error-exitcode=9", "--leak-check=full", c.path(a + "_vg"), "--small", 1], build=[cmd]))
        good = set(c.build_or_violation(jobs)); c.run_harness([r for r in runs if r["prog"] in good])
        c.extra["traces_under_valgrind"] = c.stats.get("traces", 0) - n
    c.assumptions += ["absence of undefined behaviour is as observed by AddressSanitizer, UBSan, library assertions, page protection and memory pre-filling"]
    return dict(states=c.stats.get("states", 0), transitions=c.stats.get("transitions", 0), traces_validated_against_impl=c.stats.get("traces", 0),
                bounds="every length to %d blocks; every buffer fill x boundary lengths; all sequences of 9-11 operations to depth %d; three monitors" % ((8, 4) if c.thorough else (3, 3)),
                builds=len(ok), exhaustive=True)
if __name__ == "__main__": main("C12", "model_checking", body)
