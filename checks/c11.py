#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
def body(c):
    ok = c.per_alg("overload.cpp", ALGS, opt="-O1")
    for std in ("c++14", "c++20", "c++23") if c.thorough else ("c++14", "c++20"): c.per_alg("overload.cpp", ALGS, opt="-O1", std=std, tag="_" + std)
    c.assumptions += ["oracle: a newly constructed object of the same class given the same data in the plainest way (whether that is the right digest is C01, C04-C06)"]
    n = c.stats.get("evaluations", 0)
    return dict(evaluations=n, distinct_nontrivial=n, rule="one evaluation = one (overload, element type, element count, bytes already buffered) or (alignment, length, bytes already buffered) combination, all different, compared with the reference digest",
                algorithms=len(ok), exhaustive=True)
if __name__ == "__main__": main("C11", "exploration", body)
