#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
def body(c):
    ok = c.per_alg("history.cpp", ALGS)
    # length counters at every power of two, then reset()
    ok2 = c.per_alg("long.cpp", [a for a in FIXED if not a.startswith(("crc", "fnv", "md2", "sha3"))], opt="-O3", defs=["NDEBUG"], args=["--mode", "reset"], tag="_cnt")
    c.extra["counters_located"] = c.stats.get("counters_located", 0)
    c.assumptions += ["oracle: a newly constructed object of the same class given the same data in the plainest way (whether that is the right digest is C01, C04-C06)"]
    return dict(states=c.stats.get("states", 0), transitions=c.stats.get("transitions", 0), traces_validated_against_impl=c.stats.get("traces", 0),
                bounds="all legal histories: 11 operations to depth %d, 6 operations to depth %d, long messages to depth %d, every buffer fill left behind; each followed by reset() and every probe message; and the length counter near every power of two, then reset()" % ((5, 8, 5) if c.thorough else (4, 6, 3)),
                algorithms=len(ok), exhaustive=True)
if __name__ == "__main__": main("C07", "model_checking", body)
