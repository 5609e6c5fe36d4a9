#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
def body(c):
    ok = c.per_alg("sip.cpp", ["siphash"])
    c.assumptions += ["reference implementations in ref/"]
    return dict(states=c.stats.get("states", 0), transitions=c.stats.get("transitions", 0), traces_validated_against_impl=c.stats.get("traces", 0),
                bounds="5 base keys: all lengths to 1100 (5000), all single-byte and all one- and two-bit key variations x 6 lengths, all values of 32 message bytes", algorithms=len(ok), exhaustive=True)
if __name__ == "__main__": main("C06", "model_checking", body)
