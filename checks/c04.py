#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
def body(c):
    ok = c.per_alg("xof.cpp", ["shake_128", "shake_256", "cshake_128", "cshake_256"], parts=4)
    c.assumptions += ["reference implementations in ref/"]
    return dict(states=c.stats.get("states", 0), transitions=c.stats.get("transitions", 0), traces_validated_against_impl=c.stats.get("traces", 0),
                bounds="every output length to 3 (6) rates x boundary messages; every message length to 4 (8) rates x boundary outputs; every name/customization length to 2 (4) rates; lengths around every length-encoding step", algorithms=len(ok), exhaustive=True)
if __name__ == "__main__": main("C04", "model_checking", body)
