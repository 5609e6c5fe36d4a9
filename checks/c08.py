#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
def body(c):
    ok = c.per_alg("objects.cpp", ALGS)
    c.assumptions += ["oracle: a newly constructed object of the same class given the same data in the plainest way (whether that is the right digest is C01, C04-C06)", "moved-from objects are only destroyed or assigned to"]
    return dict(states=c.stats.get("states", 0), transitions=c.stats.get("transitions", 0), traces_validated_against_impl=c.stats.get("traces", 0),
                bounds="2 objects: all sequences from fresh objects (depth %s) and from all pairs of prepared states (depth %s); 3 objects (depth %s)" % (("5; 4 with parameters", "4; 3 with parameters", "4") if c.thorough else ("4; 3 with parameters", "3; 2 with parameters", "2-3")),
                algorithms=len(ok), exhaustive=True)
if __name__ == "__main__": main("C08", "model_checking", body)
