#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
def body(c):
    ok = c.per_alg("tuple.cpp", ["tuple_hash_128", "tuple_hash_256"], parts=4)
    c.assumptions += ["reference implementations in ref/"]
    return dict(states=c.stats.get("states", 0), transitions=c.stats.get("transitions", 0), traces_validated_against_impl=c.stats.get("traces", 0),
                bounds="all tuples of 0-4 (5) elements over 10 boundary elements; all cuts of strings up to 7 (10) bytes into up to 6 (7) parts; 0-300 empty elements; up to 2^20+1 elements; every element, output and customization length to 3 (6) rates; encoding steps to 2^32 bits", algorithms=len(ok), exhaustive=True)
if __name__ == "__main__": main("C05", "model_checking", body)
