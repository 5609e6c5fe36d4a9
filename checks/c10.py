#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
def body(c):
    ok = c.per_alg("equal.cpp", ALGS)
    for k in ("collision_pairs", "state_bits_flipped", "bit_sets_flipped"): c.extra[k] = c.stats.get(k, 0)
    c.assumptions += ["objects whose digests are equal but whose inputs differ may compare either way",
                      "a single-bit state difference counts only where digest and equality are computed from the same state"]
    return dict(states=c.stats.get("states", 0), transitions=c.stats.get("transitions", 0), traces_validated_against_impl=c.stats.get("traces", 0),
                bounds="all ordered pairs of (message family x 8 histories); all 32-bit word collisions among 2^%d digests; all single-bit differences of the object representation, all pairs of the digest's bits, all triples at the same place of different words" % (20 if c.thorough else 17),
                algorithms=len(ok), exhaustive=True)
if __name__ == "__main__": main("C10", "model_checking", body)
