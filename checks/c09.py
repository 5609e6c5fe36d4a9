#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
def body(c):
    ok = c.per_alg("access.cpp", ALGS, std="gnu++17")     # in the GNU dialect unsigned __int128 is one of the unsigned integer types
    for k in ("adjacent_pairs", "adjacent_pairs_seen"): c.extra[k] = c.stats.get(k, 0)
    c.extra["digest_positions"] = c.stats.get("digest_positions", 0)
    c.extra["digest_positions_with_all_256_values_seen"] = c.stats.get("digest_positions_with_all_256_values_seen", 0)
    return dict(states=c.stats.get("states", 0), transitions=c.stats.get("transitions", 0), traces_validated_against_impl=c.stats.get("traces", 0),
                bounds="all sequences of 16 read/reuse/copy operations to depth %d; digests of %d messages per parameter set; 2^%d digests per class of at most 64 bytes, covering adjacent byte pairs" % ((5, 60000, 23) if c.thorough else (4, 6000, 20)),
                algorithms=len(ok), exhaustive=True)
if __name__ == "__main__": main("C09", "model_checking", body)
