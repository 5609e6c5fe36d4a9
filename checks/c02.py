#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
def body(c):
    jobs, runs = [], []
    for a in [x for x in ALGS if not x.startswith("tuple")]:
        cmd = c.compile_cmd("stream.cpp", c.path(a), defs=["ALG_" + a], opt="-O2")
        jobs.append((a, cmd)); runs.append(dict(name=a, exe=c.path(a), args=["--thorough", int(c.thorough)], build=[cmd]))
    ok = set(c.build_or_violation(jobs))
    c.run_harness([r for r in runs if r["name"] in ok])
    c.assumptions += ["oracle: a newly constructed object of the same class given the same data in the plainest way (whether that is the right digest is C01, C04-C06)"]
    return dict(states=c.stats.get("states", 0), transitions=c.stats.get("transitions", 0), traces_validated_against_impl=c.stats.get("traces", 0),
                bounds="all (buffer fill, piece length) pairs; all sequences of 11 boundary pieces to depth %d; all compositions of %d bytes around block boundaries; every constant piece size; one piece of 2^10..2^%d bytes (and -1, +1; and 2^k blocks) at fills 0, 1, B-1; up to %d calls in one message" % ((6, 16, 26, 1 << 20) if c.thorough else (4, 12, 20, 70000)),
                big_pieces=c.stats.get("big_pieces", 0), calls_in_many_call_messages=c.stats.get("many_calls", 0),
                algorithms=len(ok), exhaustive=True)
if __name__ == "__main__": main("C02", "model_checking", body)
