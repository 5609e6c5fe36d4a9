#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
def body(c):
    jobs, runs = [], []
    for a in FIXED:
        cmd = c.compile_cmd("digest.cpp", c.path(a), defs=["ALG_" + a], opt="-O2")
        jobs.append((a, cmd)); runs.append(dict(name=a, exe=c.path(a), args=["--thorough", int(c.thorough)], build=[cmd]))
    ok = set(c.build_or_violation(jobs))
    c.run_harness([r for r in runs if r["name"] in ok])
    c.assumptions += ["reference implementations in ref/ (constants regenerated from their published derivations; validated against hashlib, OpenSSL, libgcrypt, zlib and published vectors by ref/validate.py, run by setup_cmd)"]
    return dict(evaluations=c.stats.get("evaluations", 0), distinct_nontrivial=c.stats.get("distinct_digests", 0),
                rule="one evaluation = one message hashed by the real class and by the reference; distinct = different reference digests (first 400000 per algorithm are counted); families: every length, every message of <=2 bytes, every byte value at every position, every pair of words at extreme values, long dense messages",
                algorithms=len(ok), exhaustive=True)
if __name__ == "__main__": main("C01", "exploration", body)
