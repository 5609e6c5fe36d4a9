#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
from vlib import _run
MD2_BOX = 100
def body(c):
    want = {}
    for l in open(os.path.join(VERIF, "ref", "golden_long.txt")):
        f = l.split()
        if len(f) == 3: want[(f[0], int(f[1]))] = f[2]
    jobs, runs, boxed = [], [], []
    cost = ["md2", "has_160", "whirlpool", "tuple_hash_256", "sha3_512", "cshake_256", "shake_256"]
    order = sorted(ALGS, key=lambda a: (cost.index(a) if a in cost else 50, a))
    for a in order:
        cmd = c.compile_cmd("long.cpp", c.path(a), defs=["ALG_" + a, "NDEBUG"], opt="-O3"); jobs.append((a, cmd))
        for v in ((0, 1) if c.thorough else (0,)):
            if (a, v) not in want: c.notes.append("no reference digest for %s variant %d" % (a, v)); continue
            r = dict(name="%s real%d" % (a, v), prog=a, exe=c.path(a), args=["--mode", "real", "--variant", v, "--want", want[(a, v)]], build=[cmd])
            (boxed if a == "md2" and not c.thorough else runs).append(r)
        if a in FIXED: runs.append(dict(name=a + " inject", prog=a, exe=c.path(a), args=["--mode", "inject", "--thorough", int(c.thorough)], build=[cmd]))
        runs.append(dict(name=a + " reach", prog=a, exe=c.path(a), args=["--mode", "reach", "--thorough", int(c.thorough)], build=[cmd]))
    ok = set(c.build_or_violation(jobs))
    import threading
    def box():      # MD2 needs about eight minutes: in the quick check it gets a time box, after which it says nothing
        for r in boxed:
            if r["prog"] not in ok: continue
            rc, o, e, to = _run([r["exe"]] + [str(x) for x in r["args"]], MD2_BOX, cwd=c.scratch)
            if not to and (rc or "DONE" not in o): boxres.append((r, o, e))
            elif to: c.notes.append("md2: real long message did not finish in %d s (thorough tier only); its digest does not depend on a length counter" % MD2_BOX)
    boxres = []; t = threading.Thread(target=box); t.start()
    c.run_harness([r for r in runs if r["prog"] in ok]); t.join()
    for r, o, e in boxres: c.violation("%s: %s" % (r["name"], (o + e)[:300]), c.script(r["build"] + [[r["exe"]] + [str(x) for x in r["args"]]]))
    c.assumptions += ["huge calls: a call that has not tried to read past the first page cannot have hashed its data (every byte decides the digest); what it does after that is decided by the real long messages",
                      "reference digests of the long messages (ref/golden_long.txt) were computed by the independent reference (tools/gen_golden.py)",
                      "counter injection writes the length counter of a live object at a location found by observation and confirmed against a real long message; where it is not found, only real long messages decide"]
    return dict(states=c.stats.get("states", 0), transitions=c.stats.get("transitions", 0), traces_validated_against_impl=c.stats.get("traces", 0),
                real_long_messages=c.stats.get("real_long_messages", 0), counters_located=c.stats.get("counters_located", 0), high_words_located=c.stats.get("high_words_located", 0),
                bounds="one message of 2^32+B+18 bytes (one call of more than 2^32 bytes)%s per class; the counter 0-4 blocks below every power of two from 2^12 to the specified limit x %s tail lengths" % (" and one of 1.5*2^32+8" if c.thorough else "", "all to 6 blocks" if c.thorough else "13") + "; one call of 2^29..2^46 bytes and up to %d blocks more, after every buffer fill" % (4 if c.thorough else 2),
                huge_calls=c.stats.get("huge_calls", 0), exhaustive=True)
if __name__ == "__main__": main("C03", "model_checking", body)
