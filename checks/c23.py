#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from cli import *
import resource, hashlib
F, KC, KM = 2.5, 60000, 6 << 20        # growth factor; constants: basic blocks, bytes
def program(c):
    """the program over growing inputs and outputs: basic blocks executed and peak memory"""
    obj, exe = c.path("clicost.o"), c.path("hash_cost")
    subprocess.run(["gcc", "-O2", "-w", "-c", os.path.join(VERIF, "harness/cli/clicost.c"), "-o", obj], check=True)
    cmd = ["g++", "-std=c++14", "-O1", "-w", "-fsanitize-coverage=trace-pc", os.path.join(REPO, "src/program/main.cpp"), obj, "-o", exe]
    if not c.build_or_violation([("hash_cost", cmd)], what="hash program not usable"): return 0
    M = 1 << 20; sizes = [M, 2 * M, 4 * M, 8 * M] + ([16 * M, 32 * M, 64 * M] if c.thorough else [16 * M])
    files = {}
    for n in sizes:
        p = files[n] = c.path("in%d" % n)
        with open(p, "wb") as f: f.write((hashlib.shake_128(b"cost").digest(1 << 20) * (n >> 20)))
    def one(cmd, n, mode):
        out = c.path("cost%d" % next(_n)); env = dict(os.environ, COST_OUT=out)
        a = [exe] + cmd + [files[n] if mode == "file" else "-"]
        if mode == "pipe":
            r, w = os.pipe(); q = subprocess.Popen(["cat", files[n]], stdout=w); os.close(w); si = r
        else: si = os.open(files[n] if mode == "redirect" else "/dev/null", os.O_RDONLY); q = None
        p = subprocess.Popen(a, stdin=si, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env); os.close(si)
        st = p.wait()
        if q: q.wait()
        try: k, m = map(int, open(out).read().split())
        except (OSError, ValueError): k, m = None, 0
        return (st, k, m * 1024)
    def series(x):
        cmd, mode = x; tup = cmd[0].startswith("-tuple"); r = []
        for n in sizes:
            if cmd[0] == "-md2" and n > 4 * M and not c.thorough: break
            r.append((n, one(cmd, n, mode)))
        what = None
        for (n, (st, k, m)), (n2, (st2, k2, m2)) in zip(r, r[1:]):
            if st or st2 or k is None or k2 is None: what = "status %d for %d bytes, %d for %d" % (st, n, st2, n2); break
            if k2 > F * k + KC: what = "%d steps for %d bytes, but %d for %d" % (k, n, k2, n2); break
            if m2 > r[0][1][2] + KM + (6 * n2 if tup else 0): what = "%d MB of memory for %d MB of input, %d MB for 1 MB" % (m2 >> 20, n2 >> 20, r[0][1][2] >> 20); break
        return x, len(r), what
    def outputs(opt):
        base = one([opt, "1"] + (["x"] if opt[1] in "ct" else []), M, "file"); r = []
        for e in range(12, 22 if c.thorough else 20): r.append((1 << e, one([opt, str(1 << e)] + (["x"] if opt[1] in "ct" else []), M, "file")))
        what = None
        for (n, (st, k, m)), (n2, (st2, k2, m2)) in zip(r, r[1:]):
            if st or st2 or k is None or k2 is None: what = "status %d" % (st or st2); break
            # the input costs the same each time
            if base[1] is None or k2 - base[1] > F * max(0, k - base[1]) + KC: what = "%d steps for a digest of %d bytes, but %d for %d" % (k, n, k2, n2); break
            if m2 > base[2] + KM + 16 * n2: what = "%d MB of memory for a digest of %d bytes" % (m2 >> 20, n2); break
        return (opt,), len(r), what
    jobs = [(cmd, m) for cmd in commands() for m in ("file", "redirect", "pipe")]
    with ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(series, jobs)) + list(ex.map(outputs, [x for x in LEN + CUST]))
    ev = 0
    for x, n, what in res:
        ev += n
        if what is None: continue
        again = series(x) if len(x) == 2 else outputs(x[0])
        if again[2] is None: raise Fatal("did not reproduce: %s %s" % (x, what))
        if len(x) == 2:
            rep = [shlex.join(["gcc", "-O2", "-w", "-c", os.path.join(VERIF, "harness/cli/clicost.c"), "-o", obj]), shlex.join(cmd)]
            cmds, mode = x
            rep.append("for m in %s; do head -c ${m}M /dev/urandom > $D/f; COST_OUT=$D/n %s$D/%s %s; echo \"$m MB: $(cat $D/n) steps\"; done; false" % (" ".join(str(n >> 20) for n in sizes), "", "hash_cost", " ".join(shlex.quote(z) for z in cmds) + (" $D/f" if mode == "file" else " - < $D/f")))
        else: rep = [shlex.join(["gcc", "-O2", "-w", "-c", os.path.join(VERIF, "harness/cli/clicost.c"), "-o", obj]), shlex.join(cmd), "head -c 1M /dev/urandom > $D/f; for e in 4096 65536 131072 262144 524288; do COST_OUT=$D/n $D/hash_cost %s $e %s $D/f > /dev/null; echo \"digest of $e bytes: $(cat $D/n) steps\"; done; false" % (x[0], "x" if x[0][1] in "ct" else "")]
        c.violation("hash %s: %s" % (" ".join(x[0] if len(x) == 2 else x) + (" (%s)" % x[1] if len(x) == 2 else ""), what), c.script(rep))
    return ev
_n = itertools.count()
def body(c):
    ok = c.per_alg("cost.cpp", ALGS, opt="-O1", flags=["-fsanitize-coverage=trace-pc", "-fno-builtin"])
    ev = program(c); c.extra["program_runs"] = ev; c.extra["library_measurements"] = c.stats.get("evaluations", 0)
    c.assumptions += ["cost = basic blocks executed (trace-pc) plus bytes copied / 8; memory = bytes requested from operator new, for the program the peak resident size",
                      "only growth is judged: equal work within a factor of 2.5 and a constant, twice the work within a factor of 2.5 and a constant; a cost growing like n log n is not told from a linear one"]
    n = c.stats.get("evaluations", 0) + ev
    return dict(evaluations=n, distinct_nontrivial=n, rule="a case is one measured call (kind of call, amount of data before it, size of its argument) or one run of the program (command, kind of input, size)",
                algorithms=len(ok), exhaustive=True,
                bounds="every buffer fill below 2 blocks x lengths to 4 blocks; 1 KiB to 2^%d bytes in pieces of 7 sizes; up to 2^%d calls on one object and 2^%d uses; digests, names, customizations to 2^%d bytes; the program with 1 to %d MB by file, redirection and pipe" % ((24, 21, 15, 22, 64) if c.thorough else (20, 18, 12, 19, 16)))
if __name__ == "__main__": main("C23", "exploration", body)
