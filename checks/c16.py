#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
from vlib import _run
N = [h[:-2] for h in HEADERS]
def body(c):
    confs = [("g++", "c++17", "-O0"), ("clang++", "c++20", "-O0"), ("g++", "c++14", "-O0")]
    if c.thorough: confs += [("clang++", "c++17", "-O1"), ("g++", "c++20", "-O0"), ("clang++", "c++14", "-O0"), ("g++", "c++17", "-O2"), ("g++", "c++23", "-O0"), ("clang++", "c++23", "-O0")]
    progs = 0; cases = 0; distinct = set(); samples = []
    def tu(name, order, fn, ns):
        with open(c.path(name + ".cpp"), "w") as f:
            f.write("".join('#include "%s.h"\n' % h for h in order) + '#include "%s.h"\n' % order[0])
            f.write("".join("#define T_%s 1\n" % h for h in sorted(set(order))))
            f.write("#define INC_FN %s\n#define INC_NS %s\n#include \"inc_tests.hpp\"\n" % (fn, ns))
        return c.path(name + ".cpp")
    def mainsrc(name, fns):
        with open(c.path(name + ".cpp"), "w") as f:
            f.write("#include <cstdio>\n#include <string>\n" + "".join("std::string %s();\n" % x for x in fns) + "int main() {\n" + "".join('  printf("= %s\\n%%s", %s().c_str());\n' % (x, x) for x in fns) + "}\n")
        return c.path(name + ".cpp")
    def heredoc(p): return "cat > %s <<'__E'\n%s__E" % (p, open(p).read())
    # one translation unit per header alone; per header first, followed by the others in rotation, forwards and backwards
    units = {}
    for i, h in enumerate(N): units["a_" + h] = [h]
    fwd = range(len(N))
    for i in fwd: units["f_" + N[i]] = N[i:] + N[:i]
    for i in fwd: units["b_" + N[i]] = [N[i]] + [x for x in reversed(N) if x != N[i]]
    srcs = {u: tu(u, o, u, "n_" + u) for u, o in units.items()}
    mains = {u: mainsrc("main_" + u, [u]) for u in units}
    for ci, (x, s, o) in enumerate(confs):
        tag = "%d" % ci; cname = "%s -std=%s %s" % (x, s, o)
        use = [u for u in units if u.startswith("a_") or (u.startswith("f_") and (ci < 2 or c.thorough)) or (u.startswith("b_") and (ci == 0 or c.thorough))]
        objcmd = {u: c.compile_cmd(srcs[u], c.path("%s.%s.o" % (u, tag)), cxx=x, std=s, opt=o, flags=["-c"]) for u in use}
        r = c.build_all([(u, objcmd[u]) for u in sorted(use, key=lambda u: u.startswith("a_"))])
        for u in use:
            progs += 1; distinct.add((u, s))
            if not r[u][0]:
                lines = [l for l in r[u][1].splitlines() if "error" in l][:2]
                c.violation("headers %s in this order do not compile with %s: %s" % (" ".join(units[u][:3]) + ("" if len(units[u]) < 4 else " ..."), cname, " / ".join(lines)[:300]), c.script([heredoc(srcs[u]), objcmd[u]]))
        def single(u):
            exe = c.path("s_%s.%s" % (u, tag)); cmd = c.compile_cmd(mains[u], exe, cxx=x, std=s, opt=o, libs=[c.path("%s.%s.o" % (u, tag))])
            ok, e = c.build_all([(u, cmd)])[u]
            if not ok: return u, cmd, None, e
            rc, out, e, to = _run([exe], 300, cwd=c.scratch)
            os.unlink(exe); return u, cmd, (out if rc == 0 else None), e or "status %d" % rc
        with ThreadPoolExecutor(NPROC) as ex: res = {t[0]: t for t in ex.map(single, [u for u in use if r[u][0]])}
        base = {}; where = {}
        for u in use:
            if u.startswith("a_") and u in res:
                if res[u][2] is None:
                    c.violation("program with header %s alone does not link or run with %s: %s" % (u[2:], cname, res[u][3][:300]), c.script([heredoc(srcs[u]), heredoc(mains[u]), objcmd[u], res[u][1], [c.path("s_%s.%s" % (u, tag))]])); continue
                for l in res[u][2].splitlines()[1:]: base[l.split()[0]] = l; where[l.split()[0]] = u; cases += 1
        def report(u, got, how, script):
            for l in got:
                k = l.split()[0]
                if k in base and l != base[k]: c.violation("%s: results of %s differ from those of the header alone (%s)" % (how, k, cname), script); return
            if any(l.split()[0] in ("early", "late") for l in got): c.violation("%s: results before main() differ from those after (%s)" % (how, cname), script)
        for u in use:
            if u in res and res[u][2] is not None and not u.startswith("a_"):
                got = res[u][2].splitlines()[1:]; cases += len(got)
                report(u, got, "headers in the order %s ..." % " ".join(units[u][:4]), c.script([heredoc(srcs[u]), heredoc(mains[u]), objcmd[u], res[u][1], "%s > $D/got" % c.path("s_%s.%s" % (u, tag))] + ["! grep -qE '^(early|late)' $D/got"] + ["grep -qFx '%s' $D/got" % base[l.split()[0]] for l in got if l.split()[0] in base]))
            elif u in res and res[u][2] is None and not u.startswith("a_"):
                c.violation("program with headers in the order %s ... does not link or run with %s: %s" % (" ".join(units[u][:4]), cname, res[u][3][:300]), c.script([heredoc(srcs[u]), heredoc(mains[u]), objcmd[u], res[u][1], [c.path("s_%s.%s" % (u, tag))]]))
        # every header's unit and units with everything, linked into one program in every rotation
        good = [u for u in use if r[u][0] and (u.startswith("a_") or u[2:] in (N[0], N[len(N) // 2]))]
        m = mainsrc("main_link" + tag, good); mo = c.path("main_link%s.o" % tag); mcmd = c.compile_cmd(m, mo, cxx=x, std=s, opt=o, flags=["-c"])
        if not c.build_all([("m", mcmd)])["m"][0]: raise Fatal("main does not compile")
        def link(k):
            order = good[k:] + good[:k]; exe = c.path("l%d.%s" % (k, tag)); cmd = [x, mo] + [c.path("%s.%s.o" % (u, tag)) for u in order] + ["-o", exe]
            ok, e = c.build_all([(str(k), cmd)])[str(k)]
            if not ok: return k, order, cmd, None, e
            rc, out, e, to = _run([exe], 300, cwd=c.scratch); os.unlink(exe); return k, order, cmd, (out if rc == 0 else None), e or "status %d" % rc
        ks = list(range(len(good))) if ci == 0 or c.thorough else list(range(0, len(good), 3))
        with ThreadPoolExecutor(NPROC) as ex: links = list(ex.map(link, ks))
        for k, order, cmd, out, e in links:
            progs += 1; distinct.add(("link", k, s))
            build = [heredoc(srcs[u]) for u in good] + [heredoc(m), mcmd] + [objcmd[u] for u in good] + [cmd]
            if out is None:
                lines = [l for l in e.splitlines() if "multiple" in l or "undefined" in l][:2]
                c.violation("units in the order %s ... do not link or run together with %s: %s" % (" ".join(order[:3]), cname, (" / ".join(lines) or e)[:300]), c.script(build + [[c.path("l%d.%s" % (k, tag))]])); break
            got = [l for l in out.splitlines() if not l.startswith("= ")]; cases += len(got)
            before = len(c.violations)
            report(None, got, "units linked in the order %s ..." % " ".join(order[:3]), c.script(build + ["%s > $D/got" % c.path("l%d.%s" % (k, tag)), "! grep -qE '^(early|late)' $D/got", "! grep -vE '^= ' $D/got | grep -vFx -e '%s' | grep -q ." % "' -e '".join(base.values())]))
            if len(c.violations) > before: break
        samples.append("%s: %d units, %d link orders" % (cname, len(use), len(ks)))
        for u in use:
            try: os.unlink(c.path("%s.%s.o" % (u, tag)))
            except OSError: pass
    # all ordered pairs compile
    pc = [("g++", "c++17"), ("clang++", "c++20"), ("g++", "c++14"), ("clang++", "c++17"), ("g++", "c++20")]
    jobs = []; text = {}
    for i, a in enumerate(N):
        for j, b in enumerate(N):
            if a == b: continue
            for k in (range(len(pc)) if c.thorough else [(i * 7 + j * 3) % len(pc)]):
                n = "p_%s_%s_%d" % (a, b, k); p = c.path("p_%s_%s.cpp" % (a, b))
                if not os.path.exists(p):
                    with open(p, "w") as f: f.write('#include "%s.h"\n#include "%s.h"\nint main() {}\n' % (a, b))
                jobs.append((n, [pc[k][0], "-std=" + pc[k][1], "-w", "-fsyntax-only", "-I" + os.path.join(REPO, "src"), p])); text[n] = p
    r = c.build_all(jobs); progs += len(jobs)
    for n, cmd in jobs:
        distinct.add(n)
        if not r[n][0]: c.violation("header pair does not compile: %s: %s" % (n, " / ".join([l for l in r[n][1].splitlines() if "error" in l][:2])[:300]), c.script([heredoc(text[n]), cmd]))
    c.samples = samples
    c.assumptions += ["oracle: the program that includes the header of the class alone (with the same compiler and standard)", "all units of a program are compiled with the same compiler, standard and options"]
    return dict(evaluations=cases + len(jobs), distinct_nontrivial=len(distinct), rule="a distinct case is an inclusion order, a link order or an ordered pair of headers under one standard; evaluations are class results compared",
                states=len(distinct), transitions=cases, traces_validated_against_impl=cases, programs=progs, header_pairs=len(jobs), exhaustive=True,
                bounds="every header alone (included twice), every header first in both rotations, every link rotation of all units, every ordered pair; results before and after main() starts")
if __name__ == "__main__": main("C16", "exploration", body)
