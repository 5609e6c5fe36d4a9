#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from vlib import *
from vlib import _run
BE = os.path.join(VERIF, "harness", "be")
MACH = {"mips": "mips-linux-gnu", "mips64": "mips64-linux-gnuabi64", "mipsel": "mipsel-linux-gnu", "mips64el": "mips64el-linux-gnuabi64"}
TWIN = {"mips": "mipsel", "mips64": "mips64el"}
NAME = {"mips": "32-bit big-endian", "mips64": "64-bit big-endian", "mipsel": "32-bit little-endian", "mips64el": "64-bit little-endian"}
I386 = ["clang++", "--target=i386-linux-gnu", "-march=i686", "-w", "-fno-pic", "-fno-exceptions", "-fno-rtti"]
def body(c):
    r = c.build_all([("emu", ["g++", "-O2", "-w", os.path.join(BE, "emu.cpp"), "-o", c.path("emu")])])
    if not r["emu"][0]: raise Fatal("the emulator does not build: " + r["emu"][1][-500:])
    def flags(m, opt): return ["clang++", "--target=" + MACH[m], "-march=" + ("mips64r2" if "64" in m else "mips32r2"), opt, "-w", "-msoft-float", "-fno-pic", "-mno-abicalls", "-G0", "-mno-gpopt", "-fno-exceptions", "-fno-rtti"]
    def comp(m, src, obj, opt, std="c++17", extra=()):
        return flags(m, opt) + ["-std=" + std, "-nostdinc++", "-I" + BE + "/inc", "-isystem", "/usr/include/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu",
            "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "harness"), "-I" + VERIF, "-DCFG_FREESTANDING", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-threadsafe-statics", "-D__regparm__(x)=__unused__"] + list(extra) + ["-c", src, "-o", obj]
    def rt(m, obj): return flags(m, "-O2") + ["-std=c++17", "-ffreestanding", "-fno-builtin", "-c", os.path.join(BE, "rt.cpp"), "-o", obj]
    def link(obj, m, exe): return ["ld.lld", "-static", "-e", "_start", "-o", exe, obj, c.path("rt.%s.o" % m)]
    for m in MACH:
        rc, o, e, to = _run(rt(m, c.path("rt.%s.o" % m)), 300)
        if rc: raise Fatal("the runtime of the emulated machine does not build: " + e[-500:])
    # 1. the emulated machines against this one: the arithmetic self test
    opts = ["-O0", "-O2"]; st = os.path.join(BE, "selftest.cpp")
    rc, o, e, to = _run(["g++", "-O1", "-fwrapv", "-w", st, "-o", c.path("self")], 300)
    if rc: raise Fatal("self test: " + e[-500:])
    want = _run([c.path("self")], 60)[1]
    def selft(t):
        m, opt = t; ob = c.path("self.%s%s.o" % (m, opt)); ex = c.path("self.%s%s" % (m, opt))
        rc, o, e, to = _run(comp(m, st, ob, opt, extra=["-fwrapv"]), 300)
        if not rc: rc, o, e, to = _run(link(ob, m, ex), 60)
        if rc: raise Fatal("self test %s %s: %s" % (m, opt, e[-500:]))
        o = _run([c.path("emu"), ex], 120)[1]
        if o != want: raise Fatal("the emulated %s machine and this one disagree on the self test: %s" % (m, o[:200]))
        return 1
    with ThreadPoolExecutor(NPROC) as ex: nself = sum(ex.map(selft, [(m, o) for m in MACH for o in opts]))
    # 2. the headers
    conf = [("c++17", "-O2", {})]
    if c.thorough: conf = [(s, o, {}) for s in ("c++14", "c++17", "c++20") for o in ("-O0", "-O2", "-O3")]
    size = int(c.thorough)
    def native(a):
        exe = c.path(a + ".nat"); cmd = c.compile_cmd("cfg.cpp", exe, defs=["ALG_" + a], opt="-O2"); rc, o, e, to = _run(cmd, 300)
        if rc: return a, None, e
        rc, o, e, to = _run([exe, "--size", str(size)], 300)
        return a, (o if rc == 0 else None), e or "ended with status %d" % rc
    def work(t):
        a, m, k = t; s, o, _ = conf[k]; base = c.path("%s.%s.%d" % (a, m, k))
        cmd = comp(m, os.path.join(VERIF, "harness", "cfg.cpp"), base + ".o", o, s, ["-DALG_" + a]); rc, out, e, to = _run(cmd, 600)
        if to: raise Fatal("compiler timed out: " + shlex.join(cmd))
        if rc: return t, "compile", e, cmd
        l = link(base + ".o", m, base); rc, out, e, to = _run(l, 60); os.unlink(base + ".o")
        if rc: return t, "link", e, cmd
        rc, out, e, to = _run([c.path("emu"), "--size", str(size), base], 1200 if c.thorough else 400)
        if to: return t, "time", "did not finish", cmd
        if "undefined instruction" in out: return t, "emu", out[-200:], cmd
        return t, "ok", out, cmd
    nat = {}
    with ThreadPoolExecutor(NPROC) as ex:
        for a, o, e in ex.map(native, ALGS): nat[a] = (o, e)
    res = {}
    todo = [(a, m, k) for a in sorted(ALGS, key=lambda a: -(a in ("md2", "whirlpool"))) for m in ("mips", "mips64") + (("mipsel", "mips64el") if c.thorough else ("mipsel",)) for k in range(len(conf))]
    with ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(work, todo): res[r[0]] = r
    # the little-endian machine of the same width says whether a difference is the byte order's
    extra = [(a, TWIN[m], k) for (a, m, k) in todo if m in TWIN and (a, TWIN[m], k) not in res and (res[(a, m, k)][1] != "ok" or res[(a, m, k)][2] != nat[a][0])]
    with ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(work, extra): res[r[0]] = r
    # 3. this processor in its 32-bit mode, at full speed: the same histories, and messages of more than 2^29 (2^32) bytes
    long32 = 0
    def comp32(src, obj, a): return I386 + comp("mips", src, obj, "-O2", "c++17", ["-DALG_" + a])[len(flags("mips", "-O2")):] + ["-O2"]
    rt32 = I386 + ["-O2", "-std=c++17", "-ffreestanding", "-fno-builtin", "-c", os.path.join(BE, "rt.cpp"), "-o", c.path("rt.i386.o")]
    rc, o, e, to = _run(rt32, 300)
    if rc: raise Fatal("the runtime of the 32-bit mode does not build: " + e[-500:])
    def link32(obj, exe): return ["ld.lld", "-m", "elf_i386", "-static", "-e", "_start", "-o", exe, obj, c.path("rt.i386.o")]
    def work32(t):
        a, what = t; base = c.path("%s.i386.%s" % (a, what)); src = os.path.join(BE, "big.cpp") if what == "big" else os.path.join(VERIF, "harness", "cfg.cpp")
        cmd = comp32(src, base + ".o", a); l = link32(base + ".o", base); rc, o, e, to = _run(cmd, 600)
        if rc: return t, "compile", e, None, cmd, l
        rc, o, e, to = _run(l, 60)
        if rc: return t, "link", e, None, cmd, l
        if what == "cfg": rc, o, e, to = _run([base, "--size", str(size)], 600); return t, "ok" if rc in (0, 134) and not to else "run", o + ("CRASH" if rc else ""), nat[a][0], cmd, l
        nb = c.path(a + ".natbig"); ncmd = c.compile_cmd(src, nb, defs=["ALG_" + a], opt="-O2"); rc, o, e, to = _run(ncmd, 300)
        if rc: return t, "native", e, None, cmd, l
        res = [_run([x, "--size", str(size)], 3000 if c.thorough else 400) for x in (base, nb)]
        if res[1][0] or res[1][3]: return t, "native", res[1][2], None, cmd, l
        return t, "time" if res[0][3] else "ok" if res[0][0] in (0, 134) else "run", res[0][1] + ("CRASH" if res[0][0] else ""), res[1][1], cmd, l
    can32 = False
    rc, o, e, to = _run(I386 + ["-O1", "-std=c++17", "-nostdinc++", "-ffreestanding", "-c", os.path.join(BE, "hello.cpp"), "-o", c.path("hello.o")], 60)
    if rc == 0 and _run(["ld.lld", "-m", "elf_i386", "-static", "-e", "_start", "-o", c.path("hello"), c.path("hello.o")], 60)[0] == 0:
        try: can32 = _run([c.path("hello")], 20)[0] == 0
        except OSError: can32 = False
    if can32:
        slow = lambda t: -(t[1] == "big") * (3 if t[0] == "md2" else 2 if t[0][:4] in ("cshk", "csha", "tupl") else 1 if t[0][:3] in ("sha", "whi") else 0.5)
        with ThreadPoolExecutor(NPROC) as ex: r32 = list(ex.map(work32, sorted([(a, w) for a in ALGS for w in ("cfg", "big") if nat[a][0] is not None], key=slow)))
        for (a, w), st_, out, want, cmd, l in r32:
            if st_ != "ok": c.notes.append("%s (%s): not covered in 32-bit mode: %s %s" % (a, w, st_, " / ".join([x for x in out.splitlines() if "error" in x][:1])[:200])); continue
            long32 += 1
            if out == want: continue
            first = next(("%s, but here %s" % (y[:140], x[:140]) for x, y in zip(out.splitlines(), want.splitlines()) if x != y), out.strip()[-200:] or "no output")
            nb, base = c.path(a + ".nat" + ("big" if w == "big" else "")), c.path("%s.i386.%s" % (a, w)); src = os.path.join(BE, "big.cpp") if w == "big" else "cfg.cpp"
            c.violation("%s: a 32-bit program gives other results%s: %s" % (a, " for a message, element or string of more than 2^29 bytes" if w == "big" else "", first),
                        c.script([rt32, cmd, l, c.compile_cmd(src, nb, defs=["ALG_" + a], opt="-O2"), "%s --size %d > %s; %s --size %d > %s; cmp %s %s" % (nb, size, c.path("1"), base, size, c.path("2"), c.path("1"), c.path("2"))]))
    else: c.notes.append("this kernel does not run 32-bit programs: messages of more than 2^29 bytes on 32-bit machines not covered")
    cases = progs = insn = 0
    for a in ALGS:
        o, e = nat[a]
        if o is None:
            l = [x for x in e.splitlines() if "error" in x or "status" in x][:2]
            c.violation("%s: does not build or run on this machine: %s" % (a, " / ".join(l)[:300]), c.script([c.compile_cmd("cfg.cpp", c.path("x"), defs=["ALG_" + a], opt="-O2"), [c.path("x")]])); continue
        for t in [x for x in res if x[0] == a]:
            _, st_, out, cmd = res[t]; m, k = t[1], t[2]; where = "%s, %s %s" % (NAME[m], conf[k][0], conf[k][1])
            base = c.path("%s.%s.%d" % t); rcmds = [["g++", "-O2", "-w", os.path.join(BE, "emu.cpp"), "-o", c.path("emu")], rt(m, c.path("rt.%s.o" % m)), cmd, link(base + ".o", m, base)]
            if st_ == "compile":
                lines = [x for x in out.splitlines() if " error: " in x]
                tw = res.get((a, TWIN.get(m), k))
                if tw and tw[1] != "compile": c.violation("%s: does not compile for a %s machine: %s" % (a, where, " / ".join(lines[:2])[:300]), c.script([cmd]))
                else: c.notes.append("%s: not covered on %s: %s" % (a, where, " / ".join(lines[:1])[:200]))
                continue
            if st_ in ("link", "emu", "time"): c.notes.append("%s: not covered on %s: %s" % (a, where, out.strip()[:200])); continue
            progs += 1
            if out == o: cases += int(o.rsplit("N ", 1)[1]); continue
            la, lb = o.splitlines(), out.splitlines(); g = next((int(x.split()[1]) for x, y in zip(la, lb) if x != y and x.startswith("G ")), None); first = out.strip().splitlines()[-1][:200] if out.strip() else "no output"
            if "CRASH" not in out and g is not None:
                d1 = _run([c.path(a + ".nat"), "--size", str(size), "--dump", str(g)], 300)[1].splitlines(); d2 = _run([c.path("emu"), "--size", str(size), "--dump", str(g), base], 600)[1].splitlines()
                if d1 == d2: raise Fatal("%s: difference on %s did not reproduce" % (a, where))
                first = next(("%s, but here %s" % (y[:160], x.split()[-1][:80]) for x, y in zip(d1, d2) if x != y and x.startswith("C ")), first)
            nc = c.compile_cmd("cfg.cpp", c.path(a + ".nat"), defs=["ALG_" + a], opt="-O2")
            c.violation("%s: a %s machine gives other results: %s" % (a, where, first), c.script(rcmds + [nc, "%s --size %d > %s; %s --size %d %s > %s; cmp %s %s" % (c.path(a + ".nat"), size, c.path("1"), c.path("emu"), size, base, c.path("2"), c.path("1"), c.path("2"))]))
    if progs < len(ALGS): raise Fatal("only %d programs could be run on the emulated machines: %s" % (progs, "; ".join(c.notes[:3])))
    c.samples = ["%s on %s" % (a, NAME[m]) for a in ("md5", "sha1", "siphash") for m in ("mips", "mips64")]
    c.assumptions += ["oracle: this machine's results for the same program (whether they are right is C01-C12)", "the emulator (integer MIPS32/64 r2) is validated by %d self-test programs per run and by the little-endian machine" % nself, "the standard library headers are those of the host, with the word size and byte order of the target"]
    return dict(evaluations=cases, distinct_nontrivial=progs, rule="one program (a class on a machine) = one distinct case; evaluations are the histories they run", states=cases, transitions=cases, traces_validated_against_impl=cases,
                programs=progs + long32, programs_in_native_32_bit_mode=long32, algorithms=len(ALGS), machines=len(MACH) + can32, self_tests=nself, exhaustive=True)
if __name__ == "__main__": main("C19", "exploration", body)
