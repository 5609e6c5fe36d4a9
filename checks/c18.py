#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from cli import *
import errno, socket, threading
M = 1 << 20
ERR = [errno.EIO, errno.EISDIR, errno.EBADF, errno.ESTALE]
def body(c):
    k = Cli(c, sanitized=True)
    if not k.ok: return dict(evaluations=0, distinct_nontrivial=0, rule="the programs do not build")
    ev = 0; distinct = set(); lock = threading.Lock(); injected = 0
    def bad(rc, out):
        """why this is not a proper failure, or None"""
        if rc == "timeout": return "did not end"
        if rc is None: return None
        if rc == 0: return "exit status 0"
        if rc < 0 or rc >= 126: return "abnormal termination (status %s)" % rc
        if DIGEST_LINE.search(out): return "printed %r" % out[:80].decode("utf8", "replace")
        return None
    failtest = "[ \"$rc\" -gt 0 ] && [ \"$rc\" -lt 126 ] && ! grep -qE '^[0-9a-f]+  ' out"
    # ---- a failure at every read, over read plans ------------------------------------
    rep = [["-md5"], ["-tuple-hash-256", "40", "My App"], ["-sha3-256"], ["-shake-128", "40"]]
    cases = []
    def nominal(cmd, n, mode, plan):
        f = k.file(content("rnd", n)); a = list(cmd) + [f if mode == "file" else "-"]
        rc, out, log, err = k.run(a, stdin=None if mode == "file" else f if mode == "redirect" else open(f, "rb").read(), plan=plan)
        return len(log) - 1
    shapes = [(0, "f"), (5, "f"), (5, "*s1"), (4096, "f"), (4097, "*s1000"), (70000, "*s9999"), (M, "*s200000"), (M + 1, "*s300000"), (M - 1, "f"), (2 * M, "f"), (2 * M + 7, "*s%d" % (M // 2)), (3 * M + 1, "*s%d" % M)]
    if c.thorough: shapes += [(n, "*s%d" % s) for n in (10, 3 * 4096 + 1, M + 4096, 4 * M) for s in (3, 4095, 4096, 65537, M - 1, M + 1) if n / s < 200]
    for cmd in rep:
        for n, plan in shapes:
            for mode in ("file", "redirect", "pipe"):
                m = nominal(cmd, n, mode, plan); m = min(m, 9 if mode == "pipe" and not c.thorough else m); unit = plan.lstrip("*")
                # every read, or when the program reads in many small pieces: the first, the last, and those next to powers of two
                lim = 300 if c.thorough else 30; ats = range(m) if m <= lim else sorted(x for x in set(range(10)) | set(range(m - 6, m)) | {(1 << q) + y for q in range(4, 24) for y in (-1, 0)} if x < m)
                for at in ats:
                    for e in (ERR if cmd == rep[0] or c.thorough else ERR[:1]):
                        for once in (True, False):
                            cases.append((tuple(cmd), n, mode, ",".join([unit] * at + ["e%d" % e] + ([] if not once else ["*" + unit]) if once else [unit] * at + ["*e%d" % e])))
    for cmd in commands():
        for n, at in ((5, 0), (5, 1), (M + 9, 0), (M + 9, 1), (M + 9, 2)):
            for mode in ("file", "redirect"): cases.append((tuple(cmd), n, mode, ",".join(["s%d" % max(1, min(n, M))] * at + ["*e5"])))
    cases = list(dict.fromkeys(cases)); found = []
    for x in cases: k.file(content("rnd", x[1]))
    def one(x):
        nonlocal ev, injected
        if len(found) >= 4: return None
        cmd, n, mode, plan = x; f = k.file(content("rnd", n)); a = list(cmd) + [f if mode == "file" else "-"]
        rc, out, log, err = k.run(a, stdin=None if mode == "file" else f if mode == "redirect" else open(f, "rb").read(), plan=plan)
        with lock: ev += 1; injected += log.count("x"); distinct.add(x) if "x" in log else None
        w = bad(rc, out) if "x" in log else None
        if w and not one_again(a, f, mode, plan): raise Fatal("did not reproduce: %r" % (x,))
        if w: found.append(x)
        return (x, w, a, f) if w else None
    def one_again(a, f, mode, plan):
        rc, out, log, err = k.run(a, stdin=None if mode == "file" else f if mode == "redirect" else open(f, "rb").read(), plan=plan); return "x" in log and bad(rc, out)
    with ThreadPoolExecutor(NPROC) as ex: res = [r for r in ex.map(one, cases) if r]
    for (cmd, n, mode, plan), w, a, f in res[:4]:
        c.violation("hash %s of %d bytes by %s, reads %s: %s although a read failed" % (" ".join(cmd), n, mode, plan, w), k.script(a, stdin=None if mode == "file" else f, plan=plan, mk=content_sh("rnd", n, f), test=failtest))
    # ---- inputs that cannot be opened or read -------------------------------------------
    d = c.path("inputs"); os.makedirs(d + "/dir"); open(d + "/plain", "wb").write(b"data"); os.symlink("loop2", d + "/loop1"); os.symlink("loop1", d + "/loop2"); os.symlink("missing", d + "/dangling")
    s = socket.socket(socket.AF_UNIX); s.bind(d + "/sock")
    names = ["missing", "dir", "dir/", "loop1", "dangling", "sock", "", "plain/", "plain/x", "missing/x", "x" * 256, "y/" * 2100, ".", "..", "/", " ", "plain ", "--", "-x"]
    for cmd in commands():
        if len(c.violations) > 3: break
        for nm in names:
            rc, out, log, err = k.run(list(cmd) + [nm], cwd=d); ev += 1; distinct.add((tuple(cmd), nm)); w = bad(rc, out)
            if w: c.violation("hash %s %r: %s although the input cannot be read" % (" ".join(cmd), nm[:40], w), k.script(list(cmd) + [nm], mk="mkdir dir; echo -n data > plain; ln -s loop2 loop1; ln -s loop1 loop2; ln -s missing dangling", test=failtest))
            if len(c.violations) > 3: break
        for what, si in (("closed", 0), ("a directory", d + "/dir")):
            if what == "closed": rc, out, log, err = k.run(list(cmd) + ["-"], stdin=0)
            else:
                fd = os.open(si, os.O_RDONLY)
                try: r = subprocess.run([k.hash] + cmd + ["-"], stdin=fd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60); rc, out = r.returncode, r.stdout
                except subprocess.TimeoutExpired: rc, out = "timeout", b""
                os.close(fd)
            ev += 1; distinct.add((tuple(cmd), "stdin", what)); w = bad(rc, out)
            if w: c.violation("hash %s - with standard input %s: %s although the input cannot be read" % (" ".join(cmd), what, w), k.script(list(cmd) + ["-"], stdin="/" if what != "closed" else None, test=failtest))
    s.close()
    # ---- a failure of the open itself ----------------------------------------------------
    f = k.file(content("rnd", 777))
    for cmd in commands():
        if len(c.violations) > 3: break
        for e in (errno.ENOENT, errno.EACCES, errno.EPERM, errno.ENXIO, errno.EIO, errno.ENODEV) + ((errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EOVERFLOW, errno.ETXTBSY, errno.ELOOP) if c.thorough else ()):
            rc, out, log, err = k.run(list(cmd) + [f], openfail="1:%d" % e, path=f); ev += 1; injected += 1; distinct.add((tuple(cmd), "open", e)); w = bad(rc, out)
            if "x" in log and w: c.violation("hash %s with open failing with errno %d: %s" % (" ".join(cmd), e, w), k.script(list(cmd) + [f], openfail="1:%d" % e, path=f, mk=content_sh("rnd", 777, f), test=failtest))
    # ---- argument vectors ------------------------------------------------------------------
    ok = c.path("inputs/plain"); optless = ["", "-", "--", "md5", "-MD5", "-md5 ", " -md5", "--md5", "-md", "-md55", "-sha2", "-sha", "-h", "--help", "-shake", "-cshake-512", "-fnv", "-tiger", "%s%n", "\x01", ok]
    nums = ["", " ", "x", "abc", "x1", "-", "--", "-1", "-2147483648", "2147483648", "4294967297", "4294967328", "99999999999999999999", "18446744073709551648", "1e", "3.5", "3,5", "0x", "32abc", "32 ", "7-", "1_000", "NaN", "\u0663", "- 5", "+-5", "5\n", "%d"]
    want_usage = []
    for o in optless:
        for tail in ([], [ok], ["-"], ["32", ok], ["32", "x", ok]): want_usage.append([o] + tail)
    want_usage.append([])
    for o in PLAIN: want_usage += [[o], [o, ok, ok], [o, "-", "-"], [o, "32", "x", ok]]
    for o in LEN: want_usage += [[o], [o, ok], [o, "32"], [o, "32", ok, ok], [o, "32", "x", ok, ok]] + [[o, n, ok] for n in nums]
    for o in CUST: want_usage += [[o], [o, ok], [o, "32"], [o, "32", ok], [o, "32", "x"], [o, "32", "x", ok, ok]] + [[o, n, "x", ok] for n in nums]
    # every vector over a small alphabet that is not a complete command
    alpha = ["-md5", "-shake-256", "-tuple-hash-128", "-bogus", "", "12", "-5", "-", ok]
    def complete(v):
        return (len(v) == 2 and v[0] == "-md5") or (len(v) == 3 and v[0] == "-shake-256" and v[1] in ("12",)) or (len(v) == 4 and v[0] == "-tuple-hash-128" and v[1] in ("12",))
    for n in range(1, 6 if c.thorough else 5):
        for v in itertools.product(alpha, repeat=n):
            if not complete(v): want_usage.append(list(v))
    want_usage = [list(x) for x in dict.fromkeys(tuple(v) for v in want_usage)]
    exes = [("hash_san", k.cmds["hash_san"][-1]), ("hash", k.hash)]
    small = {v for v in itertools.product(alpha, repeat=4)}
    runs = itertools.count()
    vfound = []
    def vec(v, again=False):
        if len(vfound) >= 4 and not again: return None
        for name, exe in exes:
            if name == "hash_san" and len(v) > 3 and tuple(v) in small and not c.thorough: continue
            next(runs); rc, out, log, err = k.run([x.encode() for x in v], exe=exe, stdin=None, timeout=60)
            w = None
            if rc == "timeout": w = "did not end"
            elif rc < 0 or rc >= 126 or b"runtime error" in err or b"Sanitizer" in err: w = "abnormal termination (status %s) %s" % (rc, err[:160].decode("utf8", "replace"))
            elif DIGEST_LINE.search(out): w = "printed a digest: %r" % out[:60].decode("utf8", "replace")
            elif not out.strip() and not err.strip(): w = "neither an answer nor an error message"
            if w: vfound.append(v); return v, w, name
        return None
    with ThreadPoolExecutor(NPROC) as ex: vb = [r for r in ex.map(vec, want_usage) if r]
    ev += next(runs); distinct.update(("argv",) + tuple(v) for v in want_usage)
    for v, w, name in vb[:4]:
        if not vec(v, True): raise Fatal("did not reproduce: %r" % v)
        c.violation("hash %s: %s" % (" ".join(repr(x) for x in v)[:200], w), k.script(v, mk="mkdir -p %s; echo -n data > %s" % (d, ok), test="[ \"$rc\" -lt 126 ] && ! grep -qE '^[0-9a-f]+  ' out && [ -s out ]", exe=name, to="out 2>&1"))
    c.samples = ["%s of %d bytes by %s, reads: %s" % (" ".join(x[0]), x[1], x[2], x[3][:60]) for x in cases[7:3000:600]] + ["argv %r" % v for v in want_usage[40:2000:700]]
    c.assumptions += ["reads and opens fail by trapping the system calls of the real program", "a read that fails with EINTR or EAGAIN may be retried and is not counted here", "usage text with status 0 is the program's answer to wrong arguments; it contains no digest"]
    return dict(evaluations=ev, distinct_nontrivial=len(distinct), rule="a case is (command, size, kind of input, plan) in which a failure was actually delivered, an unreadable input, or an argument vector; all distinct", failures_injected=injected, argument_vectors=len(want_usage), exhaustive=True,
                bounds="every read (beyond %d reads: boundary positions) of %d (size, segmentation) shapes x 3 kinds of input x once or for good; 43 options x %d unreadable inputs; all argument vectors over a 9-letter alphabet to length %d that are not complete commands" % (300 if c.thorough else 30, len(shapes), len(names) + 2, 5 if c.thorough else 4))
if __name__ == "__main__": main("C18", "fault_enumeration", body)
