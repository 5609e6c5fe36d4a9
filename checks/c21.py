#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from cli import *
import errno, threading, resource, hashlib
def body(c):
    k = Cli(c, sanitized=True)
    if not k.ok: return dict(evaluations=0, distinct_nontrivial=0, rule="the programs do not build")
    ev = 0; injected = 0; written = 0; distinct = set(); lock = threading.Lock(); found = []; logs = set()
    F = {n: k.file(content("rnd", n)) for n in (0, 777, 70000)}
    def verdict(rc, out, want, failed):
        """why this answer is wrong, or None"""
        if rc == "timeout": return "did not end"
        if rc is None: return None
        if rc < 0 or rc >= 126: return "abnormal termination (status %s)" % rc
        if rc == 0: return None if out == want else "exit status 0 although only %d of %d bytes of the answer were written" % (len(out), len(want))
        return None if failed else "exit status %d although every write succeeded" % rc
    # ---- every sequence of outcomes of the writes ----------------------------------------------------
    E = ["e%d" % errno.ENOSPC, "e%d" % errno.EINTR]
    alpha = ["f", "s1", "s1000"] + E
    depth = 5 if c.thorough else 4
    seqs = [list(x) for d in range(1, depth + 1) for x in itertools.product(alpha, repeat=d)]
    cases = []     # (command, input size, mode, write plan, stdout kind, read plan)
    rep = [["-md5"], ["-shake-128", "3000"], ["-cshake-256", "6500", "x"]] + ([["-tuple-hash-128", "6500", "x"], ["-sha2-512"]] if c.thorough else [])
    for cmd in rep:
        for s in seqs:
            # outcomes the program cannot reach are pruned below: the log shows how many writes it made
            cases.append((tuple(cmd), 777, "file", ",".join(s), "pipe", None))
            if len(s) < depth: cases.append((tuple(cmd), 777, "file", ",".join(s), "file", None))
    # ---- every command, every kind of failure, at the first writes; once and for good -------------------
    errs = (errno.ENOSPC, errno.EIO, errno.EFBIG, errno.EPIPE, errno.EBADF) + ((errno.EDQUOT, errno.EAGAIN, errno.EINVAL, errno.ENXIO, errno.EPERM, errno.EDESTADDRREQ) if c.thorough else ())
    for cmd in commands():
        for e in errs:
            for mode in ("file", "redirect"):
                cases.append((tuple(cmd), 777, mode, "*e%d" % e, "pipe", None))
        for pre in ("s1", "s20", "s1,s1", "s7,s7,s7"): cases.append((tuple(cmd), 777, "file", pre + ",e%d" % errno.ENOSPC, "pipe", None))
        for w in ("*s1", "*s3", "s5,*f"): cases.append((tuple(cmd), 70000, "file", w, "pipe", None))
        cases.append((tuple(cmd), 0, "file", "e%d" % errno.ENOSPC, "file", None)); cases.append((tuple(cmd), 0, "redirect", "s2,e%d" % errno.EIO, "pipe", None))
    # ---- a failure at every write of a long answer ------------------------------------------------------
    longs = [["-shake-256", "100000"], ["-cshake-128", "30011", "x"], ["-tuple-hash-256", "20000", "x"]]
    if c.thorough: longs += [["-shake-128", "3000017"]]
    for cmd in longs:
        for unit in ("f", "s4096", "s4095", "s%d" % 60000, "s333" if c.thorough else "s5000"):
            rc, out, log, err = k.run(cmd + [F[777]], wplan="*" + unit); m = log.count("W"); lim = 400 if c.thorough else 60
            for at in (range(m) if m <= lim else sorted(x for x in set(range(20)) | set(range(m - 10, m)) | {(1 << q) + y for q in range(4, 24) for y in (-1, 0)} if x < m)):
                for once in (True, False):
                    for e in E: cases.append((tuple(cmd), 777, "file", ",".join([unit] * at + ([e, "*" + unit] if once else ["*" + e])), "pipe", None))
    # ---- together with short reads -----------------------------------------------------------------------
    for cmd in rep:
        for r in ("*s1000", "s1,s1,f"):
            for w in ("f", "s3", "e28", "s3,e28", "*s100"): cases.append((tuple(cmd), 777, "redirect", w, "pipe", r))
    cases = list(dict.fromkeys(cases))
    pairs = {(x[0], F[x[1]]) for x in cases} | {(tuple(a), F[777]) for a in commands()}
    k.prepare(list(pairs))
    def go(x, exe=None):
        cmd, n, mode, w, kind, r = x; f = F[n]; name = f if mode == "file" else "-"; si = None if mode == "file" else f
        want = ("%s  %s\n" % (k.expect(cmd, f), name)).encode()
        if kind == "file":
            p = c.path("o%d" % next(_n))
            with open(p, "wb") as o: rc, out, log, err = k.run(list(cmd) + [name], stdin=si, plan=r, wplan=w, stdout=o, exe=exe)
            with open(p, "rb") as o: out = o.read()
            os.unlink(p)
        else: rc, out, log, err = k.run(list(cmd) + [name], stdin=si, plan=r, wplan=w, exe=exe)
        return verdict(rc, out, want, "X" in log), log, want, name, si
    reach = {}     # (command, mode, size, stdout, read plan) -> {outcomes actually consumed}
    def one(x):
        nonlocal ev, injected, written
        if len(found) >= 4: return None
        v, log, want, name, si = go(x); nw = log.count("W") + log.count("X")
        with lock:
            ev += 1; injected += log.count("X"); written += log.count("W"); logs.add(log)
            if nw: distinct.add((x[0], x[1], x[2], x[4], x[5], ",".join(x[3].split(",")[:nw]) if "*" not in x[3] else x[3]))
        if not v: return None
        if not go(x)[0]: raise Fatal("did not reproduce: %r" % (x,))
        found.append(x); return x, v, want, name, si
    with ThreadPoolExecutor(NPROC) as ex: res = [r for r in ex.map(one, cases) if r]
    for x, v, want, name, si in res[:4]:
        cmd, n, mode, w, kind, r = x
        t = "H=%s; if [ \"$rc\" = 0 ]; then [ \"$(sha256sum < out | cut -d' ' -f1)\" = \"$H\" ]; else [ \"$rc\" -lt 126 ] && %s; fi" % (hashlib.sha256(want).hexdigest(), "true" if "e" in w else "false")
        c.violation("hash %s of %d bytes by %s, writes %s to a %s: %s" % (" ".join(cmd), n, mode, w, kind, v), k.script(list(cmd) + [name], stdin=si, plan=r, wplan=w, mk=content_sh("rnd", n, F[n]), test=t))
    # ---- places that cannot be written to -------------------------------------------------------------
    d = c.path("places"); os.makedirs(d); sink = [("/dev/full", "/dev/full")]
    for cmd in commands():
        if len(c.violations) > 3: break
        f = F[777]; want = ("%s  %s\n" % (k.expect(tuple(cmd), f), f)).encode()
        def place(what, rc, to, w=None):
            nonlocal ev
            ev += 1; distinct.add((tuple(cmd), what))
            v = "did not end" if rc == "timeout" else "exit status 0" if rc == 0 else "abnormal termination (status %s)" % rc if rc < 0 or rc >= 126 else None
            if what == "a pipe without a reader" and rc == -13: v = None
            if v and len(c.violations) < 4: c.violation("hash %s to %s: %s although the digest was not written" % (" ".join(cmd), what, v), k.script(list(cmd) + [f], mk=content_sh("rnd", 777, f), to=to, test="[ \"$rc\" -gt 0 ] && [ \"$rc\" -lt 126 ]" + (" || [ \"$rc\" = 141 ]" if "pipe" in what else "")))
        with open("/dev/full", "wb") as o: place("a full device", k.run(list(cmd) + [f], stdout=o)[0], "/dev/full")
        with open(f, "rb") as o: place("a descriptor open for reading only", k.run(list(cmd) + [f], stdout=o)[0], "&0 0<%s 1>&0" % f)
        # the input is standard input here, so that descriptor 1 is really absent when the digest is written
        r = subprocess.run(["/bin/sh", "-c", 'exec "$@" >&- < "$0"', f, k.hash] + list(cmd) + ["-"], stderr=subprocess.DEVNULL); place("a closed standard output", r.returncode, "&-")
        rd, wr = os.pipe(); os.close(rd)
        try: place("a pipe without a reader", k.run(list(cmd) + [f], stdout=wr)[0], ">(true)")
        finally: os.close(wr)
        # a file that may not grow beyond b bytes (every limit inside the answer for two commands)
        for b in (range(0, len(want) + 1) if cmd[0] in ("-md5", "-shake-128") or c.thorough else (0, 1, len(want) - 1, len(want))):
            o = os.path.join(d, "limited"); r = subprocess.run([sys.executable, "-S", "-c", "import os,resource,signal,sys; signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (%d, %d)); os.execv(sys.argv[1], sys.argv[1:])" % (b, b), k.hash] + list(cmd) + [f], stdout=open(o, "wb"), stderr=subprocess.DEVNULL)
            got = open(o, "rb").read(); ev += 1; distinct.add((tuple(cmd), "limit", b)); v = verdict(r.returncode, got, want, b < len(want)); injected += b < len(want)
            if v and len(c.violations) < 4: c.violation("hash %s to a file limited to %d bytes: %s" % (" ".join(cmd), b, v), k.script(list(cmd) + [f], mk=content_sh("rnd", 777, f), to="/dev/full", test="[ \"$rc\" -gt 0 ] && [ \"$rc\" -lt 126 ]"))
    # ---- the sanitized program, over a subset ----------------------------------------------------------
    for x in cases[:: max(1, len(cases) // (600 if c.thorough else 60))]:
        if len(c.violations) > 3: break
        rc, out, log, err = k.run(list(x[0]) + [F[x[1]] if x[2] == "file" else "-"], stdin=None if x[2] == "file" else F[x[1]], wplan=x[3], exe=k.cmds["hash_san"][-1], env={"ASAN_OPTIONS": "verify_asan_link_order=0:detect_leaks=0"}); ev += 1
        if b"runtime error" in err or b"Sanitizer" in err: c.violation("hash %s, writes %s: %s" % (" ".join(x[0]), x[3], err[:200].decode("utf8", "replace")), k.script(list(x[0]) + [F[x[1]]], wplan=x[3], mk=content_sh("rnd", x[1], F[x[1]]), exe="hash_san", test="[ \"$rc\" -lt 2 ]"))
    if not c.violations and (not injected or not written): raise Fatal("no write was trapped")
    c.samples = ["%s of %d bytes by %s, writes %s to a %s" % (" ".join(x[0]), x[1], x[2], x[3][:60], x[4]) for x in cases[9:6000:900]]
    c.assumptions += ["writes to descriptor 1 fail or are shortened by trapping the system calls of the real program; a write that fails with EINTR may be retried", "a failure that only close() reports is not injected", "the usage text is not a digest: the exit status after failing to print it is not judged"]
    return dict(evaluations=ev, distinct_nontrivial=len(distinct), rule="a case is (command, size, kind of input and output, outcomes of the writes the program really made), or an unwritable place; all distinct", failures_injected=injected, writes_observed=written, distinct_traces=len(logs), exhaustive=True,
                bounds="all sequences of outcomes {full, 1 byte, 1000 bytes, no space, interrupted} of the first %d writes for %d commands; 43 options x %d errors; a failure at every write of answers of up to %d writes; every file size limit within an answer" % (depth, len(rep), len(errs), 400 if c.thorough else 60))
_n = itertools.count()
if __name__ == "__main__": main("C21", "fault_enumeration", body)
