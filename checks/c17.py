#!/usr/bin/env python3
import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from cli import *
import signal, threading
M = 1 << 20
def body(c):
    k = Cli(c)
    if not k.ok: return dict(evaluations=0, distinct_nontrivial=0, rule="the programs do not build")
    ev = 0; traps = 0; plans_seen = set(); lock = threading.Lock()
    cases = []   # (cmd, kind, size, mode, plan)
    few = [["-md5"], ["-sha3-256"], ["-tuple-hash-128", "40", "My App"], ["-siphash"]]
    sizes = [0, 1, 63, 64, 65, 135, 136, 167, 168, 4095, 4096, 4097, 8191, 8192, 65535, 65536, 65537, M - 1, M, M + 1, M + 4096, 2 * M - 1, 2 * M, 2 * M + 1, 3 * M + 17]
    for cmd in commands():
        for n in (0, 3, 4097, M - 1, M, M + 1, 2 * M + 5):
            slow = cmd[0] == "-md2"
            for mode in ("file", "pipe"):
                if n > 2 * M and slow and not c.thorough: continue
                cases.append((cmd, "rnd", n, mode, None))
        for kind in ("ff", "nl", "00"): cases.append((cmd, kind, 70001, "file", None)); cases.append((cmd, kind, 5003, "redirect", None))
    for cmd in few:
        for n in sizes:
            for mode in ("file", "pipe", "redirect"):
                for kind in ("rnd", "ff", "nl"): cases.append((cmd, kind, n, mode, None))
    # segmentation: every sequence of boundary caps for the first reads, and every constant cap
    alpha = ["s1", "s3", "s4096", "f"]
    depth = 4 if c.thorough else 3
    seqs = [",".join(x) for d in range(1, depth + 1) for x in itertools.product(alpha, repeat=d)]
    for cmd in few[:3]:
        for n in (10, 4099, M + 1) + ((2 * M, 2 * M + 5) if c.thorough else ()):
            for mode in ("file", "redirect"):
                for s in seqs: cases.append((cmd, "rnd", n, mode, s))
    for cmd in few[:3]:
        for cap, n in (("*s1", 4100), ("*s7", 30001), ("*s4095", 2 * M + 5), ("*s4096", 2 * M), ("*s65536", 2 * M + 1), ("*s%d" % (M - 1), 3 * M), ("*s%d" % (M // 2 + 1), 3 * M + 17)):
            for mode in ("file", "redirect", "pipe"): cases.append((cmd, "rnd", n, mode, cap))
    # interrupted: EINTR before the k-th read of a file (the program may retry, or fail)
    for cmd in few[:3]:
        for n in (5, M + 1):
            for at in range(0, 5): cases.append((cmd, "rnd", n, "file", ",".join(["s1000"] * at + ["e4", "e4"])))
    cases = list(dict.fromkeys((tuple(a), b, n, m, p) for a, b, n, m, p in cases))
    files = {}
    for a, kind, n, m, p in cases:
        if (kind, n) not in files: files[(kind, n)] = k.file(content(kind, n))
    k.prepare([(a, files[(kind, n)]) for a, kind, n, m, p in cases])
    found = []; intr = lambda plan: bool(plan) and "e4" in plan
    def one(case, again=False):
        nonlocal ev, traps
        if len(found) >= 5 and not again: return None
        a, kind, n, mode, plan = case; f = files[(kind, n)]; want = k.expect(a, f)
        name = f if mode == "file" else "-"; si = None if mode == "file" else f if mode == "redirect" else content(kind, n) if n < 100000 else open(f, "rb").read()
        rc, out, log, err = k.run(list(a) + [name], stdin=si, plan=plan)
        with lock: ev += 1; traps += len(log) - 1 if log else 0; plans_seen.add(log[:40])
        if intr(plan) and isinstance(rc, int) and rc > 0 and out == b"": return None   # gave up on an interrupted read, and said so
        if rc != 0 or out != ("%s  %s\n" % (want, name)).encode(): found.append(case); return case, rc, out, want, err
        return None
    with ThreadPoolExecutor(NPROC) as ex: bad = [r for r in ex.map(one, cases) if r]
    for case, rc, out, want, err in bad[:20]:
        if not one(case, True): raise Fatal("did not reproduce: %r" % (case,))
        a, kind, n, mode, plan = case; f = files[(kind, n)]; name = f if mode == "file" else "-"
        c.violation("hash %s of %d bytes (%s) by %s, reads %s: printed %r (status %s), the library says %s" % (" ".join(a), n, kind, mode, plan or "unrestricted", out[:90].decode("utf8", "replace"), rc, want[:80]),
                    k.script(list(a) + [name], stdin=None if mode == "file" else f, plan=plan, mk=content_sh(kind, n, f), test=("[ \"$rc\" -gt 0 -a \"$rc\" -lt 124 -a ! -s out ] || " if intr(plan) else "") + "{ [ \"$rc\" = 0 ] && [ \"$(cat out)\" = \"%s  %s\" ]; }" % (want, name)))
        if len(c.violations) > 4: break
    # names as given
    odd = ["a", "with space", "-dash", "--", "-md5", "%s%n%x", "tab\there", "new\nline", "back\\slash", "\u00fcnic\u00f6de", "..name", "x" * 255, "'q\"", "#", "*", "\udcff\udcfe"]
    d = c.path("names"); os.makedirs(d + "/sub dir"); body_ = content("rnd", 777); ref = k.file(body_); k.prepare([(tuple(x), ref) for x in few])
    def put(p):
        with open(p.encode("utf8", "surrogateescape"), "wb") as f: f.write(body_)
    names = list(odd)
    for o in odd: put(d + "/" + o)
    put(d + "/-"); put(d + "/sub dir/deep"); os.symlink("a", d + "/link"); os.symlink("nowhere/../a", d + "/broken")
    os.mkfifo(d + "/fifo")
    names += ["./-", "./a", "sub dir/deep", "sub dir/../a", ".//a", d + "/a", "link", "/dev/stdin", "fifo"]
    for cmd in few:
        for nm in names:
            if len(c.violations) > 6: break
            if nm == "fifo": threading.Thread(target=lambda: put(d + "/fifo"), daemon=True).start()
            rc, out, log, err = k.run([x.encode("utf8", "surrogateescape") for x in list(cmd) + [nm]], stdin=body_ if nm == "/dev/stdin" else None, cwd=d, timeout=60)
            ev += 1; want = k.expect(cmd, ref)
            if rc != 0 or out != ("%s  %s\n" % (want, nm)).encode("utf8", "surrogateescape"):
                c.violation("hash %s %r: printed %r (status %s), the library says %s" % (" ".join(cmd), nm, out[:120], rc, want), k.script(list(cmd) + ["a"], mk="", test="false # name %r" % nm))
    # standard input that does not start at the beginning of the file, is also open for writing, or was opened for appending; files without a size
    def fdrun(cmd, fd):
        r = subprocess.run([k.hash] + cmd + ["-"], stdin=fd, stdout=subprocess.PIPE, timeout=60); return r.returncode, r.stdout
    whole = content("rnd", 2 * M + 99); f = k.file(whole)
    for cmd in few:
        for off in (1, 4096, 4097, M, M + 1, 2 * M + 98, 2 * M + 99, 3 * M):
            for fl in (os.O_RDONLY, os.O_RDWR | os.O_APPEND):
                rest = k.file(whole[off:]); k.prepare([(tuple(cmd), rest)]); want = k.expect(cmd, rest); fd = os.open(f, fl); os.lseek(fd, off, 0); rc, out = fdrun(cmd, fd); os.close(fd); ev += 1
                if rc != 0 or out != ("%s  -\n" % want).encode():
                    c.violation("hash %s - with standard input at offset %d of a file of %d bytes: printed %r (status %s), the library says %s for the rest" % (" ".join(cmd), off, len(whole), out[:80], rc, want[:80]),
                                k.script([], mk=content_sh("rnd", len(whole), f), test="{ dd of=/dev/null bs=1 count=%d status=none; %s; } < %s > out2; [ \"$(cat out2)\" = \"%s  -\" ]" % (off, shlex.join([k.hash] + cmd + ["-"]), f, want))); break
            if len(c.violations) > 6: break
        for nm in ("/proc/version", "/proc/sys/kernel/ostype", "/dev/null"):
            try: data = open(nm, "rb").read()
            except OSError: continue
            ref2 = k.file(data); k.prepare([(tuple(cmd), ref2)]); want = k.expect(cmd, ref2)
            for a, si in ((nm, None), ("-", nm)):
                rc, out, log, err = k.run(cmd + [a], stdin=si); ev += 1
                if rc != 0 or out != ("%s  %s\n" % (want, a)).encode(): c.violation("hash %s %s%s: printed %r (status %s), the library says %s" % (" ".join(cmd), a, " < " + nm if si else "", out[:80], rc, want[:80]), k.script(cmd + [a], stdin=si, test="[ \"$rc\" = 0 ] && [ \"$(cat out)\" = \"%s  %s\" ]" % (want, a)))
    # arguments of the options: lengths and customization strings
    jobs = [((o, str(n)), None) for o in LEN for n in list(range(0, 70)) + [135, 136, 137, 167, 168, 169, 1000, 20000]] + \
           [((o, str(n), s), None) for o in CUST for n in (0, 1, 32, 200) for s in ("", "a", "-", "My Tuple App", "x" * 167, "y" * 5000, "%s", "\u00fc")] + [((o, str(n), "S"), None) for o in CUST for n in range(1, 70)]
    k.prepare([(a, ref) for a, _ in jobs])
    def arg(j):
        a = j[0]; rc, out, log, err = k.run([x.encode() for x in a] + [ref.encode()]); want = k.expect(a, ref)
        return None if rc == 0 and out == ("%s  %s\n" % (want, ref)).encode() else (a, rc, out, want)
    with ThreadPoolExecutor(NPROC) as ex: ab = [r for r in ex.map(arg, jobs) if r]
    ev += len(jobs)
    for a, rc, out, want in ab[:2]:
        c.violation("hash %s: printed %r (status %s), the library says %s" % (" ".join(x[:40] for x in a), out[:80], rc, want[:80]), k.script(list(a) + [ref], mk=content_sh("rnd", 777, ref), test="[ \"$rc\" = 0 ] && [ \"$(cat out)\" = \"%s  %s\" ]" % (want, ref)))
    # the usage text names exactly the options that exist, each with the arguments it takes
    rc, out, log, err = k.run([]); usage = (out + err).decode("utf8", "replace"); ev += 1
    named = {t: seg for t, seg in re.findall(r"(?<![\w<(-])(-[a-z][a-z0-9_-]*)((?:[ \t]*<[^>\n]*>)*)", usage)}
    have = {x[0]: len(x) - 1 for x in commands()}
    for o in sorted(set(named) | set(have)):
        args = named[o].count("<") if o in named else have[o]; full = (["40", "My App"] + ["x"] * 9)[:args]
        rc, out, log, err = k.run([o] + full + [ref]); ev += 1; works = rc == 0 and out.endswith(("  %s\n" % ref).encode()) and re.match(rb"[0-9a-f]+  ", out)
        if o not in named: c.violation("the usage text does not name %s" % o, k.script([], test="grep -q -e '%s' out" % o))
        elif not works: c.violation("the usage text names %s with %d arguments before the file, which the program does not accept: %r" % (o, args, out[:60]), k.script([o] + full + [ref], mk=content_sh("rnd", 777, ref), test="[ \"$rc\" = 0 ] && grep -q '^[0-9a-f]*  ' out"))
        if len(c.violations) > 6: break
    # input that arrives slowly, with the program stopped and continued in between
    for cmd in few[:3]:
        for cuts in ((1, 10), (4096, 5000), (M, M + 1), (M - 1, M + 4096)):
            n = 2 * M + 3; data = content("rnd", n); f = k.file(data); k.prepare([(tuple(cmd), f)])
            p = subprocess.Popen([k.hash] + cmd + ["-"], stdin=subprocess.PIPE, stdout=subprocess.PIPE); last = 0; out = b""
            try:
                for cut in cuts + (n,):
                    p.stdin.write(data[last:cut]); p.stdin.flush(); last = cut; time.sleep(0.01)
                    p.send_signal(signal.SIGSTOP); time.sleep(0.005); p.send_signal(signal.SIGCONT)
                p.stdin.close(); out = p.stdout.read(); p.wait(120)
            except (BrokenPipeError, subprocess.TimeoutExpired): p.kill(); p.wait()
            ev += 1
            if out != ("%s  -\n" % k.expect(cmd, f)).encode(): c.violation("hash %s with input in pieces of %r, stopped and continued: printed %r" % (" ".join(cmd), cuts, out[:80]), k.script(cmd + ["-"], stdin=f, mk=content_sh("rnd", n, f), test="[ \"$(cat out)\" = \"%s  -\" ]" % k.expect(cmd, f)))
    # a file longer than 4 GiB (sparse)
    big = c.path("files/big"); n = (1 << 32) + 70000
    with open(big, "wb") as f: f.truncate(n); f.seek(n - 5); f.write(b"tail!"); f.seek(5); f.write(b"head")
    for cmd in ([["-md5"], ["-fnv64_1a"], ["-sha2-512"]] if not c.thorough else [["-md5"], ["-fnv64_1a"], ["-sha2-512"], ["-crc-32"], ["-sha3-256"], ["-blake2"], ["-sha1"], ["-shake-128", "32"]]):
        cases.append((tuple(cmd), "big", n, "file", None))
    bigs = [x for x in cases if x[1] == "big"]; k.prepare([(x[0], big) for x in bigs])
    def runbig(x): rc, out, log, err = k.run(list(x[0]) + [big], timeout=600); return x, rc, out
    with ThreadPoolExecutor(4) as ex:
        for x, rc, out in ex.map(runbig, bigs):
            ev += 1; want = k.expect(x[0], big)
            if rc != 0 or out != ("%s  %s\n" % (want, big)).encode(): c.violation("hash %s of a file of %d bytes: printed %r, the library says %s" % (" ".join(x[0]), n, out[:90], want), k.script(list(x[0]) + [big], mk="truncate -s %d %s; printf tail! | dd of=%s bs=1 seek=%d conv=notrunc; printf head | dd of=%s bs=1 seek=5 conv=notrunc" % (n, big, big, n - 5, big), test="[ \"$(cat out)\" = \"%s  %s\" ]" % (want, big)))
    c.samples = ["%s of %d bytes (%s) by %s, reads: %s" % (" ".join(a), n, kind, m, p or "unrestricted") for a, kind, n, m, p in cases[5:2000:400]]
    c.assumptions += ["oracle: the library's own classes given the whole content in one call", "reads are shortened and interrupted by trapping the system calls of the real program; EINTR is injected for files, after which the program must print the right digest or fail without one (standard input is stopped and continued instead, since the program installs no signal handler)"]
    return dict(evaluations=ev, distinct_nontrivial=len(cases), rule="a case is an option, content, size, kind of input and read plan; all distinct", options=len(commands()), reads_controlled=traps, distinct_read_traces=len(plans_seen), exhaustive=True,
                bounds="43 options x 7 sizes x 2 kinds of input; 4 options x 25 sizes x 3 kinds; every sequence of 4 read lengths to depth %d; 16 names; digest lengths 0-69 and beyond; one file beyond 4 GiB" % depth)
if __name__ == "__main__": main("C17", "fault_enumeration", body)
