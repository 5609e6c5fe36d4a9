"""The hash program under a controlled read/open layer, and the library's own answers."""
import os, re, sys, subprocess, itertools, random, shutil
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from vlib import _run
PLAIN = ["-" + x for x in "blake1-224 blake1-256 blake1-384 blake1-512 blake2 blake2s crc-32 fnv32_1a fnv64_1a has160 md2 md4 md5 ripemd-128 ripemd-160 ripemd-256 ripemd-320 siphash sha1 sha2-224 sha2-256 sha2-384 sha2-512 sha2-512-224 sha2-512-256 sha3-224 sha3-256 sha3-384 sha3-512 sm3 tiger1-128 tiger1-160 tiger1-192 tiger2-128 tiger2-160 tiger2-192 whirlpool".split()]
LEN = ["-shake-128", "-shake-256"]
CUST = ["-cshake-128", "-cshake-256", "-tuple-hash-128", "-tuple-hash-256"]
def commands():
    return [[o] for o in PLAIN] + [[o, "40"] for o in LEN] + [[o, "40", "My App"] for o in CUST]

class Cli:
    def __init__(self, c, sanitized=False):
        self.c = c; src = os.path.join(REPO, "src", "program", "main.cpp"); self.cmds = {}
        jobs = []
        def add(n, cmd): jobs.append((n, cmd)); self.cmds[n] = cmd
        add("hash", ["g++", "-std=c++14", "-O3", "-w", src, "-o", c.path("hash")])
        if sanitized: add("hash_san", ["g++", "-std=c++14", "-O1", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", src, "-o", c.path("hash_san")])
        add("climodel", ["g++", "-std=c++17", "-O2", "-w", "-I" + os.path.join(REPO, "src"), os.path.join(VERIF, "harness/cli/climodel.cpp"), "-o", c.path("climodel")])
        add("rf.so", ["gcc", "-O2", "-w", "-shared", "-fPIC", os.path.join(VERIF, "harness/cli/readfault.c"), "-o", c.path("rf.so")])
        ok = c.build_or_violation(jobs, what="hash program or library not usable")
        self.ok = len(ok) == len(jobs); self.memo = {}; self.dir = c.path("files"); os.makedirs(self.dir, exist_ok=True); self.n = 0
        self.hash = c.path("hash"); self.files = {}
    def file(self, content):
        """path of a file with this content"""
        if content not in self.files:
            p = os.path.join(self.dir, "f%d" % len(self.files))
            with open(p, "wb") as f: f.write(content)
            self.files[content] = p
        return self.files[content]
    def expect(self, cmd, path):
        k = (tuple(cmd), path)
        return self.memo[k]
    def prepare(self, pairs):
        """fill the memo: pairs of (cmd, path)"""
        todo = sorted({(tuple(a), p) for a, p in pairs} - set(self.memo), key=lambda x: x[1])
        if not todo: return
        parts = [todo[i::NPROC] for i in range(NPROC)]
        def one(part):
            if not part: return
            inp = "".join("\x1f".join(list(a) + [p]) + "\n" for a, p in part).encode("utf8", "surrogateescape")
            r = subprocess.run([self.c.path("climodel")], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            out = r.stdout.decode().split("\n")
            if r.returncode or len(out) != len(part) + 1: raise Fatal("climodel failed (status %d): %s" % (r.returncode, r.stderr[-200:]))
            for k, o in zip(part, out): self.memo[k] = o
        with ThreadPoolExecutor(NPROC) as ex: list(ex.map(one, parts))
    def run(self, args, stdin=None, plan=None, openfail=None, path=None, exe=None, log=True, timeout=40, env=None, cwd=None, wplan=None, stdout=None):
        """returns (status, stdout bytes, log text, stderr bytes)"""
        e = dict(os.environ); e.update(env or {})
        lg = None
        if plan is not None or openfail is not None or wplan is not None:
            self.n += 1; lg = self.c.path("log%d" % next(_ctr))
            e.update(LD_PRELOAD=self.c.path("rf.so"), RF_LOG=lg)
            if plan is not None: e["RF_READ"] = plan
            if wplan is not None: e["RF_WRITE"] = wplan
            if openfail: e["RF_OPEN"] = openfail; e["RF_PATH"] = path
        kw = {}
        if isinstance(stdin, bytes): kw["input"] = stdin
        elif isinstance(stdin, str):
            kw["stdin"] = open(stdin, "rb")
        elif stdin is None: kw["stdin"] = subprocess.DEVNULL
        try:
            pre = ["/bin/sh", "-c", 'exec "$@" <&-', "sh"] if stdin == 0 and not isinstance(stdin, (bytes, str)) else []
            try: r = subprocess.run(pre + [exe or self.hash] + list(args), stdout=subprocess.PIPE if stdout is None else stdout, stderr=subprocess.PIPE, env=e, timeout=timeout, cwd=cwd or self.dir, **kw)
            except BrokenPipeError: return None, b"", "", b""
            rc, out, err = r.returncode, r.stdout or b"", r.stderr
        except subprocess.TimeoutExpired as x: rc, out, err = "timeout", x.stdout or b"", b""
        finally:
            if "stdin" in kw and hasattr(kw["stdin"], "close"): kw["stdin"].close()
        text = ""
        if lg:
            try:
                with open(lg) as f: text = f.read()
                os.unlink(lg)
            except OSError: pass
            if rc == 99 and b"readfault: cannot install" in err: raise Fatal("cannot install the system call trap here: %r" % err[-200:])
            if not text.startswith("I"): raise Fatal("the system call trap did not start: %r" % err[-200:])
        return rc, out, text, err
    def script(self, args, stdin=None, plan=None, openfail=None, path=None, test="", mk="", exe="hash", wplan=None, to="out"):
        """replay: builds the program, recreates the input and states what must hold in `test`"""
        q = [shlex.join(self.cmds[exe])]
        if plan is not None or openfail or wplan is not None: q.append(shlex.join(self.cmds["rf.so"]))
        q.append("mkdir -p %s; cd %s" % (self.dir, self.dir))
        if mk: q.append(mk)
        pre = ""
        if plan is not None or openfail or wplan is not None: pre = "LD_PRELOAD=%s " % self.c.path("rf.so") + ("RF_READ=%s " % shlex.quote(plan) if plan is not None else "") + ("RF_WRITE=%s " % shlex.quote(wplan) if wplan is not None else "") + ("RF_OPEN=%s RF_PATH=%s " % (openfail, path) if openfail else "")
        q.append("set +e; : > out; %s%s %s < %s >%s; rc=$?; head -c 3000 out; echo \"status $rc\"" % (pre, self.c.path(exe), shlex.join(args), stdin or "/dev/null", to))
        q.append(test)
        return self.c.script(q)
_ctr = itertools.count()
def content(kind, n):
    if kind == "ff": return b"\xff" * n
    if kind == "00": return b"\0" * n
    if kind == "nl": return (b"\r\n\x1a\n" * (n // 4 + 1))[:n]
    return random.Random(7).randbytes(n)
def content_sh(kind, n, path):
    return "python3 %s/lib/cli.py mk %s %d %s" % (VERIF, kind, n, path)
DIGEST_LINE = re.compile(rb"(?m)^[0-9a-f]+  ")
if __name__ == "__main__" and sys.argv[1:2] == ["mk"]:
    with open(sys.argv[4], "wb") as f: f.write(content(sys.argv[2], int(sys.argv[3])))
