"""Driver library: build harnesses from /repo's current tree in a scratch directory, run them in
parallel, replay before reporting, write evidence, and end with exit status 0 or 1."""
import os, sys, json, time, shutil, subprocess, tempfile, signal, shlex, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = os.cpu_count() or 4

FIXED = ["blake1_224","blake1_256","blake1_384","blake1_512","blake2","blake2s","crc_32","fnv32_0","fnv32_1","fnv32_1a","fnv64_0","fnv64_1","fnv64_1a",
         "has_160","md2","md4","md5","ripemd_128","ripemd_160","ripemd_256","ripemd_320","sha1","sha2_224","sha2_256","sha2_384","sha2_512","sha2_512_224",
         "sha2_512_256","sm3","tiger1_128","tiger1_160","tiger1_192","tiger2_128","tiger2_160","tiger2_192","whirlpool","sha3_224","sha3_256","sha3_384","sha3_512"]
PARAM = ["siphash","shake_128","shake_256","cshake_128","cshake_256","tuple_hash_128","tuple_hash_256"]
ALGS = FIXED + PARAM
HEADER = {}
for _a in ALGS:
    HEADER[_a] = ("fnv.h" if _a.startswith("fnv") else "tiger.h" if _a.startswith("tiger") else "cshake.h" if _a.startswith("cshake") else
                  "tuple_hash.h" if _a.startswith("tuple") else "sha3.h" if _a.startswith("sha3") or _a.startswith("shake") else _a + ".h")
HEADERS = sorted(set(HEADER.values()))

class Fatal(Exception):
    pass

class Violation(Exception):
    def __init__(self, what, replay_script):
        self.what = what; self.script = replay_script

def _run(cmd, timeout, cwd=None, env=None, inp=None):
    """run in its own process group; returns (rc, out, err, timed_out)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         cwd=cwd, env=env, start_new_session=True)
    try:
        out, err = p.communicate(inp, timeout=timeout)
        return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace"), False
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, err = p.communicate()
        return -9, out.decode("utf8", "replace"), err.decode("utf8", "replace"), True

class Check:
    def __init__(self, prop, level):
        self.prop = prop; self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv: self.tier = "thorough"
        if "--quick" in sys.argv: self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try: self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError: self.seed = 1
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.stats = {}; self.samples = []; self.violations = []; self.notes = []; self.assumptions = []; self.extra = {}
        self.known = self._load_known()
        self.known_hit = []
        self.deadline = self.t0 + (float(os.environ.get("VERIF_BUDGET", "840")) if not self.thorough else 6 * 3600)

    def _load_known(self):
        k = []
        try:
            for l in open(os.path.join(VERIF, "known_findings.txt")):
                l = l.strip()
                if l.startswith("known:"):
                    f = dict(x.split("=", 1) for x in l.split()[1:3]); k.append((f.get("property"), f.get("match"), l))
        except OSError: pass
        return k

    def remaining(self): return max(5.0, self.deadline - time.time())

    # --- building ---------------------------------------------------------------
    def path(self, *a): return os.path.join(self.scratch, *a)

    def compile_cmd(self, src, out, flags=(), defs=(), cxx="g++", std="c++17", opt="-O1", incs=(), libs=()):
        s = src if os.path.isabs(src) else os.path.join(VERIF, "harness", src)
        return [cxx, "-std=" + std, opt, "-w", "-I" + VERIF, "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(REPO, "src")] + \
               ["-I" + i for i in incs] + ["-D" + d for d in defs] + list(flags) + [s, "-o", out] + list(libs)

    def build_all(self, jobs, timeout=600):
        """jobs: list of (name, cmd). returns dict name -> (ok, stderr)."""
        def one(j):
            name, cmd = j
            rc, o, e, to = _run(cmd, timeout)
            if to: raise Fatal("compiler timed out: " + " ".join(cmd))
            if rc != 0 and "error:" not in e and "undefined reference" not in e and "multiple definition" not in e:
                # killed or out of memory: try once more, alone
                rc, o, e, to = _run(cmd, timeout)
                if rc != 0 and "error:" not in e and "undefined reference" not in e and "multiple definition" not in e:
                    raise Fatal("compiler failed without a diagnostic: %s\n%s" % (" ".join(cmd), e[-2000:]))
            return name, (rc == 0, e)
        with ThreadPoolExecutor(NPROC) as ex:
            return dict(ex.map(one, jobs))

    def build_or_violation(self, jobs, what="public interface no longer usable"):
        r = self.build_all(jobs)
        for name, cmd in jobs:
            ok, err = r[name]
            if not ok:
                lines = [l for l in err.splitlines() if "error" in l or "undefined" in l or "multiple" in l][:3]
                self.violation("%s: %s; the program does not build: %s" % (name, what, " / ".join(lines)[:400]), self.script([cmd], expect="compile"))
        return [j[0] for j in jobs if r[j[0]][0]]

    # --- running ----------------------------------------------------------------
    def script(self, cmds, expect="run"):
        cmds = [c if isinstance(c, str) else shlex.join(c) for c in cmds]
        tmp = self.scratch
        body = "\n".join(cmds).replace(tmp, "$D")
        return "#!/bin/bash\n# replay for property %s: exits non-zero when the violation is present\nD=$(mktemp -d); trap 'rm -rf -- \"$D\"' EXIT\nset -e\n%s\n" % (self.prop, body.replace("'$D", "\"$D\"'"))

    def violation(self, what, script):
        for prop, match, line in self.known:
            if prop == self.prop and match and match in what.replace(" ", "_"):
                if line not in self.known_hit: self.known_hit.append(line)
                return
        self.violations.append((what, script))

    def run_harness(self, jobs, timeout=None):
        """jobs: list of dict(name, exe, args, build=[cmds]).  Harness protocol: STAT/FAIL/SAMPLE/DONE.
        A crash or a hang counts only after it reproduces."""
        timeout = timeout or self.remaining()
        def one(j):
            cur = self.path(j["name"] + ".cur")
            cmd = [j["exe"]] + [str(a) for a in j.get("args", [])]
            env = dict(os.environ, VERIF_CUR=cur); env.update(j.get("env", {}))
            t = time.time()
            rc, o, e, to = _run(cmd, j.get("timeout", timeout), env=env, cwd=self.scratch)
            return j, rc, o, e, to, time.time() - t, cur
        with ThreadPoolExecutor(j_par(jobs)) as ex:
            res = list(ex.map(one, jobs))
        for j, rc, o, e, to, dt, cur in res:
            self.times = getattr(self, "times", {}); self.times[j["name"]] = round(dt, 2)
            fails = []; done = False
            for l in o.splitlines():
                if l.startswith("STAT "):
                    _, k, v = l.split(" ", 2); self.stats[k] = self.stats.get(k, 0) + int(v)
                elif l.startswith("MAX "):
                    _, k, v = l.split(" ", 2); self.stats[k] = max(self.stats.get(k, 0), int(v))
                elif l.startswith("SAMPLE "): self.samples.append("%s: %s" % (j["name"], l[7:]))
                elif l.startswith("FAIL "): fails.append(l[5:])
                elif l.startswith("NOTE "): self.notes.append("%s: %s" % (j["name"], l[5:]))
                elif l.startswith("DONE "): done = True
            if done and not fails and rc == 0: continue
            if len(self.violations) >= 4: continue      # enough; each report costs a replay
            if not fails:
                # crash / sanitizer report / hang: attribute to the current case
                case = ""
                try: case = open(cur, "rb").read().split(b"\0")[0].decode("utf8", "replace")
                except OSError: pass
                why = "timed out" if to else ("ended with status %d%s" % (rc, " before finishing" if not done else ""))
                det = [l for l in e.splitlines() if "ERROR" in l or "runtime error" in l or "Assertion" in l or "terminate" in l or "WARNING" in l]
                why += ": " + (" / ".join(det)[:300] if det else e.strip()[-200:])
                if not case:
                    if to: raise Fatal("%s: %s (no case recorded)" % (j["name"], why))
                    rc2, o2, e2, to2 = _run([j["exe"]] + [str(a) for a in j.get("args", [])], self.remaining(), env=dict(os.environ, **j.get("env", {})), cwd=self.scratch)
                    if rc2 == 0: raise Fatal("%s: failure did not reproduce: %s" % (j["name"], why))
                    self.violation("%s: %s" % (j["name"], why), self.script(list(j.get("build", [])) + [[j["exe"]] + [str(a) for a in j.get("args", [])]]))
                    continue
                fails = [case + " | " + why]
            reported = False
            for f in fails[:1] if len(fails) == 1 else fails[:3]:
                case, _, why = f.partition(" | ")
                rcmd = [j["exe"]] + [str(a) for a in j.get("args", [])] + ["--case", case]
                rc2, o2, e2, to2 = _run(rcmd, max(60, self.remaining()), env=dict(os.environ, **j.get("env", {})), cwd=self.scratch)
                if to2 and not to:
                    continue
                if rc2 != 0 and (("FAIL " in o2) or ("DONE" not in o2)):
                    self.violation("%s: %s: %s" % (j["name"], case[:300], why[:400]), self.script(list(j.get("build", [])) + [rcmd])); reported = True
                    break
            if not reported:
                # the failing case alone passes: only the whole run shows it; re-run the whole job to confirm
                rc2, o2, e2, to2 = _run([j["exe"]] + [str(a) for a in j.get("args", [])], max(60, self.remaining()), env=dict(os.environ, **j.get("env", {})), cwd=self.scratch)
                if rc2 != 0 and ("FAIL " in o2 or ("DONE" not in o2 and not to2)):
                    self.violation("%s (needs the preceding cases of the run): %s" % (j["name"], fails[0][:500]), self.script(list(j.get("build", [])) + [[j["exe"]] + [str(a) for a in j.get("args", [])]]))
                else:
                    raise Fatal("%s: failure did not reproduce: %s" % (j["name"], fails[0][:500]))
        return res

    def per_alg(self, src, algs, defs=(), opt="-O2", args=(), flags=(), cxx="g++", std="c++17", libs=(), tag="", parts=1, **kw):
        """one harness program per algorithm; returns the set that built"""
        jobs, runs = [], []
        for a in algs:
            n = a + tag
            cmd = self.compile_cmd(src, self.path(n), defs=["ALG_" + a] + list(defs), opt=opt, flags=flags, cxx=cxx, std=std, libs=libs)
            jobs.append((n, cmd))
            for i in range(parts):
                runs.append(dict(name=n if parts == 1 else "%s.%d" % (n, i), prog=n, exe=self.path(n), args=["--thorough", int(self.thorough)] + list(args) + (["--part", i, "--parts", parts] if parts > 1 else []), build=[cmd], **kw))
        ok = set(self.build_or_violation(jobs))
        self.run_harness([r for r in runs if r["prog"] in ok])
        return ok

    # --- ending -----------------------------------------------------------------
    def finish(self, coverage):
        for line in self.known_hit: print("KNOWN-FINDING: property=%s %s" % (self.prop, line))
        cov = dict(coverage); cov.update(self.extra)
        cov.setdefault("samples", self.samples[:8] or ["(none)"])
        if self.notes: cov["notes"] = self.notes[:20]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence"); os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.tmp" % self.prop)
        with open(tmp, "w") as f: json.dump(ev, f, indent=1); f.write("\n")
        os.rename(tmp, os.path.join(d, self.prop + ".json"))
        rc = 0
        if self.violations:
            rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
            for i, (what, script) in enumerate(self.violations[:8]):
                rp = os.path.join(rd, "%s-%d.sh" % (self.prop, i))
                with open(rp, "w") as f: f.write(script)
                os.chmod(rp, 0o755)
                print("  " + what)
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            rc = 1
        print("%s %s: %s in %.1fs %s" % (self.prop, self.tier, "VIOLATED" if rc else "held", time.time() - self.t0,
              " ".join("%s=%s" % (k, v) for k, v in cov.items() if isinstance(v, int) and not isinstance(v, bool))))
        return rc

def j_par(jobs):
    p = min([j.get("parallel", NPROC) for j in jobs] or [NPROC])
    return max(1, p)

def main(prop, level, body):
    c = Check(prop, level)
    try:
        try:
            cov = body(c)
            rc = c.finish(cov)
        except Fatal as e:
            print("check error: %s" % e)
            if c.violations: rc = c.finish({"explanation": "check ended early: %s" % e, "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0, "distinct_nontrivial": 0, "rule": ""})
            else: rc = 2
    finally:
        if os.environ.get("VERIF_KEEP") != "1": shutil.rmtree(c.scratch, ignore_errors=True)
        else: print("scratch kept:", c.scratch)
    sys.stdout.flush()
    sys.exit(rc)
