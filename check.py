#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--job NAME]
Builds the instrumented library and harnesses from /repo's working tree, runs
the workloads of the property and decides.  Exit 0 held / 1 violation /
2 error or inconclusive."""
import sys, os, json, time, re, subprocess, threading, mmap, struct, fnmatch, tempfile, shutil, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
import build
from checks import CHECKS

HANG_S = 45
GLOBAL_DEADLINE = 820

def load_known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in ([^\s(]+).*?(/repo/[^\s:)]+|/verif/[^\s:)]+|\S+)?(?::\d+)*")

def crash_key(text, rc):
    """identity of a sanitizer report / abort / signal: kind + first library frame"""
    kind = None
    m = re.search(r"Assertion failed: (.*?) at /\S*?/(\w+\.\w+) line", text)
    if m:
        return "assert:%s:%s" % (m.group(2), re.sub(r"\s+", "", m.group(1))[:60])
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        kind = "asan:" + m.group(1)
    if not kind:
        m = re.search(r"(/\S+?):\d+:\d+: runtime error: (.*)", text)
        if m:
            kind = "ubsan:" + re.sub(r"(0x[0-9a-f]+|-?\d+)", "N", m.group(2))[:50].replace(" ", "-")
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", text)
        if m:
            kind = "tsan:" + m.group(1).strip().split(" (")[0].replace(" ", "-")
    if not kind:
        m = re.search(r"DEADLYSIGNAL|SEGV on", text)
        if m:
            kind = "segv"
    if not kind:
        if rc is not None and rc < 0:
            kind = "signal%d" % -rc
        else:
            kind = "exit%s" % rc
    fr = None
    start = text.find("ERROR:")
    if start < 0:
        start = max(text.find("runtime error"), text.find("WARNING: ThreadSanitizer"), 0)
    for l in text[start:].splitlines():
        m = re.match(r"\s*#\d+ (?:0x[0-9a-f]+ in )?([\w~:<>]+)", l)
        if m and (build.REPO + "/" in l):
            fr = m.group(1)
            break
    return kind + ":" + (fr or "?")

class Shard(threading.Thread):
    def __init__(self, run, job, exe, a, b):
        super().__init__()
        self.run_, self.job, self.exe, self.a, self.b = run, job, exe, a, b
        self.inconclusive = []

    def launch(self, a, b):
        R, job = self.run_, self.job
        fd, stp = tempfile.mkstemp(prefix="st", dir=R.scratch)
        os.ftruncate(fd, 4096)
        mm = mmap.mmap(fd, 4096)
        os.close(fd)
        cmd = [self.exe, "--seed", str(R.seed + 7919 * self.job.get("seedmix", 0)), "--from", str(a), "--to", str(b), "--status", stp]
        if job.get("mode"):
            cmd += ["--mode", job["mode"]]
        if R.tier == "thorough":
            cmd += ["--thorough"]
        env = dict(os.environ)
        env.update({"UMF_LOG": "level:fatal;flush:fatal;output:stderr", "VERIF_SCRATCH": R.scratch,
                    "ASAN_SYMBOLIZER_PATH": shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or "",
                    "VERIF_BUILD": build.BUILD})
        for k in ("LD_PRELOAD", "UMF_CONF", "UMF_CONF_FILE", "UMF_PROXY", "UMF_MAX_OPENED_IPC_HANDLES"):
            env.pop(k, None)
        env.update(job.get("env", {}))
        env = {k: v for k, v in env.items() if v is not None} # None: not set
        outp = stp + ".out"
        errp = stp + ".err"
        with open(outp, "wb") as o, open(errp, "wb") as e:
            p = subprocess.Popen(cmd, stdout=o, stderr=e, env=env, cwd=R.scratch, start_new_session=True)
        last, lastt = None, time.time()
        hang = False
        hang_s = job.get("hang_s", HANG_S)
        while True:
            try:
                rc = p.wait(timeout=0.05 if time.time() - lastt < 2 else 0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            pr = struct.unpack_from("<QQQ", mm, 0)
            if pr != last:
                last, lastt = pr, time.time()
            if time.time() - lastt > hang_s or R.expired():
                hang = not R.expired()
                try:
                    os.kill(p.pid, signal.SIGTERM)
                    p.wait(timeout=5)
                except Exception:
                    pass
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    pass
                rc = p.wait()
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass
        cur, prog, done = struct.unpack_from("<QQQ", mm, 0)
        lab = mm[24:24 + 256].split(b"\0")[0].decode(errors="replace")
        out = open(outp, errors="replace").read()
        err = open(errp, errors="replace").read()
        mm.close()
        for f in (stp, outp, errp):
            os.unlink(f)
        return rc, hang, cur, done, lab, out, err, cmd

    def run(self):
        try:
            self.run2()
        except Exception as ex:
            self.run_.errors.append("shard error: %r" % ex)

    def run2(self):
        R, job = self.run_, self.job
        a = self.a
        hangs = 0
        crashes = 0
        while a < self.b and not R.expired():
            rc, hang, cur, done, lab, out, err, cmd = self.launch(a, self.b)
            R.absorb(job, out, done, self.a)
            finished = "\nDONE\n" in out
            if finished and rc in (0, 3):
                return
            if R.expired():
                return
            single = list(cmd)
            single[single.index("--from") + 1] = str(cur)
            single[single.index("--to") + 1] = str(cur + 1)
            if hang:
                # decide on a second, isolated run of the same case
                rc2, hang2, *_ = self.launch(cur, cur + 1)
                if hang2:
                    R.violation(job, "hang@%s" % lab, "case %d made no progress for %ds in two runs; %s"
                                % (cur, job.get("hang_s", HANG_S), lab), single, err[-2000:])
                else:
                    R.notes.append("case %d of %s timed out once, completed when repeated" % (cur, job["name"]))
                hangs += 1
                if hangs >= 2:
                    return
            elif rc == -9 and "AddressSanitizer" not in err:
                R.errors.append("case %d of %s killed (memory?)" % (cur, job["name"]))
                crashes += 1
            elif rc == 77:
                R.errors.append("harness error in %s case %d: %s" % (job["name"], cur, err[-500:]))
                return
            else:
                key = crash_key(err + out, rc)
                R.violation(job, "%s@%s" % (key, lab), "case %d died (rc=%s) in [%s]: %s" % (cur, rc, lab, key),
                            single, err[-6000:])
                crashes += 1
            if crashes >= 6:
                R.notes.append("stopped shard of %s after %d crashes" % (job["name"], crashes))
                return
            if lab in ("exit",):
                return
            a = cur + 1

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.spec = CHECKS[prop]
        self.known = load_known(prop)
        self.stats, self.maxima, self.sigs, self.samples = {}, {}, set(), []
        self.viols, self.knownhit = {}, {}
        self.errors, self.notes = [], []
        self.cases = 0
        self.lock = threading.Lock()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        os.chmod(self.scratch, 0o755)
        self.byjob = {}

    def expired(self):
        return time.time() - self.t0 > (GLOBAL_DEADLINE if self.tier == "quick" else 40000)

    def absorb(self, job, out, done, a):
        with self.lock:
            self.cases += done
            self.byjob[job["name"]] = self.byjob.get(job["name"], 0) + done
            for l in out.splitlines():
                if l.startswith("VIOL "):
                    key, _, msg = l[5:].partition(" :: ")
                    m = re.match(r"case (\d+)", msg)
                    case = int(m.group(1)) if m else 0
                    self._viol(job, key, msg, None, "", case)
                elif l.startswith("STAT "):
                    _, n, v = l.split()
                    self.stats[n] = self.stats.get(n, 0) + int(v)
                elif l.startswith("MAX "):
                    _, n, v = l.split()
                    self.maxima[n] = max(self.maxima.get(n, 0), int(v))
                elif l.startswith("SIGS"):
                    self.sigs.update(l.split()[1:])
                elif l.startswith("SAMPLE ") and len(self.samples) < 8:
                    if sum(1 for s in self.samples if s.startswith(job["name"])) < 2:
                        self.samples.append(job["name"] + " " + l[7:])

    def violation(self, job, key, msg, cmd, log):
        with self.lock:
            self._viol(job, key, msg, cmd, log, None)

    def _viol(self, job, key, msg, cmd, log, case):
        for pat, what in self.known:
            if fnmatch.fnmatchcase(key, pat):
                self.knownhit[pat] = self.knownhit.get(pat, 0) + 1
                return
        if key not in self.viols:
            self.viols[key] = dict(key=key, msg=msg, cmd=cmd, log=log, case=case, job=job["name"], count=1)
        else:
            self.viols[key]["count"] += 1

    def go(self, only=None):
        spec = self.spec
        built = {}
        for job in spec["jobs"]:
            if only and job["name"] != only:
                continue
            n = job["thorough"] if self.tier == "thorough" else job["quick"]
            if n <= 0:
                continue
            tb = time.time()
            if job.get("shared"):
                build.build_shared("-O1 -g", os.path.join(build.BUILD, "shared"))
            exe = build.build_harness(job["variant"], job["exe"], job["srcs"], job.get("wraps", ()),
                                      job.get("ld", ()), job.get("defs", ()))
            for extra in job.get("extra_build", ()):
                extra(build)
            t1 = time.time()
            shards = min(job.get("shards", 8), n)
            ths = []
            for i in range(shards):
                a, b = n * i // shards, n * (i + 1) // shards
                ths.append(Shard(self, job, exe, a, b))
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            print("  job %-28s build %.1fs run %.1fs cases %d" % (job["name"], t1 - tb, time.time() - t1, self.byjob.get(job["name"], 0)))
            sys.stdout.flush()
            if self.viols or self.expired():
                break

    def finish(self, only=None):
        wall = time.time() - self.t0
        cov = dict(evaluations=self.cases, distinct_nontrivial=len(self.sigs), rule=self.spec["rule"],
                   samples=self.samples[:8] or ["(none)"], cases_by_job=self.byjob, observed=self.stats,
                   observed_max=self.maxima, notes=self.notes, known_findings_hit=self.knownhit,
                   jobs={j["name"]: {"variant": j["variant"], "mode": j.get("mode", "")} for j in self.spec["jobs"]})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.spec.get("level", "exploration"),
                  coverage=cov, wall_s=round(wall, 2), violations=len(self.viols),
                  assumptions=self.spec.get("assumptions", []))
        evd = os.environ.get("VERIF_EVID") or os.path.join(HERE, "evidence")
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        # named shared memory which ended workloads left behind
        for n in os.listdir("/dev/shm") if os.path.isdir("/dev/shm") else []:
            m = re.match(r"(?:verif_[a-z0-9]+|umf_proxy_lib_shm_pid)_(\d+)", n)
            if m and not os.path.exists("/proc/" + m.group(1)):
                try:
                    os.unlink("/dev/shm/" + n)
                except OSError:
                    pass
        for pat, what in self.known:
            if pat in self.knownhit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        for n in self.notes[:10]:
            print("note: " + n)
        print("%s: %d cases, %d distinct, %.1fs; %s" % (self.prop, self.cases, len(self.sigs), wall,
              " ".join("%s=%d" % kv for kv in sorted(self.stats.items()))[:1500]))
        if self.viols:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            for i, v in enumerate(self.viols.values()):
                path = os.path.join(HERE, "replays", "%s-%d-%d.json" % (self.prop, self.seed, i))
                v.update(property=self.prop, seed=self.seed, tier=self.tier)
                with open(path, "w") as f:
                    json.dump(v, f, indent=1)
                print("  %s x%d [%s] %s" % (v["key"], v["count"], v["job"], v["msg"][:700]))
                if v["log"]:
                    print("    " + "\n    ".join(v["log"].splitlines()[:int(os.environ.get("VERIF_LOGLINES", "25"))]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if self.errors:
            for e in self.errors[:10]:
                print("ERROR: " + e)
            return 2
        if self.expired():
            print("ERROR: deadline reached: inconclusive")
            return 2
        if not only:
            for k, fl in self.spec.get("floor", {}).items():
                if self.stats.get(k, 0) < fl:
                    print("ERROR: only %d %s observed (floor %d): inconclusive" % (self.stats.get(k, 0), k, fl))
                    return 2
        return 0

def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    replay = None
    i = 1
    while i < len(args):
        if args[i] == "--tier": tier = args[i + 1]; i += 1
        elif args[i] == "--seed": seed = int(args[i + 1]); i += 1
        elif args[i] == "--job": only = args[i + 1]; i += 1
        elif args[i] == "--replay": replay = args[i + 1]; i += 1
        i += 1
    if replay:
        v = json.load(open(replay))
        R = Run(prop, v["tier"], v["seed"])
        job = [j for j in R.spec["jobs"] if j["name"] == v["job"]][0]
        exe = build.build_harness(job["variant"], job["exe"], job["srcs"], job.get("wraps", ()), job.get("ld", ()), job.get("defs", ()))
        m = re.match(r"case (\d+)", v["msg"])
        c = int(m.group(1))
        s = Shard(R, job, exe, c, c + 1); s.start(); s.join()
        return R.finish(only=True)
    R = Run(prop, tier, seed)
    try:
        R.go(only)
    except build.BuildError as e:
        print("ERROR: build failed\n%s" % e)
        shutil.rmtree(R.scratch, ignore_errors=True)
        return 2
    return R.finish(only)

if __name__ == "__main__":
    sys.exit(main())
