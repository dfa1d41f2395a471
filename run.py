#!/usr/bin/env python3
"""Driver of the checks.
  run.py check C01 [--tier quick|thorough]     run one property's check
  run.py replay FILE                           run the one case a violation names again
  run.py setup                                 verify the tool chain, warm the object cache
  run.py all [--tier T] [IDs]                  run several checks (development aid)
Exit: 0 held on everything explored; 1 with VIOLATION lines; 2 anything else (machinery, inconclusive)."""
import sys, os, json, subprocess, hashlib, time, re, shutil, threading, tempfile, signal, struct, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, HERE)
NPROC = min(8, os.cpu_count() or 8)
CXX = "g++"
BASE = ["-std=c++14", "-g1", "-w", "-fno-omit-frame-pointer"]
FLAVOUR = {
    # one sanitizer family per build; reports are fatal
    "asan": ["-O1", "-fsanitize=address,undefined", "-fsanitize=float-cast-overflow", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O1"],
    "rel": ["-O2", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"],
}
ENV = {
    "asan": {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:max_malloc_fill_size=8192:detect_stack_use_after_return=1:allocator_may_return_null=0:handle_abort=1:detect_odr_violation=0:max_free_fill_size=1024",
             "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4:detect_deadlocks=0"},
    "plain": {},
}
ENV["rel"] = ENV["asan"]

class HarnessError(Exception): pass

def incs():
    d = ["-I" + os.path.join(HERE, "lib"), "-I" + os.path.join(HERE, "shims")]
    d += ["-I" + p for p in sorted(glob.glob(REPO + "/ecl_*/include"))]
    return d + ["-isystem", "/usr/include/eigen3"]

def sha(path):
    try:
        with open(path, "rb") as f: return hashlib.sha256(f.read()).hexdigest()
    except OSError: return "absent"

class Builder:
    """Compiles with an object cache keyed by the contents of every file the object was made from."""
    def __init__(self): self.shas = {}; self.lock = threading.Lock()
    def fsha(self, p):
        with self.lock:
            if p in self.shas: return self.shas[p]
        s = sha(p)
        with self.lock: self.shas[p] = s
        return s
    def obj(self, src, flags, name):
        cmd = [CXX] + BASE + flags + incs() + ["-c", src]
        key = hashlib.sha256("\0".join(cmd).encode()).hexdigest()[:24]
        d = os.path.join(BUILD, "obj"); os.makedirs(d, exist_ok=True)
        o = os.path.join(d, key + ".o"); sig = os.path.join(d, key + ".sig")
        try:
            rec = json.load(open(sig))
            if os.path.exists(o) and all(self.fsha(p) == h for p, h in rec.items()): return o
        except (OSError, ValueError): pass
        tmp = tempfile.mktemp(dir=d); dep = tmp + ".d"
        r = subprocess.run(cmd + ["-MMD", "-MF", dep, "-o", tmp], capture_output=True, text=True)
        if r.returncode != 0: raise HarnessError("compiling %s: %s" % (src, "\n".join((r.stderr or r.stdout).splitlines()[:12])))
        deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split(); os.unlink(dep)
        deps = sorted(set(os.path.realpath(p) for p in deps if not p.startswith("/usr/")))
        rec = {p: sha(p) for p in deps}
        os.replace(tmp, o)
        with open(sig + ".t%d" % threading.get_ident(), "w") as f: json.dump(rec, f)
        os.replace(sig + ".t%d" % threading.get_ident(), sig)
        return o
    def programs(self, cid, progs):
        jobs = []
        for i, p in enumerate(progs):
            fl = FLAVOUR[p["flavour"]] + p.get("flags", [])
            srcs = [os.path.join(HERE, "lib/mon.cpp")] + [os.path.join(HERE, "harness", s) for s in p["src"]]
            for s in p.get("repo", []):
                m = sorted(glob.glob(os.path.join(REPO, s)))
                if not m: raise HarnessError("no such source " + s)
                srcs += m
            jobs.append((p, fl, srcs))
        flat = [(i, s, fl) for i, (p, fl, srcs) in enumerate(jobs) for s in srcs]
        # slow ones (harness files) first
        flat.sort(key=lambda t: 0 if "/harness/" in t[1] else 1)
        with ThreadPoolExecutor(NPROC) as ex:
            objs = list(ex.map(lambda t: (t[0], self.obj(t[1], [f.replace("@REPO@", REPO).replace("@HERE@", HERE) for f in t[2]], cid)), flat))
        bins = []
        for i, (p, fl, srcs) in enumerate(jobs):
            os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
            out = os.path.join(BUILD, "bin", "%s_%d_%d" % (cid, i, os.getpid()))
            san = [f for f in fl if f.startswith("-fsanitize") or f.startswith("-O")]
            r = subprocess.run([CXX] + san + [o for j, o in objs if j == i] + ["-o", out, "-pthread"] + p.get("libs", []) + ["-lrt", "-ldl"], capture_output=True, text=True)
            if r.returncode != 0: raise HarnessError("linking %s: %s" % (out, r.stderr[:3000]))
            bins.append(out)
        return bins

def crash_key(err, rc):
    """Stable name for a crash: kind and the innermost frame inside the repository."""
    kind = None
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", err)
    if m: kind = "asan:" + m.group(2)
    m2 = re.search(r"^(\S+?):(\d+):\d+: runtime error: (.*)$", err, re.M)
    if m2 and not m: kind = "ubsan:" + re.sub(r"-?\d+(\.\d+)?(e[+-]?\d+)?|0x[0-9a-f]+|'[^']*'", "#", m2.group(3))[:80].strip()
    m3 = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", err)
    if m3: kind = "tsan:" + m3.group(1).strip().replace(" ", "-")
    if "terminate called" in err and not kind: kind = "terminate"
    if "Assertion" in err and not kind: kind = "assertion"
    if not kind: kind = ("signal:%d" % -rc) if rc < 0 else "exit:%d" % rc
    frame = ""
    for fm in re.finditer(r"#\d+ (?:0x[0-9a-f]+ )?(?:in )?(.+?) (\S+?):(\d+)", err):
        if REPO + "/" in os.path.normpath(fm.group(2)) + "/" or "/ecl/" in fm.group(2) and "/shims/" not in fm.group(2):
            fn = re.sub(r"<.*>|\(.*", "", fm.group(1)); fn = fn.split("::")[-1]
            frame = os.path.basename(fm.group(2)) + ":" + fn; break
    if not frame and m2: frame = os.path.basename(m2.group(1))
    return "crash:" + kind + ("@" + frame if frame else "")

class Run:
    def __init__(self, cid, cfg, tier, seed):
        self.cid, self.cfg, self.tier, self.seed = cid, cfg, tier, seed
        self.lock = threading.Lock()
        self.viol = {}       # key -> first record
        self.vcount = {}
        self.counters = {}; self.prints = set(); self.samples = []; self.evals = 0
        self.incon = []; self.errors = []; self.groups = {}
        self.crashes = {}; self.hung = {}
        self.t0 = time.time(); self.known = known()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % cid)
        os.chmod(self.scratch, 0o755)
    def record(self, prog, flavour, group, key, case, detail):
        with self.lock:
            self.vcount[key] = self.vcount.get(key, 0) + 1
            if key not in self.viol:
                self.viol[key] = dict(key=key, case=case, group=group, prog=prog, flavour=flavour, detail=detail)
    def absorb(self, outf, pi, flavour, group):
        done = False
        try: lines = open(outf, errors="replace").read().split("\n")
        except OSError: lines = []
        for l in lines:
            if l.startswith("V "):
                try: v = json.loads(l[2:])
                except ValueError: continue
                self.record(pi, flavour, group, v["key"], v["case"], v["detail"])
            elif l.startswith("I "):
                with self.lock: self.incon.append(l[2:])
            elif l.startswith("C "):
                c = json.loads(l[2:])
                with self.lock: self.counters[c["name"]] = self.counters.get(c["name"], 0) + c["n"]
            elif l.startswith("S "):
                with self.lock:
                    self.samples.append(json.loads(l[2:]))
            elif l.startswith("P "):
                with self.lock: self.prints.add(l[2:])
            elif l.startswith("E "): done = True
        return done
    def decided(self):
        """Something is violated and a check's share of time is used up: what is left cannot change the answer."""
        if time.time() - self.t0 < (330 if self.tier != "thorough" else 5000): return False
        with self.lock: return any((self.cid, k.replace(" ", "_")) not in self.known for k in self.viol)
    def shard(self, pi, binary, flavour, group, a, b, hang):
        """Runs cases [a,b) of a group, surviving crashes and hangs of single cases."""
        while a < b:
            if self.hung.get(group) or sum(self.hung.values()) >= 6 or self.decided(): return   # already decided, and each more costs minutes
            sd = tempfile.mkdtemp(dir=self.scratch); os.chmod(sd, 0o755)
            outf, statef, errf = sd + "/out", sd + "/state", sd + "/err"
            rc, hung, idx, note = self.spawn(binary, flavour, group, a, b, sd, outf, statef, errf, hang)
            err = open(errf, errors="replace").read()[-60000:] if os.path.exists(errf) else ""
            done = self.absorb(outf, pi, flavour, group)
            shutil.rmtree(sd, ignore_errors=True)
            if rc == 0 and done:
                with self.lock: self.evals += b - a; self.groups[group] = self.groups.get(group, 0) + b - a
                return
            if rc == 3 or "HARNESS-ERROR" in err:
                with self.lock: self.errors.append("%s case %s: %s" % (group, idx, err[-2000:]))
                return
            if rc == -9 and not hung:
                with self.lock: self.errors.append("%s case %s: killed (memory?)" % (group, idx))
                return
            if hung == "abandoned" or hung and self.hung.get(group): return
            if hung:
                # confirm alone, with twice the patience, before calling it a hang
                sd = tempfile.mkdtemp(dir=self.scratch)
                rc2, hung2, _, _ = self.spawn(binary, flavour, group, idx, idx + 1, sd, sd + "/out", sd + "/state", sd + "/err", 2 * hang)
                self.absorb(sd + "/out", pi, flavour, group); shutil.rmtree(sd, ignore_errors=True)
                if hung2 == "abandoned": return
                if hung2:
                    with self.lock: self.hung[group] = self.hung.get(group, 0) + 1
                    self.record(pi, flavour, group, group + "/hang", idx, "no progress for %d s and again for %d s alone: %s" % (hang, 2 * hang, note))
                else:
                    with self.lock: self.incon.append("%s case %d stalled once for %d s" % (group, idx, hang))
            else:
                k = crash_key(err, rc)
                self.record(pi, flavour, group, group + "/" + k, idx, (note + " | " if note else "") + summary(err))
            with self.lock:
                self.evals += idx + 1 - a; self.groups[group] = self.groups.get(group, 0) + idx + 1 - a
                self.crashes[group] = self.crashes.get(group, 0) + 1
                if self.crashes[group] > (3 if hung else 25): return
            a = idx + 1
    def spawn(self, binary, flavour, group, a, b, sd, outf, statef, errf, hang):
        env = dict(os.environ); env.update(ENV[flavour]); env["MON_SCRATCH"] = sd; env["LC_ALL"] = "C"
        cmd = [binary, "--group", group, "--from", str(a), "--to", str(b), "--seed", str(self.seed), "--out", outf, "--state", statef]
        if self.tier == "thorough": cmd.append("--thorough")
        with open(errf, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=sd, start_new_session=True)
        last, t0, hung = None, time.time(), False
        while True:
            try: rc = p.wait(timeout=0.5); break
            except subprocess.TimeoutExpired: pass
            st = self.read_state(statef)
            if st and st[:2] != last: last, t0 = st[:2], time.time()
            if time.time() - t0 > hang or self.decided():
                hung = True if time.time() - t0 > hang else "abandoned"
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                rc = p.wait(); break
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        st = self.read_state(statef)
        return rc, hung, (st[0] if st else a), (st[2] if st else "")
    @staticmethod
    def read_state(f):
        try:
            d = open(f, "rb").read(3016)
            if len(d) < 24: return None
            i, beat = struct.unpack("QQ", d[:16])
            return (i, beat, d[16:].split(b"\0")[0].decode("utf8", "replace"))
        except OSError: return None
    def go(self, only=None):
        progs = self.cfg["programs"]
        t0 = time.time()
        bins = Builder().programs(self.cid, progs)
        self.build_s = time.time() - t0
        try:
            par, ser, reqs = [], [], []
            for i, (p, b) in enumerate(zip(progs, bins)):
                ls = subprocess.run([b, "--list"], capture_output=True, text=True, env=dict(os.environ, **ENV[p["flavour"]]))
                if ls.returncode != 0: raise HarnessError("%s --list failed: %s" % (b, ls.stderr[-2000:]))
                for l in ls.stdout.split("\n"):
                    f = l.split(" ", 4)
                    if l.startswith("R "): reqs.append((l.split(" ", 3)[3], int(f[1]), int(f[2])))
                    if not l.startswith("G "): continue
                    name, q, t, opt = f[1], int(f[2]), int(f[3]), f[4] if len(f) > 4 else ""
                    n = t if self.tier == "thorough" else q
                    if only and (only["prog"], only["group"]) != (i, name): continue
                    m = re.search(r"hang=(\d+)", opt); hang = int(m.group(1)) if m else 60
                    if only: par.append((i, b, p["flavour"], name, only["case"], only["case"] + 1, hang)); continue
                    if n == 0: continue
                    if "serial" in opt: ser.append((i, b, p["flavour"], name, 0, n, hang)); continue
                    k = max(1, min(2 * NPROC, n // 8)) if n >= 16 else n
                    step = (n + k - 1) // k
                    par += [(i, b, p["flavour"], name, a, min(n, a + step), hang) for a in range(0, n, step)]
            with ThreadPoolExecutor(NPROC) as ex: list(ex.map(lambda s: self.shard(*s), par))
            for s in ser: self.shard(*s)
            self.reqs = reqs
        finally:
            for b in bins:
                try: os.unlink(b)
                except OSError: pass
            shutil.rmtree(self.scratch, ignore_errors=True)

def summary(err):
    out = []
    for l in err.split("\n"):
        if re.search(r"ERROR: |runtime error|WARNING: Thread|SUMMARY|terminate called|what\(\):|Assertion", l) or re.match(r"\s+#[0-6] ", l): out.append(l.strip())
        if len(out) > 16: break
    return " / ".join(out)[:2500] or err[-500:]

def known():
    ks = {}
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) \| (.*)", l.strip())
            if m: ks[(m.group(1), m.group(2))] = m.group(3)
    except OSError: pass
    return ks

def check(cid, tier, seed):
    from checks import CHECKS
    cfg = CHECKS[cid]
    t0 = time.time()
    r = Run(cid, cfg, tier, seed)
    try: r.go()
    except HarnessError as e:
        print("ERROR property=%s %s" % (cid, e)); return 2
    ks = known(); bad = []
    for key in sorted(r.viol):
        v = r.viol[key]
        kf = ks.get((cid, key.replace(" ", "_")))
        if kf: print("KNOWN-FINDING: property=%s %s [%s, %d times]" % (cid, kf, key, r.vcount[key])); continue
        bad.append(v)
    for (c, k) in ks:
        if c == cid and k not in [x.replace(" ", "_") for x in r.viol]: print("note: known finding %s not observed in this run" % k)
    rdir = os.path.join(HERE, "out", "replay"); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, cid + "-*.json")): os.unlink(f)
    for n, v in enumerate(bad):
        path = os.path.join(rdir, "%s-%d.json" % (cid, n))
        json.dump(dict(v, property=cid, seed=seed, tier=tier, times=r.vcount[v["key"]],
                       how="python3 %s/run.py replay %s" % (HERE, path)), open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (cid, path))
        print("  key=%s case=%d times=%d\n  %s" % (v["key"], v["case"], r.vcount[v["key"]], v["detail"][:900]))
    low = []
    for what, q, t in r.reqs:
        need = t if tier == "thorough" else q
        if r.counters.get(what, 0) < need: low.append("%s: %d < %d" % (what, r.counters.get(what, 0), need))
    smp = {}
    for s in sorted(r.samples): smp.setdefault(s.split(":")[0], []).append(s)
    samples = [s for g in sorted(smp) for s in smp[g][:2]][:24]
    ev = {"property": cid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
          "coverage": {"evaluations": r.evals, "distinct_nontrivial": len(r.prints),
                       "rule": cfg["rule"], "samples": samples or ["none"],
                       "cases_per_group": dict(sorted(r.groups.items())),
                       "observed": dict(sorted(r.counters.items())),
                       "builds": [{"flavour": p["flavour"], "flags": FLAVOUR[p["flavour"]] + p.get("flags", []), "harness": p["src"], "repo_sources": p.get("repo", [])} for p in cfg["programs"]],
                       "inconclusive_cases": len(r.incon), "known_findings_seen": len(r.viol) - len(bad)},
          "assumptions": cfg.get("assumptions", []) + ["stand-ins in /verif/shims for the absent ecl_config, ecl_errors, ecl_time_lite and Sophus packages"],
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", cid + ".json"), "w"), indent=1)
    print("property=%s tier=%s seed=%d cases=%d distinct=%d inconclusive=%d build=%.1fs wall=%.1fs" %
          (cid, tier, seed, r.evals, len(r.prints), len(r.incon), r.build_s, time.time() - t0))
    if bad: return 1
    if r.errors:
        for e in r.errors[:5]: print("ERROR property=%s harness: %s" % (cid, e))
        return 2
    if low:
        print("ERROR property=%s inconclusive, observed too little: %s" % (cid, "; ".join(low))); return 2
    if len(r.incon) * 20 > max(r.evals, 1):
        print("ERROR property=%s inconclusive on %d of %d cases: %s" % (cid, len(r.incon), r.evals, r.incon[:3])); return 2
    return 0

def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    if a[:1] == ["check"]: return check(a[1], tier, seed)
    if a[:1] == ["replay"]:
        from checks import CHECKS
        v = json.load(open(a[1]))
        r = Run(v["property"], CHECKS[v["property"]], v["tier"], v["seed"])
        r.go(only=v)
        for k in sorted(r.viol): print("reproduced: %s\n  %s" % (k, r.viol[k]["detail"]))
        if not r.viol: print("not reproduced")
        return 1 if r.viol else 0
    if a[:1] == ["setup"]:
        from checks import CHECKS
        for t in (CXX, "python3"):
            if not shutil.which(t): print("missing", t); return 2
        print("setup: %d checks registered, compiler %s" % (len(CHECKS), subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout.split("\n")[0]))
        return 0
    if a[:1] == ["all"]:
        from checks import CHECKS
        ids = a[1:] or sorted(CHECKS); worst = 0
        for c in ids: rc = check(c, tier, seed); worst = max(worst, rc); print("== %s rc=%d" % (c, rc)); sys.stdout.flush()
        return worst
    print(__doc__); return 2
if __name__ == "__main__": sys.exit(main())
