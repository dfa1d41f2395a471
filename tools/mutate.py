#!/usr/bin/env python3
"""Development aid: small random changes to the code under test, one at a time, each judged by the checks that own the file.
  mutate.py WORKDIR WORKERS PER_FILE SEED [FILE_REGEX]
WORKDIR/k/{v,r} are clones of /verif and /repo (made when missing).  Prints the changes no check noticed; WORKDIR/log.jsonl has all."""
import sys, os, re, json, random, subprocess, threading, queue
W, N, PER, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]); RX = sys.argv[5] if len(sys.argv) > 5 else "."
SRCV, SRCR = os.environ.get("MUT_V", "/verif"), os.environ.get("MUT_R", "/repo")
OWN = [("command_line/(arg_exception)", "C01 C02 C37"), ("command_line/", "C01 C02 C03"), ("ecl_concepts", "C08"), ("array/formatters|common/formatters|push_and_pop/formatters|stencil/formatters", "C12"), ("containers/array", "C09 C10"), ("stencil/converters", "C13"), ("containers/stencil", "C10"), ("fifo|push_and_pop", "C11"), ("containers/initialiser", "C09 C10 C11"), ("containers/definitions", "C09 C13"), ("containers/", "C09 C10 C11"),
 ("converters/(from_byte|to_byte)", "C13"), ("ecl_converters", "C14 C13"), ("ecl_linear_algebra", "C35 C34"), ("ofile|console", "C18 C39"), ("character_buffer", "C17 C19"), ("devices/.*/?string", "C17"), ("ecl_devices/src/lib/string", "C17 C16"), ("shared_file", "C19"), ("socket", "C20 C37"), ("serial", "C21 C37"), ("ecl_devices/src/lib/detail|devices/detail", "C18 C21 C20 C19 C37"), ("ecl_devices", "C17 C18 C19 C20 C21"),
 ("ecl_exceptions", "C37"), ("ecl_filesystem", "C36"), ("ecl_formatters", "C15 C12"), ("geometry/(angle|cartesian|homogeneous|linear_segment)|lib/(angle|linear_segment)", "C28 C29"), ("pose|odometry", "C31"), ("spline|tension", "C30"), ("ecl_geometry", "C29 C30"), ("ecl_ipc", "C25 C37"), ("ecl_manipulators", "C33"), ("ecl_math", "C07"), ("ecl_mobile_robot", "C34"), ("ecl_mpl", "C08"), ("ecl_sigslots", "C24"), ("ecl_statistics", "C32"), ("log_stream|streams", "C16 C19 C39"),
 ("mutex", "C22 C37"), ("ecl_threads", "C23 C37"), ("timestamp|time/duration", "C26 C37"), ("ecl_time", "C27 C37"), ("ecl_type_traits", "C08"), ("blueprints|function_objects|utilities/void", "C06"), ("flags", "C04"), ("references|singleton|parameter", "C05"), ("ecl_utilities", "C05 C06")]
def owners(f): return next((o.split() for p, o in OWN if re.search(p, f)), [])
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def files():
    r = sh("cd %s; ls ecl_*/src/lib/*.cpp ecl_*/src/lib/*/*.cpp 2>/dev/null; find ecl_*/include -name '*.hpp'" % SRCR).stdout.split()
    return sorted(f for f in r if not re.search(r"_w32|_win|_mac|eigen3|unsupported|ecl_eigen|macros", f) and re.search(RX, f))
def blank(t): return re.sub(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])'", lambda m: re.sub(r"[^\n]", " ", m.group(0)), t, flags=re.S)
OPS = [(r" (<) ", "<="), (r" (<=) ", "<"), (r" (>) ", ">="), (r" (>=) ", ">"), (r" (<) ", ">"), (r"(==)", "!="), (r"(!=)", "=="), (r"[\w\)\]] ?(\+) ?[\w\(]", "-"), (r"[\w\)\]] ?(-) ?[\w\(]", "+"), (r"[\w\)] ?(\*) ?[\w\(]", "/"), (r"[\w\)] ?(/) ?[\w\(]", "*"), (r"(\+=)", "-="), (r"(-=)", "+="), (r"(\+\+)", "--"), (r"(&&)", "||"), (r"(\|\|)", "&&"), (r"\b(true)\b", "false"), (r"\b(false)\b", "true"), (r"(?<![\w.])(0)(?![\w.])", "1"), (r"(?<![\w.])(1)(?![\w.])", "2"), (r"(?<![\w.])([2-9])(?![\w.])", "1"), (r"(?<![\w.])(\d+\.\d+)", "(1.5+\\1)"), (r"[=(,] ?(-)[\w(]", ""), (r"\bif ?(\()", "(!"), (r"(?<=[^!])(!)[\w(]", ""), (r" (&) ", "|"), (r" (\|) ", "&"), (r"(<<)", ">>"), (r"(%) ", "/")]
def mutants(f):
    t = open(os.path.join(SRCR, f), newline="", errors="replace").read(); b = blank(t); out = []; pos = 0
    for no, line in enumerate(b.split("\n")):
        s = line.strip(); start = pos; pos += len(line) + 1
        if not s or s[0] == "#" or re.match(r"template|typedef|using|class|struct|namespace|friend|extern", s): continue
        for p, n in OPS:
            if n in (">>",) and "::" not in s and re.search(r"cout|cerr|\bos\b|stream", s): continue
            for m in re.finditer(p, line):
                a, e = start + m.start(1), start + m.end(1); old = t[a:e]; new = n.replace("\\1", old)
                if p.startswith(r"\bif"): # negate the whole condition
                    d = 0; q = a
                    while q < len(b):
                        d += (b[q] == "(") - (b[q] == ")"); q += 1
                        if d == 0: break
                    out.append((no + 1, a, q, "(!" + t[a:q] + ")")); continue
                out.append((no + 1, a, e, new))
        if s.endswith(";") and re.match(r"[A-Za-z_*(:+]", s) and not re.match(r"(return|throw|const|static|virtual|explicit|inline|public|private|break|continue|goto|delete this|int|double|float|unsigned|long|bool|void|char|enum|std::string|size_t|ecl_try)\b", s) and re.search(r"[=(+]|--|delete", s) and s.count("(") == s.count(")"):
            a = start + len(line) - len(line.lstrip()); out.append((no + 1, a, start + len(line.rstrip()), ";"))
        if re.match(r"(break|continue);", s): a = start + line.index(s); out.append((no + 1, a, a + len(s.split(";")[0]) + 1, ";"))
    return t, out
jobs = queue.Queue(); rng = random.Random(SEED); todo = []
for f in files():
    t, ms = mutants(f)
    if os.environ.get("MUT_REDO"):
        want = {(x["file"], x["text"], x["old"], x["new"]) for x in map(json.loads, open(os.environ["MUT_REDO"])) if x["res"] in ("survived", "noanswer")}
        todo += [(f, t, m) for m in ms if (f, t[t.rfind("\n", 0, m[1]) + 1:t.find("\n", m[2])].strip(), t[m[1]:m[2]], m[3]) in want]
    elif owners(f): todo += [(f, t, m) for m in rng.sample(ms, min(PER, len(ms)))]
rng.shuffle(todo); [jobs.put(x) for x in todo]; total = len(todo); print(total, "changes", flush=True)
os.makedirs(W, exist_ok=True); log = open(W + "/log.jsonl", "a"); lock = threading.Lock(); tally = {"killed": 0, "survived": 0, "invalid": 0}
def work(k):
    v, r = "%s/%d/v" % (W, k), "%s/%d/r" % (W, k)
    if not os.path.isdir(r): sh("mkdir -p %s/%d; git clone -q %s %s; git clone -q %s %s" % (W, k, SRCV, v, SRCR, r))
    sh("git -C %s pull -q --ff-only; git -C %s checkout -q -- .; git -C %s pull -q --ff-only" % (v, r, r))
    while True:
        try: f, t, (no, a, e, new) = jobs.get_nowait()
        except queue.Empty: return
        open(os.path.join(r, f), "w", newline="").write(t[:a] + new + t[e:]); res, by = "survived", ""
        for c in owners(f):
            try: p = sh("timeout -k 5 400 nice python3 run.py check %s" % c, cwd=v, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1"))
            except Exception as x: res, by = "invalid", str(x); break
            if p.returncode == 1: res, by = "killed", c; break
            if p.returncode != 0: res, by = ("invalid" if "BUILD" in p.stdout.upper() + p.stderr.upper() or "error:" in p.stdout + p.stderr else "noanswer"), c + " " + (p.stdout + p.stderr)[-160:]; break
        open(os.path.join(r, f), "w", newline="").write(t); line = t[t.rfind("\n", 0, a) + 1:t.find("\n", e)]
        with lock:
            tally[res] = tally.get(res, 0) + 1; log.write(json.dumps(dict(file=f, line=no, old=t[a:e], new=new, text=line.strip(), res=res, by=by)) + "\n"); log.flush()
            if res in ("survived", "noanswer"): print("%s %s:%d  [%s] -> [%s]   %s  %s" % (res, f, no, t[a:e][:80], new[:60], line.strip()[:150], by[-120:] if res == "noanswer" else ""), flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(N)]; [t.start() for t in ts]; [t.join() for t in ts]; print(tally)
