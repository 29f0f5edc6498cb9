#!/usr/bin/env python3
"""Build a property's harness against /repo's working tree, run its scenarios under
sanitizers, judge what the monitors recorded, write the evidence file.

usage: check.py P01            run (tier from VERIF_TIER, seed from VERIF_SEED)
       check.py P01 --replay F re-run the case stored in replay file F
       check.py --build-all    warm the object cache (setup)
"""
import concurrent.futures as cf
import hashlib, json, mmap, os, re, shutil, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

BUILD = os.path.join(VERIF, "build")
JOBS = max(2, min(8, os.cpu_count() or 8))
STALL = 60.0        # seconds without finishing a case before the case is re-run alone
GRACE = 90.0        # seconds to go on exploring after the first violation
MAX_RESTARTS = 6    # crashed cases tolerated per chunk before it is abandoned

COMMON = ["-std=gnu++23", "-g1", "-fno-omit-frame-pointer", "-I", REPO + "/include/maec", "-I", REPO + "/src",
          "-DFFTW=1", "-D_GLIBCXX_ASSERTIONS", "-w"]
FLAVORS = {
    # address + undefined behaviour sanitizers; automatic variables start as a pattern,
    # so that reading one that was never set shows up as a wrong value
    "asan": ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
             "-D_GLIBCXX_SANITIZE_VECTOR=1", "-ftrivial-auto-var-init=pattern"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O2", "-ftrivial-auto-var-init=pattern"],
    # every basic block executed calls a counter in the harness
    "count": ["-O1", "-fsanitize-coverage=trace-pc", "-ftrivial-auto-var-init=pattern"],
}
LINK = {"asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"], "plain": [], "count": []}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=97:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=3000:"
                    "detect_stack_use_after_return=1:symbolize=1:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=97",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:second_deadlock_stack=1",
    "GLIBCXX_TUNABLES": "",
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class HarnessError(Exception):
    pass


class Rejected(Exception):
    """the library compiles, but its templates no longer do for the types and calls the property is about"""


# ---------------------------------------------------------------- building
def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".cpp", ".h", ".c")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()[:16]


def run_cc(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise HarnessError("compile failed: %s\n%s" % (" ".join(cmd), p.stderr[:6000]))


def inside_library(err):
    """the first compile error is in the body of a library template (or in what that calls): -> its line"""
    inc = [REPO + "/include/", os.path.realpath(REPO) + "/include/"]
    context = []
    for line in err.split("\n"):
        m = re.match(r"(/\S+?):\d+:\d+: (?:fatal )?error: (.*)", line)
        if not m:
            if re.match(r"/\S+:\d+:\d+: +required ", line):
                context.append(line)
            continue
        if any(m.group(1).startswith(i) for i in inc):
            return "%s: %s" % (os.path.basename(m.group(1)), m.group(2))
        if m.group(1).startswith("/usr/"):
            for c in context:
                if any(c.startswith(i) for i in inc):
                    return "%s: %s" % (os.path.basename(c.split(":")[0]), m.group(2))
        return None
    return None


def build(prop, flavor):
    """-> path of the harness binary for this property and flavor"""
    spec = PROPS[prop]
    h = tree_hash([REPO + "/include", REPO + "/src", VERIF + "/harness"])
    d = os.path.join(BUILD, flavor + "-" + h)
    os.makedirs(d, exist_ok=True)
    # drop caches of other trees
    for o in os.listdir(BUILD):
        if o.startswith(flavor + "-") and o != flavor + "-" + h:
            shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
    flags = COMMON + FLAVORS[flavor]
    jobs, objs = [], []
    if spec.get("lib", True):
        for root, _, fs in sorted(os.walk(REPO + "/src")):
            for f in sorted(fs):
                if not f.endswith(".cpp"):
                    continue
                src = os.path.join(root, f)
                alsa = f == "alsa_module.cpp"
                if alsa and not spec.get("alsa"):
                    continue
                obj = os.path.join(d, "lib_" + os.path.relpath(src, REPO + "/src").replace("/", "_") + ".o")
                objs.append(obj)
                if not os.path.exists(obj):
                    jobs.append((["g++"] + flags + (["-DALSA_F=1"] if alsa else []) + ["-c", src, "-o"], obj))
    for f in spec["src"]:
        src = os.path.join(VERIF, "harness", f)
        obj = os.path.join(d, f + ".o")
        objs.append(obj)
        if not os.path.exists(obj):
            jobs.insert(0, (["g++"] + flags + spec.get("cflags", []) + ["-c", src, "-o"], obj))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        def one(j):
            cmd, obj = j
            tmp = obj + ".%d.tmp" % os.getpid()
            try:
                run_cc(cmd + [tmp])
            except HarnessError as e:
                return obj, e
            os.replace(tmp, obj)
        failed = [r for r in ex.map(one, jobs) if r]
    for obj, e in failed:
        if os.path.basename(obj).startswith("lib_"):
            raise e
    for obj, e in failed:
        where = inside_library(str(e))
        if where:
            raise Rejected("%s\n%s" % (where, e))
        raise e
    exe = os.path.join(d, prop + ".bin")
    if jobs or not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        run_cc(["g++"] + LINK[flavor] + ["-o", tmp] + objs + spec.get("libs", []) + ["-lfftw3", "-lpthread"])
        os.replace(tmp, exe)
    return exe


# ---------------------------------------------------------------- running
class Result:
    def __init__(self):
        self.lock = threading.Lock()
        self.evals = 0
        self.sigs = set()
        self.samples = []
        self.events = {}
        self.fails = {}          # key -> record
        self.inconclusive = []
        self.crashes = 0
        self.per = {}
        self.first_fail = None

    def late(self):
        """a violation is known for a while: no need to go on"""
        if self.fails and self.first_fail is None:
            self.first_fail = time.time()
        return self.first_fail is not None and time.time() - self.first_fail > GRACE


def classify(err, rc, flavor):
    """sanitizer report -> stable key without line numbers"""
    fn = None
    for m in re.finditer(r"^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):\d+", err, re.M):
        if m.group(2).startswith(REPO + "/"):
            fn = re.sub(r"\(.*", "", re.sub(r"<.*", "", m.group(1).strip()))
            break
    if fn is None:
        for m in re.finditer(r"^\s*#\d+ (.+?) (/\S+?):\d+", err, re.M):
            if m.group(2).startswith(REPO + "/"):
                fn = re.sub(r"\(.*", "", re.sub(r"<.*", "", m.group(1).strip()))
                break
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", err)
    if m:
        return "tsan:%s:%s" % (m.group(1).replace(" ", "-"), fn)
    m = re.search(r"^(\S+?):\d+:\d+: runtime error: (.+)$", err, re.M)
    if m:
        return "ubsan:%s:%s" % (re.sub(r"[-+]?[0-9][\w.+-]*", "N", m.group(2))[:70].strip().replace(" ", "-"), fn or os.path.basename(m.group(1)))
    m = re.search(r"^(\S+?):\d+: .*Assertion '(.+?)' failed", err, re.M)
    if m:
        return "assert:%s:%s" % (os.path.basename(m.group(1)), m.group(2).replace(" ", ""))
    m = re.search(r"terminate called(?: after throwing an instance of '(.+?)')?", err)
    if m:
        return "terminate:%s" % (m.group(1) or "")
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err)
    if m:
        return "asan:%s:%s" % (m.group(1), fn)
    return "crash:rc=%s" % rc


def run_chunk(exe, flavor, scen, a, b, seed, tier, res, only=False):
    restarts = 0
    while a < b and not res.late():
        fd, out = tempfile.mkstemp(prefix="out", dir=WORK)
        os.close(fd)
        prog = out + ".prog"
        with open(prog, "wb") as f:
            f.write(struct.pack("<q", a) + b"\0" * 56)
        env = dict(os.environ)
        env.update(ENV)
        env["VERIF_SCRATCH"] = WORK
        errf = open(out + ".err", "w+")
        p = subprocess.Popen([exe, "--scenario", scen, "--from", str(a), "--to", str(b), "--seed", str(seed),
                              "--tier", tier, "--out", out, "--progress", prog],
                             stdout=errf, stderr=errf, env=env, cwd=WORK)
        last, t_last, hung = None, time.time(), False
        with open(prog, "r+b") as f:
            mm = mmap.mmap(f.fileno(), 64)
        while True:
            try:
                p.wait(0.5)
                break
            except subprocess.TimeoutExpired:
                cur = mm[:16]        # the case and its heartbeat
                if cur != last:
                    last, t_last = cur, time.time()
                elif res.late():
                    p.kill()
                    p.wait()
                    for x in (out, prog, out + ".err"):
                        os.unlink(x)
                    mm.close()
                    errf.close()
                    return "late"
                elif time.time() - t_last > STALL:
                    hung = True
                    p.kill()
                    p.wait()
                    break
        cur = struct.unpack("<q", mm[:8])[0]
        mm.close()
        errf.seek(0)
        err = errf.read()
        errf.close()
        ended = False
        with res.lock:
            st = res.per.setdefault(flavor + "/" + scen, {"evaluations": 0, "nontrivial": 0})
            with open(out, errors="replace") as f:
                for line in f:
                    if not line.endswith("\n"):
                        continue
                    if line[0] in "+-":
                        res.evals += 1
                        st["evaluations"] += 1
                        if line[0] == "+":
                            st["nontrivial"] += 1
                            res.sigs.add((scen, line[1:-1]))
                        continue
                    j = json.loads(line)
                    if j["t"] == "end":
                        ended = True
                    elif j["t"] == "ev":
                        res.events[j["name"]] = res.events.get(j["name"], 0) + j["n"]
                    elif j["t"] == "sample":
                        if len(res.samples) < 12 and sum(s["scenario"] == scen for s in res.samples) < 1:
                            res.samples.append({"scenario": scen, "case": j["case"], "desc": j["desc"]})
                    elif j["t"] == "fail":
                        key = scen + "/" + j["key"]
                        res.fails.setdefault(key, dict(scenario=scen, flavor=flavor, case=j["case"], msg=j["msg"], desc=j["desc"], n=0))["n"] += 1
        for x in (out, prog, out + ".err"):
            os.unlink(x)
        if hung:
            if only:
                return "hang"
            sub = Result()
            r = run_chunk(exe, flavor, scen, cur, cur + 1, seed, tier, sub, only=True)
            with res.lock:
                if r == "hang":
                    res.fails.setdefault(scen + "/hang", dict(scenario=scen, flavor=flavor, case=cur, msg="no progress for %ds, twice" % STALL, desc="", n=0))["n"] += 1
                else:
                    res.inconclusive.append("%s case %d stalled once, passed alone" % (scen, cur))
                    res.fails.update(sub.fails)
            a = cur + 1
            restarts += 1
        elif ended and p.returncode == 0:
            return "ok"
        else:
            if p.returncode == 3:
                raise HarnessError("harness %s: %s" % (scen, err[-2000:]))
            if p.returncode == -9:
                # ended from outside (memory guard): inconclusive, try the rest once
                with res.lock:
                    res.inconclusive.append("%s case %d was ended from outside" % (scen, cur))
                restarts += 2
                if only:
                    return "crash"
                a = cur + 1
            else:
                key = scen + "/" + classify(err, p.returncode, flavor)
                with res.lock:
                    res.crashes += 1
                    res.fails.setdefault(key, dict(scenario=scen, flavor=flavor, case=cur, msg=err if len(err) < 6000 else err[:3500] + "\n...\n" + err[-2500:], desc="", n=0))["n"] += 1
                    res.evals += 1
                if only:
                    return "crash"
                a = max(cur, a) + 1
                restarts += 1
        if restarts >= MAX_RESTARTS:
            return "abandoned"
    return "ok"


def known(prop):
    keys = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3)
    return keys


def main():
    global WORK
    args = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    if args and args[0] == "--build-all":
        for p in PROPS:
            for fl in PROPS[p].get("flavors", ["asan"]):
                try:
                    build(p, fl)
                except (HarnessError, Rejected) as e:   # the check itself will say so
                    log(p, e)
        return 0
    prop = args[0]
    spec = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in args:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1")) & 0x7FFFFFFF
    except ValueError:
        seed = 1
    t0 = time.time()
    WORK = tempfile.mkdtemp(prefix="work-%s-" % prop, dir=BUILD)
    try:
        res = Result()
        flavors = spec.get("flavors", ["asan"])
        replay = None
        if "--replay" in args:
            replay = json.load(open(args[args.index("--replay") + 1]))
            flavors = [replay["flavor"]]
            seed, tier = replay["seed"], replay["tier"]
        tasks = []
        for fl in flavors:
            exe = build(prop, fl)
            lst = subprocess.run([exe, "--list"], capture_output=True, text=True, env={**os.environ, **ENV})
            if lst.returncode != 0:
                raise HarnessError("listing scenarios failed: " + lst.stderr[-2000:])
            for line in lst.stdout.split("\n"):
                if not line.strip():
                    continue
                name, q, t = line.split()
                n = int(q) if tier == "quick" else int(t)
                if name not in spec.get("exhaustive", []):
                    n *= spec.get("scale", 1)
                only = spec.get("flavor_scenarios", {}).get(fl)
                if only and not any(re.fullmatch(o, name) for o in only):
                    continue
                if replay:
                    if name == replay["scenario"]:
                        tasks.append((exe, fl, name, replay["case"], replay["case"] + 1))
                    continue
                par = spec.get("chunks", JOBS)
                step = max(1, (n + par - 1) // par)
                for a in range(0, n, step):
                    tasks.append((exe, fl, name, a, min(n, a + step)))
        t_build = time.time() - t0
        with cf.ThreadPoolExecutor(spec.get("jobs", JOBS)) as ex:
            futs = [ex.submit(run_chunk, e, fl, s, a, b, seed, tier, res) for e, fl, s, a, b in tasks]
            for f in futs:
                f.result()
    except HarnessError as e:
        log("HARNESS ERROR:", e)
        return 2
    except Rejected as e:
        t_build = time.time() - t0
        where = str(e).split("\n")[0]
        res.fails["compile/" + where.split(":")[0]] = dict(scenario="compile", flavor=flavors[0], case=0, msg=str(e), desc=where, n=1)
    finally:
        shutil.rmtree(WORK, ignore_errors=True)

    kf = known(prop)
    unknown = {}
    knownhit = {}
    for key, rec in sorted(res.fails.items()):
        (knownhit if key in kf else unknown)[key] = rec
    rep_dir = os.path.join(VERIF, "replays")
    lines = []
    if unknown:
        os.makedirs(rep_dir, exist_ok=True)
    for key, rec in unknown.items():
        name = "%s-%s.json" % (prop, re.sub(r"[^\w.-]+", "_", key)[:120])
        path = os.path.join(rep_dir, name)
        json.dump(dict(property=prop, key=key, flavor=rec["flavor"], scenario=rec["scenario"], case=rec["case"], seed=seed,
                       tier=tier, msg=rec["msg"], desc=rec["desc"], occurrences=rec["n"],
                       rerun="python3 check.py %s --replay %s" % (prop, path)), open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        log("--", key, "case", rec["case"], "x%d" % rec["n"])
        log("   ", rec["msg"][:int(os.environ.get("VERIF_MSG", "700"))])
        log("   ", rec["desc"][:600])
    minimum = spec.get("min_events", {})
    short = [] if (replay or unknown) else [k for k, v in minimum.items() if res.events.get(k, 0) < v]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": res.evals, "distinct_nontrivial": len(res.sigs), "rule": spec["rule"],
            "samples": res.samples, "monitored_events": dict(sorted(res.events.items())),
            "per_scenario": res.per, "flavors": flavors, "inconclusive": res.inconclusive,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(unknown),
    }
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (prop, kf[k]))
    for l in lines:
        print(l)
    log("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violation keys, build %.1fs, total %.1fs" % (
        prop, tier, seed, res.evals, len(res.sigs), len(unknown), t_build, time.time() - t0))
    if unknown:
        return 1
    if short:
        log("INCONCLUSIVE: too few events observed:", short)
        return 2
    if res.inconclusive:
        log("inconclusive cases:", res.inconclusive)
    return 0


if __name__ == "__main__":
    sys.exit(main())
