#!/usr/bin/env python3
"""Builds /repo's sources with instrumentation, runs the workloads of a property and judges them.

  run.py check C01        tier from VERIF_TIER (quick, thorough), seed from VERIF_SEED
  run.py replay FILE      runs the case of a replay file again
  run.py build            builds everything (no check needs that done before)
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
H = os.path.join(HERE, "harness")
sys.path.insert(0, HERE)
from checks import CHECKS, EXES

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
CPUS = min(8, os.cpu_count() or 8)
STD = ["-std=gnu++17", "-pthread", "-g1", "-fno-omit-frame-pointer", "-w", "-I" + REPO + "/src", "-I" + H]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern", "-O1"]
# compiler, flags of what is instrumented, flags of what is not
VARIANTS = {
    "asan": ("clang++", SAN, ["-O1"]),
    "wrap": ("clang++", SAN + ["-DDBUS_ASIO_VERIF_SERIAL_START=0xFFFFF000"], ["-O1"]),
    "tsan": ("g++", ["-fsanitize=thread", "-O1"], ["-O1"]),
    "plain": ("g++", ["-O1"], ["-O1"]),
    "fuzz": ("clang++", ["-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all",
                         "-ftrivial-auto-var-init=pattern", "-O1"], ["-O1"]),
}
# never instrumented: they are not the code under test, and slow when they are
NOT_INSTRUMENTED = {"ref.cpp", "dbuslib.cpp", "xml.cpp"}
DBUS1 = {"dbuslib.cpp", "peer.cpp"}


def sh(cmd):
    return subprocess.run(cmd, capture_output=True, text=True)


def pkg(what):
    r = sh(["pkg-config", what, "dbus-1"])
    return r.stdout.split()


class BuildError(Exception):
    pass


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def lib_sources():
    return sorted(glob.glob(REPO + "/src/*.cpp"), key=lambda p: -os.path.getsize(p))


def build(targets):
    """targets: set of (exe, variant). Returns {(exe, variant): path}."""
    os.makedirs(BUILD, exist_ok=True)
    headers = b"".join(read(p) for p in sorted(glob.glob(REPO + "/src/*.h")))
    own = b"".join(read(p) for p in sorted(glob.glob(H + "/*.h")))
    todo, link = {}, {}
    cflags = None
    for exe, variant in sorted(targets):
        cxx, inst, plain = VARIANTS[variant]
        objs = []
        files = [(os.path.join(H, f), True) for f in EXES[exe]["files"]] + [(p, False) for p in lib_sources()]
        for path, harness in files:
            name = os.path.basename(path)
            no = harness and name in NOT_INSTRUMENTED
            flags = STD + (plain if no else inst)
            if harness and variant == "fuzz":
                flags = [f.replace("fuzzer-no-link,", "") for f in flags]  # it is not the code whose coverage guides
            if harness and name in DBUS1:
                if cflags is None:
                    cflags = pkg("--cflags")
                flags = flags + cflags
            # what does not see the library's headers need not be compiled again with them
            key = digest(cxx, " ".join(flags), read(path), own if harness else b"", b"" if no else headers, path)
            obj = os.path.join(BUILD, "obj", name + "-" + key + ".o")
            objs.append(obj)
            if not os.path.exists(obj):
                todo[obj] = ([cxx] + flags + ["-c", path, "-o", obj + ".tmp%d" % os.getpid()], os.path.getsize(path) * (3 if harness else 1))
        out = os.path.join(BUILD, "bin", "%s-%s-%s" % (exe, variant, digest(*objs, EXES[exe].get("link", ""))))
        link[(exe, variant)] = (out, objs)
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)

    def compile_one(item):
        obj, (cmd, _) = item
        r = sh(cmd)
        if r.returncode:
            return "%s\n%s" % (" ".join(cmd), r.stderr[-4000:])
        os.rename(obj + ".tmp%d" % os.getpid(), obj)
        return None

    # the largest first
    items = sorted(todo.items(), key=lambda kv: -(kv[1][1] + (300000 if "dbus_transport.cpp" in kv[0] or "conn.cpp" in kv[0] else 0)))
    with cf.ThreadPoolExecutor(CPUS) as ex:
        errors = [e for e in ex.map(compile_one, items) if e]
    if errors:
        raise BuildError(errors[0])

    def link_one(key):
        out, objs = link[key]
        if os.path.exists(out):
            return None
        exe, variant = key
        cxx, inst, _ = VARIANTS[variant]
        san = [f for f in inst if f.startswith("-fsanitize")]
        extra = EXES[exe].get("link", "").split()
        if "-lclang_rt.fuzzer_no_main" in extra:
            lib = "libclang_rt.fuzzer_no_main-x86_64.a"
            extra = [os.path.join(sh([cxx, "-print-runtime-dir"]).stdout.strip(), lib)]
        cmd = [cxx, "-pthread"] + san + objs + extra + [
            "-o", out + ".tmp%d" % os.getpid(), "-lboost_thread", "-lboost_chrono", "-lboost_system"] + pkg("--libs") + ["-lpthread"]
        r = sh(cmd)
        if r.returncode:
            return "%s\n%s" % (" ".join(cmd), r.stderr[-4000:])
        os.rename(out + ".tmp%d" % os.getpid(), out)
        return None

    with cf.ThreadPoolExecutor(CPUS) as ex:
        errors = [e for e in ex.map(link_one, sorted(link)) if e]
    if errors:
        raise BuildError(errors[0])
    return {k: v[0] for k, v in link.items()}


def sanitizer_env(variant, opts):
    env = dict(os.environ)
    env.pop("DBUS_SYSTEM_BUS_ADDRESS", None)
    env.pop("DBUS_SESSION_BUS_ADDRESS", None)
    env["ASAN_OPTIONS"] = ("exitcode=77:detect_leaks=%d:malloc_fill_byte=190:max_malloc_fill_size=100000000:quarantine_size_mb=64:"
                           "detect_stack_use_after_return=1:check_initialization_order=1:strict_init_order=1:allocator_may_return_null=0:"
                           "max_allocation_size_mb=3000:hard_rss_limit_mb=%d:handle_abort=1:symbolize=1%s"
                           % (0 if opts.get("no_leaks") else 1, opts.get("rss", 6000), opts.get("asan", "")))
    env["UBSAN_OPTIONS"] = "exitcode=77:print_stacktrace=1"
    env["LSAN_OPTIONS"] = "exitcode=77"
    env["TSAN_OPTIONS"] = "exitcode=77:halt_on_error=1:detect_deadlocks=0:history_size=4:suppressions=" + H + "/tsan.supp"
    env["MALLOC_PERTURB_"] = "0"
    return env


REPORT = re.compile(r"(ERROR: (?:Address|Leak|Thread)Sanitizer: [^\n(]*|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n(]*|terminate called[^\n]*|"
                    r"hard rss limit exhausted[^\n]*|==\d+== (?:Invalid|Use of|Conditional|Syscall param|Uninit)[^\n]*|definitely lost[^\n]*)")


def crash_key(log, rc):
    m = REPORT.search(log)
    what = m.group(1) if m else ("signal %d" % -rc if rc < 0 else "exit code %d" % rc)
    what = re.sub(r"^==\d+== ", "", what)
    what = re.sub(r"0x[0-9a-f]+|\b\d+\b", "N", what).strip()
    frames = re.findall(r"(?:#\d+ (?:0x[0-9a-f]+ in )?|(?:at|by) 0x[0-9A-F]+: )([^\n]*?) (?:\(?" + re.escape(REPO) + r"/src/)?\(?([a-z_0-9]+\.(?:cpp|h))", log[m.start():] if m else log)
    own = [f for f, n in frames if n.startswith("dbus_")]
    return "crash: %s%s" % (what[:160], " in " + own[0][:120] if own else "")


class Job:
    def __init__(self, part, path, first, count):
        self.part, self.path, self.first, self.count = part, path, first, count


class Run:
    def __init__(self, prop, deadline):
        self.prop = prop
        self.dir = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.violations = []  # dicts
        self.errors, self.inconclusive = [], []
        self.parts = {}
        self.samples = {}
        self.distinct = set()
        self.lock = threading.Lock()
        self.n = 0
        self.violated = None
        self.deadline = deadline
        self.skipped = 0

    def execute(self, part, path, first, count, seed):
        with self.lock:
            self.n += 1
            n = self.n
        base = os.path.join(self.dir, "j%d" % n)
        o = part.get("opts", {})
        cmd = [path, "--prop", self.prop, "--part", part["part"], "--seed", str(seed), "--from", str(first), "--count", str(count),
               "--tier", TIER, "--out", base + ".out", "--progress", base + ".pos", "--hashes", base + ".hash",
               "--timeout", str(o.get("timeout", 60))]
        if part.get("input"):
            cmd += ["--input", part["input"]]
        if part["variant"] == "plain" and not o.get("native"):
            cmd = ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--track-origins=no", "--leak-check=no", "--fair-sched=yes",
                   "--num-callers=20", "--trace-children=no"] + cmd
        env = sanitizer_env(part["variant"], o)
        env["VERIF_SCRATCH"] = base + ".d"
        os.makedirs(base + ".d", exist_ok=True)
        # a wall clock limit on the whole, far beyond what it takes: its passing decides nothing
        limit = o.get("limit", 600 if TIER == "quick" else 3600)
        with open(base + ".log", "wb") as log:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=log, stderr=log, env=env, cwd=base + ".d", start_new_session=True)
            rc, end = None, time.time() + limit
            while time.time() < end and not self.enough():
                try:
                    rc = p.wait(1)
                    break
                except subprocess.TimeoutExpired:
                    pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        res = {"rc": rc, "V": [], "H": None, "E": None, "pos": first}
        try:
            pos = int.from_bytes(read(base + ".pos")[:8], "little")
            if pos:
                res["pos"] = pos - 1
        except OSError:
            pass
        try:
            for line in read(base + ".out").decode("utf-8", "replace").splitlines():
                if line[:2] in ("V ", "H ", "E "):
                    d = json.loads(line[2:])
                    if line[0] == "V":
                        res["V"].append(d)
                    else:
                        res[line[0]] = d
        except (OSError, ValueError):
            pass
        try:
            size = os.path.getsize(base + ".log")
            with open(base + ".log", "rb") as f:
                head = f.read(30000)
                if size > 60000:
                    f.seek(size - 30000)
                res["log"] = (head + f.read(30000)).decode("utf-8", "replace")
        except OSError:
            res["log"] = ""
        try:
            data = read(base + ".hash")
            import array
            a = array.array("Q")
            a.frombytes(data[:len(data) // 8 * 8])
            res["hash"] = a
        except OSError:
            res["hash"] = []
        shutil.rmtree(base + ".d", ignore_errors=True)
        for e in (".out", ".pos", ".hash", ".log"):
            try:
                os.unlink(base + e)
            except OSError:
                pass
        return res

    def violation(self, part, case, seed, key, detail, log=""):
        self.violations.append({"property": self.prop, "exe": part["exe"], "variant": part["variant"], "part": part["part"], "seed": seed,
                                "case": case, "key": key, "detail": detail[:4000], "log": log[:12000]})
        listed = any(p == self.prop and rx.search("%s %s: %s" % (part["part"], key, detail)) for p, rx, _ in known())
        if self.violated is None and not listed:
            self.violated = time.time()

    def enough(self):
        """It is violated, and others have had the time to show it too"""
        return self.violated is not None and time.time() > self.violated + 40

    def job(self, part, path, first, count, seed):
        end, tries, again = first + count, 0, {}
        while first < end:
            if time.time() > self.deadline:
                with self.lock:
                    self.skipped += end - first
                return
            if len(self.violations) > 30 or self.enough():
                return
            res = self.execute(part, path, first, end - first, seed)
            if res["rc"] is None and self.enough():
                with self.lock:
                    self.skipped += end - first
                return
            with self.lock:
                p = self.parts.setdefault(part["name"], {"evaluations": 0, "counters": {}, "processes": 0})
                p["processes"] += 1
                self.distinct.update(res["hash"])
                for v in res["V"]:
                    if v["key"].startswith("harness"):
                        self.errors.append("%s case %s: %s %s" % (part["name"], v["case"], v["key"], v["detail"]))
                    else:
                        self.violation(part, v["case"], seed, v["key"], v["detail"])
                if res["E"]:
                    e = res["E"]
                    p["evaluations"] += e["evaluations"]
                    for k, n in e["counters"].items():
                        c = p["counters"]
                        c[k] = max(c.get(k, 0), n) if k.startswith("max:") else c.get(k, 0) + n
                    s = self.samples.setdefault(part["name"], [])
                    for x in e["samples"]:
                        if len(s) < 2:
                            s.append(x)
                rc = res["rc"]
                if rc == 0 and res["E"]:
                    return
                if rc == 3 or rc == 0:
                    self.errors.append("%s: %s" % (part["name"], res["log"][-1500:] or "no result"))
                    return
                case = res["pos"]
                if res["H"] or rc is None or rc == -9:
                    # once more, alone: was it the machine?
                    what = "hang" if res["H"] else "time" if rc is None else "killed"
                    if res["H"]:
                        case = res["H"]["case"]
                    retry = True
                else:
                    retry = False
                    if res["E"]:
                        # all cases were run, the sanitizer complains at the end
                        self.violation(part, first, seed, crash_key(res["log"], rc), "cases %d to %d" % (first, end - 1), res["log"])
                        return
                    self.violation(part, case, seed, crash_key(res["log"], rc), "the process ended", res["log"])
            if retry:
                r2 = self.execute(part, path, case, 1, seed)
                if r2["rc"] is None and self.enough():
                    return
                with self.lock:
                    if r2["rc"] == 0 and r2["E"]:
                        self.inconclusive.append("%s case %d: %s once, but not when run again alone" % (part["name"], case, what))
                    elif r2["rc"] is None or what == "time":
                        self.inconclusive.append("%s case %d: ran out of time" % (part["name"], case))
                    elif r2["H"]:
                        self.violation(part, case, seed, "hang", "no progress, twice: " + r2["log"][-1500:])
                    elif r2["rc"] == -9:
                        self.violation(part, case, seed, "killed", "killed for using too much memory, twice")
                    elif r2["rc"] == 3:
                        self.errors.append("%s: %s" % (part["name"], r2["log"][-1500:]))
                    else:
                        self.violation(part, case, seed, crash_key(r2["log"], r2["rc"] or 0), "the process ended", r2["log"])
            tries += 1
            if tries > 3:
                with self.lock:
                    self.skipped += end - case - 1
                return
            first = case + 1


def known():
    """[(property, regular expression of the key)] of the findings that are recorded, not repaired"""
    r = []
    try:
        for line in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=/(.*)/ (.*)", line.strip())
            if m:
                r.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return r


def check(prop):
    t0 = time.time()
    spec = CHECKS[prop]
    parts = []
    for p in spec["parts"]:
        p = dict(p)
        p["count"] = p["quick"] if TIER == "quick" else p["thorough"]
        if p["count"]:
            p["name"] = p["part"] + ("" if p["variant"] == "asan" else "/" + p["variant"])
            parts.append(p)
    try:
        paths = build({(p["exe"], p["variant"]) for p in parts})
    except BuildError as e:
        print("build failed: %s" % e)
        return 2
    t1 = time.time()
    run = Run(prop, t0 + (700 if TIER == "quick" else 7200))
    jobs = []
    for p in parts:
        o = p.get("opts", {})
        shards = min(o.get("shards", CPUS), p["count"])
        size = (p["count"] + shards - 1) // shards
        if TIER != "quick":
            size = min(size, max(1, size // 4))
        for first in range(0, p["count"], size):
            jobs.append((p, paths[(p["exe"], p["variant"])], first, min(size, p["count"] - first)))
    # large ones first, otherwise mixed
    jobs.sort(key=lambda j: (-j[0].get("opts", {}).get("weight", 1), j[2] / max(1, j[0]["count"])))
    seen = set()
    with cf.ThreadPoolExecutor(spec.get("workers", CPUS)) as ex:
        for f in [ex.submit(run.job, *j, SEED) for j in jobs]:
            f.result()
    wall = time.time() - t0
    evals = sum(p["evaluations"] for p in run.parts.values())

    findings = known()
    fresh, listed = [], {}
    for v in run.violations:
        for pr, rx, what in findings:
            if pr == prop and rx.search("%s %s: %s" % (v["part"], v["key"], v["detail"])):
                listed[what] = listed.get(what, 0) + 1
                break
        else:
            fresh.append(v)
    for pr, rx, what in findings:
        if pr == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))

    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(run.distinct),
        "rule": spec["rule"],
        "samples": [{"part": k, "case": s} for k, v in sorted(run.samples.items()) for s in v][:24],
        "parts": {k: {"evaluations": v["evaluations"], "processes": v["processes"], "observed": v["counters"]} for k, v in sorted(run.parts.items())},
        "builds": sorted({p["variant"] for p in parts}),
        "build_s": round(t1 - t0, 1),
        "inconclusive": run.inconclusive,
        "cases_not_run": run.skipped,
    }
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": spec.get("level", "exploration"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(fresh)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    shutil.rmtree(run.dir, ignore_errors=True)

    rc = 0
    if fresh:
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        n = 0
        for v in fresh:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            n += 1
            path = os.path.join(BUILD, "replay", "%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s (%s) case %s: %s: %s" % (v["part"], v["variant"], v["case"], v["key"], v["detail"][:600].replace("\n", "\n    ")))
            if n >= 8:
                break
        rc = 1
    for e in run.errors[:5]:
        print("ERROR %s" % e)
    if not rc and (run.errors or not evals or not run.distinct):
        print("ERROR: %s" % ("the harness failed" if run.errors else "nothing was observed"))
        rc = 2
    # every part must have seen something
    missing = [p["name"] for p in parts if not run.parts.get(p["name"], {}).get("evaluations")]
    if not rc and missing and not run.skipped:
        print("ERROR: nothing was observed in %s" % ", ".join(missing))
        rc = 2
    for i in run.inconclusive[:5]:
        print("inconclusive: %s" % i)
    print("%s %s: %d evaluations, %d distinct, %d violations, %.0f s (build %.0f s)%s" % (
        prop, TIER, evals, len(run.distinct), len(fresh), wall, t1 - t0, ", %d cases not run" % run.skipped if run.skipped else ""))
    return rc


def replay(path):
    v = json.load(open(path))
    paths = build({(v["exe"], v["variant"])})
    run = Run(v["property"], time.time() + 3600)
    part = next((dict(p) for p in CHECKS[v["property"]]["parts"] if p["part"] == v["part"] and p["variant"] == v["variant"]), None)
    part = part or {"exe": v["exe"], "variant": v["variant"], "part": v["part"]}
    part["name"] = v["part"]
    # found by mutation: the very input
    m = re.search(r"\binput: ([0-9a-f]+)", v["detail"] + v["log"])
    if m:
        part["input"] = m.group(1)
    run.job(part, paths[(v["exe"], v["variant"])], v["case"], 1, v["seed"])
    shutil.rmtree(run.dir, ignore_errors=True)
    for w in run.violations:
        print("VIOLATION property=%s replay=%s\n  %s: %s\n%s" % (v["property"], path, w["key"], w["detail"], w["log"]))
    for e in run.errors:
        print("ERROR %s" % e)
    return 1 if run.violations else 2 if run.errors else 0


def setup():
    for tool in ("clang++", "g++", "valgrind", "pkg-config", "dbus-daemon", "dbus-send"):
        if not shutil.which(tool):
            print("missing: " + tool)
            return 2
    if not pkg("--libs"):
        print("missing: libdbus-1")
        return 2
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    return 0


def manifest():
    commits = sh(["git", "-C", REPO, "log", "--format=%H %s"]).stdout.splitlines()
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    m = {
        "version": 1,
        "setup_cmd": "python3 run.py setup",
        "hooks": {
            "guard": "DBUS_ASIO_VERIF_SERIAL_START",
            "enable": "run.py compiles /repo/src/*.cpp itself; the build 'wrap' adds -DDBUS_ASIO_VERIF_SERIAL_START=0xFFFFF000, so that serials wrap around early. All other builds leave it undefined.",
            "source_commits": [c.split()[0] for c in commits if c.split(" ", 1)[1].startswith("hook:")],
        },
        "checks": [{
            "property": k,
            "quick_cmd": "VERIF_TIER=quick python3 run.py check " + k,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + k,
            "evidence_file": "evidence/%s.json" % k,
            "technique": c["technique"],
            "level": c.get("level", "exploration"),
            "level_note": c["note"],
        } for k, c in sorted(CHECKS.items())],
        "not_applicable": [{"property": p["id"], "reason": "its check is not built yet"} for p in props if p["id"] not in CHECKS],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    return 0


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        return setup()
    if len(sys.argv) == 2 and sys.argv[1] == "manifest":
        return manifest()
    if len(sys.argv) == 3 and sys.argv[1] == "check" and sys.argv[2] in CHECKS:
        return check(sys.argv[2])
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if len(sys.argv) == 2 and sys.argv[1] == "build":
        build({(p["exe"], p["variant"]) for c in CHECKS.values() for p in c["parts"]})
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
