#!/usr/bin/env python3
"""Driver of the runtime monitors.

  check.py C01 [--tier quick|thorough] [--seed N]   run the monitors of one property
  check.py --replay FILE                            re-run the case a VIOLATION line names
  check.py --setup                                  build every flavour once

Builds the library from /repo's working tree (instrumented), runs the harnesses
of the property on 8 workers, reads their reports, writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the tree could not be built or the run gave no answer.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from plan import PLAN, LEVEL  # noqa: E402

BUILD = os.path.join(HERE, "build")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
EXCLUDE = re.compile(r"Cuda|Hip|Sycl|OpenMPTarget|Numa|/numa|Device|device_allocator|sqlite|/python/")

COMMON = ["-std=c++14", "-O1", "-g", "-fno-omit-frame-pointer", "-Wno-everything"]
FLAVOURS = {
    "asan": dict(cxx=["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"],
                 c=["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all"], defs=[]),
    # call stacks kept with every record
    "bt": dict(cxx=["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"],
               c=["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all"],
               defs=["UMPIRE_ENABLE_BACKTRACE", "UMPIRE_ENABLE_BACKTRACE_SYMBOLS"]),
    "tsan": dict(cxx=["-fsanitize=thread"], c=["-fsanitize=thread"], defs=[]),
    # Umpire's own ASAN support: pools poison the memory they hold
    "pasan": dict(cxx=["-fsanitize=address", "-fno-sanitize-recover=all"], c=["-fsanitize=address"], defs=["UMPIRE_ENABLE_ASAN"]),
}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=16:abort_on_error=0:exitcode=77:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1:history_size=4",
    "LSAN_OPTIONS": "exitcode=77",
}


class NoAnswer(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


# ------------------------------------------------------------------ building
def lib_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src/umpire")):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(".cpp") and not EXCLUDE.search(p[len(REPO):]):
                out.append(p)
    return sorted(out)


def headers_hash():
    parts = []
    for root in (os.path.join(REPO, "src"), os.path.join(HERE, "camp")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith((".cpp", ".c", ".o")):
                    p = os.path.join(d, f)
                    parts.append(p)
                    parts.append(read(p))
    return sha(*parts)


def gen_config(flavour):
    """config.hpp of a host-only build with file and shared-memory resources."""
    inc = os.path.join(BUILD, flavour, "include", "umpire")
    os.makedirs(inc, exist_ok=True)
    on = {"UMPIRE_ENABLE_LOGGING", "UMPIRE_ENABLE_FILE_RESOURCE", "UMPIRE_ENABLE_IPC_SHARED_MEMORY",
          "UMPIRE_ENABLE_DEVELOPER_BENCHMARKS"} | set(FLAVOURS[flavour]["defs"])
    vals = {"Umpire_VERSION_MAJOR": "2024", "Umpire_VERSION_MINOR": "7", "Umpire_VERSION_PATCH": "0"}
    src = open(os.path.join(REPO, "src/umpire/config.hpp.in")).read()

    def cmd(m):
        n = m.group(1)
        return "#define %s" % n if n in on else "/* #undef %s */" % n
    src = re.sub(r"#cmakedefine\s+(\w+).*", cmd, src)
    src = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), ""), src)
    p = os.path.join(inc, "config.hpp")
    if not os.path.exists(p) or open(p).read() != src:
        open(p, "w").write(src)
    return os.path.join(BUILD, flavour, "include"), src


def run_cc(cmd, out):
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise NoAnswer("cannot build: %s\n%s" % (" ".join(cmd), r.stdout.decode("utf-8", "replace")[:3000]))
    os.replace(tmp, out)


def build(flavour, harnesses):
    """Instrumented library + the harness executables, from the current tree."""
    t0 = time.time()
    fl = FLAVOURS[flavour]
    inc, cfg = gen_config(flavour)
    base = os.path.join(BUILD, flavour)
    odir = os.path.join(base, "obj")
    os.makedirs(odir, exist_ok=True)
    hh = sha(headers_hash(), cfg)
    incs = ["-I" + os.path.join(HERE, "camp"), "-I" + inc, "-I" + REPO + "/src", "-I" + REPO + "/src/tpl",
            "-I" + REPO + "/src/umpire/interface/c_fortran", "-I" + REPO + "/src/umpire/interface"]
    defs = ["-DVERIF_MONITOR"]
    cxx = ["clang++"] + COMMON + fl["cxx"] + incs + defs
    cc = ["clang", "-O1", "-g", "-fno-omit-frame-pointer", "-w"] + fl["c"] + incs
    objs, todo = [], []

    def obj(src, comp):
        key = sha(hh, read(src), src, " ".join(comp))
        o = os.path.join(odir, os.path.basename(src) + "." + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((comp + ["-c", src], o))
    for s in lib_sources():
        obj(s, cxx)
    obj(REPO + "/src/tpl/umpire/judy/judy.c", cc)
    libobjs = list(objs)
    hobj = {}
    hcommon = sha(*[read(os.path.join(HERE, "harness", f)) for f in sorted(os.listdir(os.path.join(HERE, "harness"))) if f.endswith(".hpp")])
    for h in harnesses:
        extra = ["-DVH_HARNESS_INC=" + hcommon, "-I" + os.path.join(HERE, "harness"), "-I" + REPO + "/tools/replay"]
        objs = []
        obj(os.path.join(HERE, "harness", h + ".cpp"), cxx + extra)
        if h == "h_replay":
            # the replay tools: every source, the two programs with their main renamed
            tools = os.path.join(REPO, "tools/replay")
            th = sha(*[read(os.path.join(tools, f)) for f in sorted(os.listdir(tools)) if not f.endswith(".cpp")])
            for f in sorted(os.listdir(tools)):
                if f.endswith(".cpp"):
                    obj(os.path.join(tools, f), cxx + ["-DVH_TOOLS_INC=" + th, "-I" + tools] + (["-Dmain=%s_main" % f[:-4]] if f in ("replay.cpp", "replaydiff.cpp") else []))
        if h == "h_fort":
            # the Fortran module and the entry points the harness calls it through, as one unit
            parts = [os.path.join(REPO, "src/umpire/interface/c_fortran/wrapfumpire.f"), os.path.join(HERE, "harness", "fbridge.f90")]
            text = b"\n".join(read(p) for p in parts)
            unit = os.path.join(base, "fort." + sha(text) + ".f90")
            if not os.path.exists(unit):
                with open(unit + ".tmp%d" % os.getpid(), "wb") as f:
                    f.write(text)
                os.replace(unit + ".tmp%d" % os.getpid(), unit)
            mod = os.path.join(base, "mod%d" % os.getpid())
            os.makedirs(mod, exist_ok=True)
            objs.append(os.path.join(odir, "fort." + sha(text) + ".o"))
            if not os.path.exists(objs[-1]):
                todo.append((["gfortran", "-O1", "-g", "-fcheck=all", "-w", "-ffree-line-length-none", "-J" + mod, "-c", unit], objs[-1]))
        hobj[h] = list(objs)
    # biggest sources first keeps the cores busy
    todo.sort(key=lambda t: -os.path.getsize(t[0][-1]) if "h_" not in t[0][-1] else -10**9)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(run_cc, c, o) for c, o in todo]:
            f.result()
    shutil.rmtree(os.path.join(base, "mod%d" % os.getpid()), ignore_errors=True)
    exes = {}
    links = []
    for h in harnesses:
        flags = ["-lfmt", "-ldl", "-lpthread", "-lrt"] + {"h_fort": ["-lgfortran"], "h_bt": ["-Wl,--dynamic-list=" + os.path.join(HERE, "harness", "h_bt.list")]}.get(h, [])
        key = sha(*(libobjs + hobj[h] + flags))
        e = os.path.join(base, h + "." + key)
        exes[h] = e
        if not os.path.exists(e):
            links.append((["clang++", "-O1", "-g"] + fl["cxx"] + hobj[h] + libobjs + flags, e))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(run_cc, c, o) for c, o in links]:
            f.result()
    # drop products of older trees
    keep = set(libobjs) | {o for l in hobj.values() for o in l}
    if len(os.listdir(odir)) > 1500:
        for f in os.listdir(odir):
            if os.path.join(odir, f) not in keep:
                os.unlink(os.path.join(odir, f))
    for f in os.listdir(base):
        p = os.path.join(base, f)
        if os.path.isfile(p) and f.split(".")[0] in exes and p not in exes.values() and time.time() - os.path.getmtime(p) > 3600:
            os.unlink(p)
    return exes, time.time() - t0


# ------------------------------------------------------------------ findings
def known_keys(prop):
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


# ------------------------------------------------------------------ running
def crash_key(err, rc):
    for pat, k in ((r"ERROR: AddressSanitizer: ([\w-]+)", "asan"), (r"WARNING: ThreadSanitizer: ([\w -]+?) \(", "tsan"),
                   (r"ERROR: LeakSanitizer: ([\w ]+)", "lsan"), (r"runtime error: (.{0,60})", "ubsan"),
                   (r"FATAL: ThreadSanitizer: (.{0,60})", "tsan"),
                   (r"ERROR: UndefinedBehaviorSanitizer: ([\w-]+)", "ubsan")):
        m = re.search(pat, err)
        if m:
            d = re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1)).strip().replace(" ", "-")
            fr = ""
            for f in re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?([^\n]+)", err[m.start():]):
                if "umpire" in f or "judy" in f:
                    fr = re.sub(r"\(.*", "", f).strip().replace(" ", "_")[-60:]
                    break
            return "crash:%s:%s:%s" % (k, d, fr)
    m = re.search(r"Assertion [`'](.{0,80})'? failed", err)
    if m:
        return "crash:assert:" + m.group(1).replace(" ", "_")
    if "terminate called" in err:
        return "crash:terminate"
    return "crash:rc%d" % rc


def banner(err):
    """The part of stderr that tells what happened: from a sanitizer's banner on, else the end."""
    m = re.search(r"(ERROR|WARNING|FATAL): \w+Sanitizer|runtime error:", err)
    return err[max(0, m.start() - 100):][:12000] if m else err[-8000:]


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.known = known_keys(prop)
        self.lock = threading.Lock()
        self.cases = 0
        self.evals = 0
        self.counters, self.ignored, self.known_hits = {}, {}, {}
        self.sigs, self.csigs, self.samples = set(), set(), []
        self.viol = None
        self.errors = []
        self.stop = False
        self.per_job = {}
        self.scratch = tempfile.mkdtemp(prefix="umpire-verif-")

    def exec(self, exe, job, start, count, timeout, trace=False, seed=None):
        r, w = os.pipe()
        wd = tempfile.mkdtemp(dir=self.scratch)
        env = {k: v for k, v in os.environ.items() if not k.startswith("UMPIRE_")}
        env.update(SAN_ENV)
        env.update({"TMPDIR": wd, "VERIF_SCRATCH": wd, "VERIF_KNOWN_KEYS": "\n".join(self.known), "VERIF_REPO": REPO, "VERIF_FD": str(w)})
        for k, v in job.get("env", {}).items():
            if k.endswith("_OPTIONS") and k in env:
                env[k] = env[k] + ":" + v
            else:
                env[k] = v.replace("$WD", wd)
        cmd = [exe, "--seed", str(self.seed if seed is None else seed), "--start", str(start), "--count", str(count),
               "--prop", self.prop, "--tier", self.tier]
        if job.get("cats"):
            cmd += ["--cats", ",".join(sorted(set(job["cats"]) | {"unexpected", "crash"}))]
        for k, v in job.get("opts", {}).items():
            cmd += ["--opt", "%s=%s" % (k, v)]
        if trace:
            cmd += ["--trace"]

        errf = open(os.path.join(wd, "stderr"), "wb+")

        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=errf, stdin=subprocess.DEVNULL, start_new_session=True, pass_fds=(w,), env=env, cwd=wd)
        os.close(w)
        lines = []

        def reader():
            with os.fdopen(r, "rb") as f:
                for l in f:
                    lines.append(l)
        th = threading.Thread(target=reader)
        th.start()
        to = False
        end = time.time() + timeout
        while True:
            try:
                p.wait(1)
                break
            except subprocess.TimeoutExpired:
                if time.time() > end or self.stop:
                    to = True
                    break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        th.join(10)
        errf.seek(0, 2)
        n = errf.tell()
        errf.seek(max(0, n - 60000))
        err = errf.read().decode("utf-8", "replace")
        errf.close()
        shutil.rmtree(wd, ignore_errors=True)
        recs = []
        for l in lines:
            try:
                recs.append(json.loads(l.decode("utf-8", "replace")))
            except ValueError:
                pass
        return dict(rc=p.returncode, timeout=to, recs=recs, err=err, cmd=cmd)

    def absorb(self, job, res):
        with self.lock:
            for r in res["recs"]:
                if r["t"] == "done":
                    self.evals += r["evals"]
                    self.cases += r["counters"].get("cases", 0)
                    for k, v in r["counters"].items():
                        self.counters[k] = self.counters.get(k, 0) + v
                    for k, v in r["ignored"].items():
                        self.ignored[k] = self.ignored.get(k, 0) + v
                    self.known_hits.update(r["known"])
                    self.sigs.update(r["sigs"])
                    self.csigs.update(job["name"] + c for c in r["csigs"])
                    if len(self.samples) < 40:
                        self.samples += r["samples"][:4]
            j = self.per_job.setdefault(job["name"], dict(chunks=0))
            j["chunks"] += 1

    def report(self, job, case, key, msg, trace, err):
        with self.lock:
            if self.viol is None:
                self.viol = dict(property=self.prop, key=key, msg=msg, case=case, harness=job["harness"], flavour=job["flavour"],
                                 job=job["name"], opts=job.get("opts", {}), seed=self.seed, tier=self.tier, trace=trace,
                                 stderr=banner(err))
            self.stop = True

    def chunk(self, exe, job, start, count):
        if self.stop:
            return
        to = job.get("timeout", 150)
        res = self.exec(exe, job, start, count, to)
        v = [r for r in res["recs"] if r["t"] == "viol"]
        last = max([r["case"] for r in res["recs"] if r["t"] == "case"], default=None)
        if v:
            self.absorb(job, res)
            self.report(job, v[0]["case"], v[0]["key"], v[0]["msg"], v[0].get("trace", []), res["err"])
            return
        if res["rc"] == 0 and not res["timeout"]:
            self.absorb(job, res)
            return
        if self.stop:
            return
        if last is None:
            # died before the first case: try once more
            res2 = self.exec(exe, job, start, count, to)
            if res2["rc"] == 0:
                self.absorb(job, res2)
                return
            last = max([r["case"] for r in res2["recs"] if r["t"] == "case"], default=None)
            res = res2
            if last is None and res["rc"] not in (1, 77):
                with self.lock:
                    self.errors.append("harness %s did not start: rc %s %s" % (job["name"], res["rc"], res["err"][-1500:]))
                return
            last = last or 0
        san = res["rc"] == 77 or "Sanitizer" in res["err"] or "runtime error:" in res["err"] or "Assertion" in res["err"] or "terminate called" in res["err"]
        oom = "out of memory" in res["err"].lower() and "AddressSanitizer" in res["err"] and "allocator is out of memory" in res["err"].lower()
        if not res["timeout"] and san and not oom:
            key = crash_key(res["err"], res["rc"])
            if key in self.known:
                with self.lock:
                    self.known_hits[key] = self.known[key]
            else:
                self.report(job, last, key, "the run of this case died: " + key, [], res["err"])
                return
        else:
            # hang, plain signal or memory kill: judge only what repeats alone
            n = 0
            for _ in range(2):
                one = self.exec(exe, job, last, 1, job.get("single", 60))
                vv = [r for r in one["recs"] if r["t"] == "viol"]
                if vv:
                    self.report(job, last, vv[0]["key"], vv[0]["msg"], vv[0].get("trace", []), one["err"])
                    return
                if one["rc"] == 0 and not one["timeout"]:
                    break
                n += 1
            if n == 2:
                key = "crash:hang" if one["timeout"] else crash_key(one["err"], one["rc"])
                if key not in self.known:
                    self.report(job, last, key, "the run of this case %s" % ("does not end" if one["timeout"] else "died: " + key), [], one["err"])
                    return
                with self.lock:
                    self.known_hits[key] = self.known[key]
        # continue after the case that ended the process
        done = last - start + 1
        with self.lock:
            self.counters["interrupted_chunks"] = self.counters.get("interrupted_chunks", 0) + 1
        if count - done > 0:
            self.chunk(exe, job, last + 1, count - done)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def run_property(prop, tier, seed):
    t0 = time.time()
    p = PLAN[prop]
    jobs = [dict(j) for j in p["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    R = Run(prop, tier, seed)
    try:
        exes, build_s = {}, 0.0
        for fl in sorted(set(j["flavour"] for j in jobs)):
            e, s = build(fl, sorted(set(j["harness"] for j in jobs if j["flavour"] == fl)))
            build_s += s
            for h, x in e.items():
                exes[(fl, h)] = x
        budget = p.get("quick_s", 200) if tier == "quick" else p.get("thorough_s", 600)
        t1 = time.time()
        rounds = 0
        sem = {}
        while True:
            work = []
            for j in jobs:
                n = j["cases"]
                ch = j.get("chunk", max(1, n // 16))
                off = rounds * 1000000
                for a in range(0, n, ch):
                    work.append((j, off + a, min(ch, n - a)))
            # interleave jobs so that a budget cut hits all of them alike
            order = {}
            for w in work:
                order.setdefault(w[0]["name"], []).append(w)
            inter = []
            while any(order.values()):
                for k in list(order):
                    if order[k]:
                        inter.append(order[k].pop(0))

            skipped = [0]

            def go(w):
                if R.stop or time.time() - t1 > budget:
                    skipped[0] += 1
                    return
                R.chunk(exes[(w[0]["flavour"], w[0]["harness"])], *w)
            with cf.ThreadPoolExecutor(p.get("workers", JOBS)) as ex:
                for f in [ex.submit(go, w) for w in inter]:
                    f.result()
            rounds += 1
            if R.stop or R.errors or tier == "quick" or time.time() - t1 > budget:
                break
        if skipped[0]:
            R.counters["chunks_skipped_for_time"] = skipped[0]
        code = 0
        if R.viol:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            rp = os.path.join(HERE, "replays", "%s-%s.json" % (prop, sha(json.dumps(R.viol, sort_keys=True))[:10]))
            json.dump(R.viol, open(rp, "w"), indent=1)
            print("violated: %s" % R.viol["key"])
            print("  %s" % re.sub(r"\s*\n.*Backtrace.*?\n\n", " ", R.viol["msg"], flags=re.S)[:1500])
            print("  harness %s/%s job %s case %s seed %s" % (R.viol["harness"], R.viol["flavour"], R.viol["job"], R.viol["case"], seed))
            for l in R.viol["trace"][-12:]:
                print("    " + l)
            if not R.viol["trace"]:
                print(R.viol["stderr"][:3000])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            code = 1
        elif R.errors:
            print("no answer: " + R.errors[0])
            code = 2
        elif R.cases == 0:
            print("no answer: no case was run")
            code = 2
        else:
            for k, need in p.get("must_see", {}).items():
                if R.counters.get(k, 0) < need:
                    R.ignored["vacuous:" + k] = R.counters.get(k, 0)
                    print("note: the monitors observed only %d of the expected %d '%s' events" % (R.counters.get(k, 0), need, k))
        for k, m in sorted(R.known_hits.items()):
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k, R.known.get(k, m)))
        ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL.get(prop, "exploration"),
                  coverage=dict(evaluations=R.cases, distinct_nontrivial=len(R.csigs), distinct_states=len(R.sigs), rule=p["rule"], samples=R.samples[:20] or ["(none)"],
                                oracle_decisions=R.evals, observed=R.counters, jobs=R.per_job, build_s=round(build_s, 1),
                                other_categories_ignored=R.ignored),
                  assumptions=p.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if R.viol else 0)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
        if code == 0:
            print("%s held: %d cases (%d distinct), %d distinct states, %d oracle decisions, build %.1f s, total %.1f s" %
                  (prop, R.cases, len(R.csigs), len(R.sigs), R.evals, build_s, time.time() - t0))
        return code
    finally:
        R.close()


def replay(path):
    v = json.load(open(path))
    job = next(j for j in PLAN[v["property"]]["jobs"] if j["name"] == v["job"])
    R = Run(v["property"], v["tier"], v["seed"])
    try:
        exes, _ = build(job["flavour"], [job["harness"]])
        res = R.exec(exes[job["harness"]], job, v["case"], 1, 600, trace=True)
        sys.stdout.write(res["err"][-20000:])
        for r in res["recs"]:
            if r["t"] == "viol":
                print(r["key"], r["msg"])
        print("exit", res["rc"])
        return 0 if res["rc"] == 0 else 1
    finally:
        R.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    sys.stdout.reconfigure(line_buffering=True)
    try:
        if a.replay:
            return replay(a.replay)
        if a.setup:
            need = {}
            for p in PLAN.values():
                for j in p["jobs"]:
                    need.setdefault(j["flavour"], set()).add(j["harness"])
            for fl in sorted(need):
                _, s = build(fl, sorted(need[fl]))
                print("built %s in %.1f s" % (fl, s))
            return 0
        if a.prop not in PLAN:
            print("unknown property", a.prop)
            return 2
        return run_property(a.prop, a.tier, a.seed)
    except NoAnswer as e:
        print("no answer: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
