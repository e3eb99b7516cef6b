"""C26: the sanitizer and interpreter runs.

Parts, run side by side:
  native   c26 sessions with debug assertions, overflow checks and a counting allocator
  asan     the drivers of other properties and c26 under AddressSanitizer with LeakSanitizer
  miri     small workloads of the same drivers under the Miri interpreter (aliasing, validity, races, leaks)
  python   repeated calls of the real extension module under heap and reference-count watch
Only panics, sanitizer and interpreter reports and leaks count here; wrong results belong to the other properties.
"""
import json, os, re, resource, signal, subprocess, time

TRIPLE = "x86_64-unknown-linux-gnu"
ASAN = [("vh_core", b) for b in ("c02", "c03", "c04", "c05", "c08", "c09", "c10", "c11", "c13", "c14", "c15", "c16", "c17", "c18")] + \
       [("vh_grpph", b) for b in ("c06", "c21", "c22", "c26")]
MIRI = [("vh_grpph", "c26"), ("vh_core", "c04"), ("vh_grpph", "c26"), ("vh_core", "c03"), ("vh_grpph", "c26"),
        ("vh_core", "c08"), ("vh_grpph", "c26"), ("vh_core", "c13"), ("vh_grpph", "c26"), ("vh_core", "c04"),
        ("vh_grpph", "c21"), ("vh_core", "c02"), ("vh_grpph", "c26"), ("vh_core", "c16"), ("vh_grpph", "c06"), ("vh_core", "c05")]
MIRI_QUICK = 8
ASAN_QUICK = ("c02", "c03", "c04", "c08", "c13", "c15", "c16", "c17", "c22", "c26")


def asan_set(tier):
    return [x for x in ASAN if tier == "thorough" or x[1] in ASAN_QUICK]


def miri_set(tier):
    return MIRI if tier == "thorough" else MIRI[:MIRI_QUICK]


def asan_env(e, root):
    e = dict(e)
    e["RUSTFLAGS"] = "-Zsanitizer=address"
    e["CARGO_TARGET_DIR"] = os.path.join(root, "target", "asan")
    return e


def miri_env(e, root):
    e = dict(e)
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-tree-borrows"
    e["CARGO_TARGET_DIR"] = os.path.join(root, "target", "miri")
    # the interpreter's own copy of the standard library lives in the cache directory
    e["XDG_CACHE_HOME"] = os.path.join(root, "target", "cache")
    return e


def build_cmds(root, e, tier):
    ae, me = asan_env(e, root), miri_env(e, root)
    out = []
    for crate in ("vh_core", "vh_grpph"):
        bins = sum([["--bin", b] for c, b in asan_set(tier) if c == crate], [])
        out.append((["cargo", "+nightly", "build", "--release", "--offline", "--quiet", "--target", TRIPLE] + bins,
                    os.path.join(root, crate), ae))
    seen = []
    for c, b in miri_set(tier):
        if (c, b) in seen:
            continue
        seen.append((c, b))
        out.append((["cargo", "+nightly", "miri", "run", "--release", "--offline", "--quiet", "--bin", b, "--", "--cases", "0",
                     "--threads", "1"], os.path.join(root, c), me))
    return out


def prebuild(root, e, tier="quick"):
    for cmd, cwd, env in build_cmds(root, e, tier):
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            return " ".join(cmd) + "\n" + p.stdout[-4000:]
    return None


class Job:
    def __init__(self, kind, name, cmd, cwd, env, out, log, limit, slots=None):
        self.kind, self.name, self.cmd, self.cwd, self.env = kind, name, cmd, cwd, env
        self.out, self.log, self.limit, self.slots = out, log, limit, slots
        self.p, self.rc, self.late = None, None, False

    def start(self):
        for f in (self.out, self.slots):
            if f and os.path.exists(f):
                os.remove(f)
        self.p = subprocess.Popen(self.cmd, cwd=self.cwd, env=self.env, stdout=open(self.log, "wb"), stderr=subprocess.STDOUT,
                                  start_new_session=True, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
        self.t0 = time.time()

    def poll(self):
        self.rc = self.p.poll()
        if self.rc is None and time.time() - self.t0 > self.limit:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
            self.rc, self.late = -9, True
        return self.rc is not None

    def text(self):
        return open(self.log, "rb").read().decode(errors="replace")

    def result(self):
        try:
            if self.out:
                return json.load(open(self.out))
            t = self.text()
            return json.loads(t[t.index("{\n\"evaluations\""):t.rindex("\n}") + 2])
        except (OSError, ValueError):
            return None


def run_jobs(jobs, width):
    todo, live = list(jobs), []
    while todo or live:
        while todo and len(live) < width:
            j = todo.pop(0)
            j.start()
            live.append(j)
        live = [j for j in live if not j.poll()]
        time.sleep(0.1)


def report(text):
    """The first lines of a sanitizer or interpreter report."""
    m = re.search(r"(==\d+==ERROR: \w+Sanitizer.*|error: Undefined Behavior.*|error: memory leaked.*|error: .*data race.*|"
                  r"error: abnormal termination.*|error: deadlock.*|unsafe precondition\(s\) violated.*|LEAK: .*)", text, re.S)
    return m.group(1)[:3000] if m else None


def custom(chk, prop, plan, seed, tier, e, t0):
    root = chk.ROOT
    err = prebuild(root, e, tier)
    if err:
        chk.die("sanitizer build failed: " + err)
    q = tier == "quick"
    run = os.path.join(root, "run")
    os.makedirs(run, exist_ok=True)
    jobs = []

    def path(name, ext):
        return os.path.join(run, "C26-%s.%s" % (name, ext))

    me = miri_env(e, root)
    n_miri = MIRI_QUICK if q else 4 * len(MIRI)
    # a slow build may not eat the time the runs need
    left = 800 - (time.time() - t0)
    d_miri = (60 if left > 500 else 20) if q else 240
    for k in range(n_miri):
        crate, b = MIRI[k % len(MIRI)]
        name = "miri%d-%s" % (k, b)
        jobs.append(Job("miri", name, ["cargo", "+nightly", "miri", "run", "--release", "--offline", "--quiet", "--bin", b, "--",
                                       "--seed", str(seed * 1000 + k), "--cases", "1000000", "--deadline", str(d_miri), "--threads", "1"],
                        os.path.join(root, crate), me, None, path(name, "log"), 5 * d_miri))
    ae = asan_env(e, root)
    for k, (crate, b) in enumerate(asan_set(tier)):
        for leaks in (1,):
            e2 = dict(ae)
            e2["ASAN_OPTIONS"] = "detect_leaks=%d:detect_stack_use_after_return=1:abort_on_error=0:exitcode=99" % leaks
            name = "asan-" + b
            exe = os.path.join(root, "target", "asan", TRIPLE, "release", b)
            jobs.append(Job("asan", name, [exe, "--seed", str(seed * 1000 + 500 + k), "--cases", str(4000 if q else 400000), "--deadline",
                                           str(8 if q else 60), "--threads", "4", "--out", path(name, "json"), "--slots", path(name, "slots")],
                            root, e2, path(name, "json"), path(name, "log"), 60 if q else 300, path(name, "slots")))
    exe = os.path.join(root, "target", "release", "c26")
    jobs.append(Job("native", "native", [exe, "--seed", str(seed), "--cases", str(400_000 if q else 20_000_000), "--deadline",
                                         str(20 if q else 200), "--threads", "4", "--out", path("native", "json"), "--slots",
                                         path("native", "slots")], root, e, path("native", "json"), path("native", "log"), 300,
                    path("native", "slots")))
    jobs.append(Job("python", "python", ["/usr/bin/python3", os.path.join(root, "tools", "pyleak.py"),
                                         os.path.join(root, "target", "py", "mod"), str(seed), str(200 if q else 3000)],
                    root, e, None, path("python", "log"), 300))
    # the short jobs first, so that the long ones fill the rest
    jobs.sort(key=lambda j: {"native": 0, "python": 1, "miri": 2, "asan": 3}[j.kind])
    run_jobs(jobs, 9)

    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": plan["rule"], "samples": [], "observed": {}, "maxima": {},
           "skipped_outside_domain": {}, "other_property_violations": 0}
    obs = cov["observed"]
    violations, errors = [], []

    def add(k, n):
        obs[k] = obs.get(k, 0) + n

    retry = []
    for j in jobs:
        t = j.text()
        if j.kind == "asan" and "LeakSanitizer has encountered a fatal error" in t:
            retry.append(j)
            continue
        judge(j, t, cov, add, violations, errors)
    if retry:
        # the sandbox may forbid the leak checker's tracer; the counting allocator still watches for leaks
        add("asan_runs_without_leak_checker", len(retry))
        for j in retry:
            j.env["ASAN_OPTIONS"] = j.env["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
        run_jobs(retry, 8)
        for j in retry:
            judge(j, j.text(), cov, add, violations, errors)
    chk.finish(prop, plan, seed, tier, t0, cov, violations, errors, True)


def judge(j, t, cov, add, violations, errors):
    cmd = " ".join(j.cmd)
    rep = report(t)
    res = j.result()
    if rep:
        violations.append({"case": j.name, "message": "%s: %s" % (j.name, rep), "input": "cd %s && %s" % (j.cwd, cmd)})
        return
    if j.late:
        errors.append("%s did not finish in time" % j.name)
        return
    if j.kind == "python":
        m = re.search(r"python_calls (\d+)", t)
        if j.rc == 0 and m:
            add("python_calls", int(m.group(1)))
        elif j.rc < 0 or "PanicException" in t:
            violations.append({"case": j.name, "message": "python: exit %s: %s" % (j.rc, t[-1500:]), "input": cmd})
        else:
            errors.append("python: exit %s: %s" % (j.rc, t[-1500:]))
        return
    if j.rc < 0:
        violations.append({"case": j.name, "message": "%s died with signal %d: %s" % (j.name, -j.rc, t[-1500:]), "input": cmd})
        return
    if res is None:
        errors.append("%s: exit %s without a result: %s" % (j.name, j.rc, t[-1500:]))
        return
    own = j.name == "native" or j.name.endswith("c26")
    for v in res["violations"]:
        if own or v["msg"].startswith("panic at"):
            violations.append({"case": "%s-%s" % (j.name, v["case"]), "message": "%s: %s" % (j.name, v["msg"]),
                               "input": "%s\n%s" % (cmd, v["input"])})
        else:
            cov["other_property_violations"] += 1
    errors += ["%s: %s" % (j.name, x) for x in res["errors"]]
    n = res["evaluations"]
    cov["evaluations"] += n
    add("cases_" + j.kind, n)
    cov["distinct_nontrivial"] += res["distinct_nontrivial"]
    if len(cov["samples"]) < 6:
        cov["samples"] += ["%s %s" % (j.name, s) for s in res["samples"][:1]]
    for k, v in res["observed"].items():
        add((k if own and j.kind == "native" else j.kind + "_" + k), v)
    for k, v in res["skipped"].items():
        cov["skipped_outside_domain"][k] = cov["skipped_outside_domain"].get(k, 0) + v
