#!/usr/bin/env python3
"""Runs the monitors of one property against the crate in /repo.

  check.py ID [--tier quick|thorough] [--seconds S]
  check.py build            (setup: builds everything once)

Exit 0: the property held on everything observed.  Exit 1, with a VIOLATION
line: it is broken.  Exit 2: inconclusive (nothing can be said).
"""
import fcntl, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
BUILD = os.path.join(HARNESS, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
HOOK = "--cfg algeo_verif"


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building

def source_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(HARNESS, "Cargo.toml"), os.path.join(HARNESS, "Cargo.lock")]
    for root in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src")):
        for d, dirs, fs in os.walk(root):
            dirs.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b"\0")
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except OSError:
            pass
    return h.hexdigest()


def env_for(target_dir, flags, **more):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTFLAGS", "MIRI", "RUSTC_"))}
    e.update(CARGO_TARGET_DIR=target_dir, RUSTFLAGS=flags, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    for k in ("CARGO_HOME",):
        if k in os.environ:
            e[k] = os.environ[k]
    e.setdefault("HOME", "/root")
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(more)
    return e


class Build:
    """One flavour of the harness: stable, asan, tsan or miri; `plain` is stable
    and `bare` is asan, compiled without debug assertions (but with overflow
    checks).  Miri always runs without debug assertions: it needs none."""

    def __init__(self, kind, only=None):
        self.kind = kind
        # compile the workloads of one property only (its build is shorter)
        self.only = only
        self.dir = os.path.join(BUILD, kind)
        self.hooks = True

    def flags(self):
        f = HOOK if self.hooks else ""
        if self.kind in ("asan", "bare"):
            f += " -Zsanitizer=address"
        if self.kind == "tsan":
            f += " -Zsanitizer=thread"
        return f.strip()

    def cmd(self, what):
        c = ["cargo"]
        if self.kind not in ("stable", "plain"):
            c.append("+nightly")
        c += what
        if self.kind in ("asan", "bare", "tsan"):
            c += ["--target", TRIPLE]
        if self.kind == "tsan" and what[0] == "build":
            c.append("-Zbuild-std")
        return c

    def built(self):
        mid = [TRIPLE] if self.kind in ("asan", "bare", "tsan") else []
        return os.path.join(self.dir, *mid, "release", "mon")

    def binary(self):
        return os.path.join(self.dir, "mon-" + (self.only or "all"))

    def features(self):
        return ["--features", "only," + self.only] if self.only else []

    def env(self, **more):
        e = env_for(self.dir, self.flags(), **more)
        if self.kind in ("plain", "bare"):
            e.update(CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS="false", CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="true", CARGO_PROFILE_RELEASE_OPT_LEVEL="3")
        if self.kind == "miri":
            e.update(CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="true")
        return e

    def build(self):
        os.makedirs(self.dir, exist_ok=True)
        with open(os.path.join(self.dir, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            want = source_hash()
            stamp = os.path.join(self.dir, "stamp")
            have = open(stamp).read() if os.path.exists(stamp) else ""
            err = ""
            for hooks in (True, False):
                self.hooks = hooks
                tag = "%s %s" % (want, hooks)
                if have != tag and self.kind != "miri":
                    # cargo judges freshness by modification times: be sure
                    if have or os.path.exists(self.built()):
                        subprocess.run(self.cmd(["clean", "--offline", "--release", "-p", "algeo", "-p", "mon"]), cwd=HARNESS, env=self.env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                elif have != tag:
                    for d in glob.glob(os.path.join(self.dir, "miri", "*", "*", ".fingerprint", "algeo-*")) + glob.glob(os.path.join(self.dir, "miri", "*", "*", ".fingerprint", "mon-*")):
                        for f in glob.glob(os.path.join(d, "*")):
                            os.unlink(f)
                if self.kind == "miri":
                    p = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "--target-dir", self.dir] + self.features() + ["--", "list"], cwd=HARNESS, env=self.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                    ok = p.returncode == 0
                else:
                    p = subprocess.run(self.cmd(["build", "--release", "--offline"] + self.features()), cwd=HARNESS, env=self.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                    ok = p.returncode == 0 and os.path.exists(self.built())
                    if ok:
                        tmp = self.binary() + ".new"
                        shutil.copy2(self.built(), tmp)
                        os.rename(tmp, self.binary())
                if ok:
                    with open(stamp, "w") as f:
                        f.write(tag)
                    return self
                err = p.stdout
        log(err[-6000:])
        raise Inconclusive("the %s build of the harness failed" % self.kind)


def write_dict(path):
    """integer literals of the sources under test: a workload dictionary"""
    vals = set()
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if not f.endswith(".rs"):
                continue
            try:
                s = open(os.path.join(d, f), errors="replace").read()
            except OSError:
                continue
            s = re.split(r"#\[cfg\(test\)\]", s)[0]
            s = re.sub(r"//[^\n]*", "", s)
            for m in re.finditer(r"(?<![A-Za-z0-9_.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)", s):
                try:
                    v = int(m.group(1).replace("_", ""), 0) if m.group(1)[:2] in ("0x", "0b") else int(m.group(1).replace("_", ""))
                except ValueError:
                    continue
                if -(1 << 63) <= v < (1 << 63):
                    vals.add(v)
    with open(path, "w") as f:
        f.write("\n".join(str(v) for v in sorted(vals)))


# ------------------------------------------------------------------ findings

def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) sig=(\S+) input=(.*)$", line.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def is_known(v, known):
    return any(v["sig"] == s and v["msg"].startswith(i) for s, i in known)


# ------------------------------------------------------------------ monitor runs

ABNORMAL = "ended abnormally"


def run_mon(binary, args, env, wall, stderr_path):
    with open(stderr_path, "wb") as ef:
        p = subprocess.Popen([binary] + args, stdout=subprocess.PIPE, stderr=ef, env=env, cwd=VERIF, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=wall)
            return p.returncode, out.decode(errors="replace")
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return None, ""


def journal(path):
    """the cases the threads of a dead process were working on"""
    try:
        with open(path, "rb") as f:
            d = f.read(8 * 64)
    except OSError:
        return {}
    v = struct.unpack("<%dQ" % (len(d) // 8), d[: len(d) // 8 * 8])
    return {i: x for i, x in enumerate(v) if x != (1 << 64) - 1}


def read_text(path, n=20000):
    try:
        with open(path, errors="replace") as f:
            return f.read(n)
    except OSError:
        return ""


def how(rc):
    if rc is None:
        return "reached the wall-clock watchdog"
    if rc < 0:
        try:
            return "was killed by " + signal.Signals(-rc).name
        except ValueError:
            return "was killed by signal %d" % -rc
    return {77: "exceeded the budget of allocation steps or memory", 78: "exceeded the budget of CPU time"}.get(rc, "exited with status %d" % rc)


def monitors(kind, prop, tier, seed, seconds):
    """runs `mon run prop` in one build; returns (build, arguments, result, violations of a dying process, cases left out)"""
    b = Build(kind, prop).build()
    if not b.hooks:
        log("note: the sources do not build with the observation hooks; continuing without them")
    work = os.path.join(EVID, "work")
    os.makedirs(work, exist_ok=True)
    stem = os.path.join(work, "%s-%s-%s" % (prop, tier, kind))
    dct = stem + ".dict"
    write_dict(dct)
    env = b.env()
    base = ["run", prop, "--seed", str(seed), "--tier", tier, "--dict", dct]
    budget = 40_000_000 if tier == "quick" else 400_000_000
    case_cpu = 20 if tier == "quick" else 60
    skip = []
    deaths = []
    t_start = time.time()
    for attempt in range(5):
        if attempt and time.time() - t_start > (420 if kind == "stable" else 120):
            break
        for f in [stem + ".j", stem + ".json"]:
            if os.path.exists(f):
                os.unlink(f)
        args = base + ["--seconds", str(seconds), "--budget", str(budget), "--case-cpu", str(case_cpu), "--threads", "8", "--journal", stem + ".j", "--out", stem + ".json"]
        if skip:
            args += ["--skip", ",".join(map(str, skip))]
        rc, _ = run_mon(b.binary(), args, env, seconds * 5 + 240, stem + ".err")
        if rc == 0 and os.path.exists(stem + ".json"):
            res = json.load(open(stem + ".json"))
            res["hooks"] = b.hooks
            return b, base, res, deaths, skip
        if rc in (70, 64):
            log(read_text(stem + ".err", 4000))
            raise Inconclusive("the harness itself failed (exit %s)" % rc)
        # the process died: replay what it was working on, one by one
        err = read_text(stem + ".err")
        m = re.search(r"DIED slot=(\d\d)", err)
        cur = journal(stem + ".j")
        if m and rc in (77, 78) and int(m.group(1)) in cur:
            cases = [cur[int(m.group(1))]]
        else:
            cases = sorted(cur.values())
        log("note: the monitored process %s; replaying cases %s" % (how(rc), cases))
        culprit = None
        for c in cases:
            a = base + ["--case", str(c), "--seconds", "600", "--budget", "2000000000", "--case-cpu", "100", "--threads", "1", "--out", stem + ".one.json"]
            rc1, _ = run_mon(b.binary(), a, env, 400, stem + ".one.err")
            if rc1 is None:
                raise Inconclusive("the replay of case %d reached the wall-clock watchdog" % c)
            if rc1 == 0:
                r1 = json.load(open(stem + ".one.json"))
                if r1["violations"]:
                    deaths += r1["violations"]
                continue
            if rc1 in (70, 64):
                raise Inconclusive("the harness itself failed on case %d" % c)
            tail = read_text(stem + ".one.err")[-1500:]
            deaths.append({"case": c, "stream": "?", "sig": "process:%s" % {77: "steps", 78: "time"}.get(rc1, "death"), "msg": "the process %s while working on case %d %s" % (how(rc1), c, tail.strip())})
            culprit = c
            break
        if culprit is not None:
            # one witness is enough
            return b, base, None, deaths, skip
        if rc in (77, 78) and cases:
            skip += cases
            # slower code is no violation: give the rest more room
            budget = min(budget * 6, 2_000_000_000)
            case_cpu = min(case_cpu * 2, 100)
            log("note: case(s) %s complete within a larger budget; left out of this run" % cases)
            continue
        if deaths:
            return b, base, None, deaths, skip
        # not reproducible alone: state across cases or threads, or the machine
        if attempt >= 1:
            raise Inconclusive("the monitored process %s and no single case reproduces it" % how(rc))
    raise Inconclusive("too many cases exceed their budget")


def report(prop, tier, seed, cov, viols, wall, assumptions, replay_cmd):
    os.makedirs(EVID, exist_ok=True)
    known = known_findings(prop)
    fresh = [v for v in viols if not is_known(v, known)]
    old = [v for v in viols if is_known(v, known)]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": assumptions, "wall_s": round(wall, 2), "violations": len(fresh)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for s, i in known:
        if any(v["sig"] == s for v in old):
            log("KNOWN-FINDING: property=%s %s %s" % (prop, s, i))
    if fresh:
        path = os.path.join(EVID, "%s-violation.txt" % prop)
        with open(path, "w") as f:
            f.write("property %s violated (tier %s, seed %d)\n" % (prop, tier, seed))
            for v in fresh:
                f.write("\n[%s] stream %s case %s\n%s\nreplay: %s\n" % (v["sig"], v["stream"], v["case"], v["msg"], replay_cmd(v)))
        for v in fresh[:3]:
            log("%s [%s] %s" % (prop, v["sig"], v["msg"][:600]))
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


ASSUME = [
    "the crate is built with overflow checks, so that arithmetic overflow panics instead of wrapping",
    "the oracle of each monitor (exact 128-bit rationals, prime fields, brute-force references in /verif/harness/src) is right",
    "holds on the executions observed, on this machine, with the compiler that built it",
]


def check_monitor(prop, tier, seed, seconds):
    t0 = time.time()
    viols, legs, cov = [], [], None
    # the same monitors with and without debug assertions: what the library
    # promises must not hang on them
    for kind, sd, secs in (("stable", seed, seconds), ("plain", seed + 1_000_003, seconds * 0.45)):
        try:
            b, base, res, deaths, skip = monitors(kind, prop, tier, sd, secs)
        except Inconclusive as x:
            if kind == "stable":
                raise
            legs.append({"build": kind, "unavailable": str(x)})
            log("note: the build without debug assertions gave no answer: %s" % x)
            continue
        for v in (res["violations"] if res else []) + deaths:
            v["replay"] = "%s %s --case %s   (built by check.py with RUSTFLAGS=%r%s)" % (b.binary(), " ".join(base), v["case"], b.flags(), "" if kind == "stable" else ", without debug assertions")
            viols.append(v)
        leg = {"build": kind, "seed": sd, "cases_over_budget": skip, "deaths": len(deaths), "hooks": b.hooks}
        if res:
            leg.update(evaluations=res["evaluations"], distinct=res["distinct"], assertions_checked=res["checks"], calls_into_the_library=res["sut_calls"], inconclusive_cases=res["skips"], seconds=res["seconds"])
        legs.append(leg)
        if kind == "stable" and res:
            main = res
            cov = {
                "evaluations": res["evaluations"],
                "distinct_nontrivial": res["distinct"],
                "rule": res["rule"],
                "samples": res["samples"] or ["(none)"],
                "assertions_checked": res["checks"],
                "calls_into_the_library": res["sut_calls"],
                "panics_observed": res["sut_panics_observed"],
                "streams": res["streams"],
                "situations": res["tags"],
                "inconclusive_cases": res["skips"],
                "cases_over_budget": skip,
                "max_allocations_of_a_case": res["max_case_allocs"],
                "hooks": res["hooks"],
            }
        if viols:
            break
    if cov is None:
        cov = {"evaluations": len(viols), "distinct_nontrivial": len(viols), "rule": "the cases on which the process died", "samples": [d["msg"][:500] for d in viols] or ["(none)"]}
    cov["builds"] = legs
    rc = report(prop, tier, seed, cov, viols, time.time() - t0, ASSUME, lambda v: v["replay"])
    if rc:
        return rc
    if main["distinct"] < main["min_distinct"]:
        raise Inconclusive("only %d distinct cases observed, %d are needed (%s)" % (main["distinct"], main["min_distinct"], main["skips"]))
    log("%s: held on %d cases (%d distinct), %d assertions; %d cases without debug assertions; %.1f s" % (prop, main["evaluations"], main["distinct"], main["checks"], legs[1].get("evaluations", 0), time.time() - t0))
    return 0


# ------------------------------------------------------------------ S01

BENIGN_ASAN = ("stack-overflow", "allocation-size-too-big", "calloc-overflow", "out-of-memory", "rss-limit-exceeded", "requested allocation size")


def asan_report(text):
    m = re.search(r"ERROR: AddressSanitizer:? ([^\n]*)", text)
    if m and not any(k in m.group(1) for k in BENIGN_ASAN):
        return m.group(0)
    m = re.search(r"UBCHECK [^\n]*", text)
    return m.group(0) if m else None


def sut_lines(text):
    """lines of the sources under test that a report mentions"""
    text = re.sub(r"(?ms)^warning: .*?^\n", "", text)
    return list(dict.fromkeys(re.findall(r"/repo/[^\s:]+:\d+", text)))


def miri_report(text):
    m = re.search(r"error: Undefined Behavior[^\n]*(\n\s*-->[^\n]*)?", text)
    if m:
        return re.sub(r"\s+", " ", m.group(0))
    m = re.search(r"UBCHECK [^\n]*", text)
    return m.group(0) if m else None


def other_props(binary, env):
    out = subprocess.run([binary, "list"], stdout=subprocess.PIPE, env=env, text=True).stdout.split()
    return [p for p in out if p != "S01"]


def check_s01(tier, seed, seconds):
    t0 = time.time()
    thorough = tier == "thorough"
    work = os.path.join(EVID, "work")
    os.makedirs(work, exist_ok=True)
    dct = os.path.join(work, "S01.dict")
    write_dict(dct)
    viols, cov_runs, inconclusive = [], [], []
    tags, samples = {}, []
    evals = distinct = 0

    # --- AddressSanitizer, all workloads
    plan = [("asan", "S01", 240.0 if thorough else 30.0), ("bare", "S01", 120.0 if thorough else 20.0)]
    asan = "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1"
    if thorough:
        b = Build("asan").build()
        plan += [("asan", p, 8.0) for p in other_props(b.binary(), b.env(ASAN_OPTIONS=asan))]
    for kind, p, secs in plan:
        b = Build(kind, None if thorough and kind == "asan" else "S01").build()
        env = b.env(ASAN_OPTIONS=asan)
        stem = os.path.join(work, "S01-%s-%s" % (kind, p))
        for f in glob.glob(stem + "*"):
            os.unlink(f)
        args = ["run", p, "--seed", str(seed), "--tier", "thorough", "--dict", dct, "--seconds", str(secs), "--threads", "8", "--journal", stem + ".j", "--out", stem + ".json", "--budget", "4000000000", "--case-cpu", "60"]
        rc, _ = run_mon(b.binary(), args, env, secs * 5 + 200, stem + ".err")
        err = read_text(stem + ".err", 200000)
        rep = asan_report(err)
        if rep is None and rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL) and "overflowed its stack" not in err:
            rep = "the process " + how(rc)
        if rep:
            loc = sut_lines(err)
            cases = [str(c) for c in journal(stem + ".j").values()]
            viols.append({"case": ",".join(cases), "stream": "%s %s" % (kind, p), "sig": "asan:" + p, "msg": "AddressSanitizer build%s, workload of %s: %s %s" % ("" if kind == "asan" else " without debug assertions", p, rep, " ".join(loc[:4])), "bin": b.binary(), "args": args})
            break
        if rc != 0 or not os.path.exists(stem + ".json"):
            # hangs, budgets and aborts that are not memory errors are the
            # business of the property whose workload this is
            if p == "S01" and kind == "asan":
                inconclusive.append("the sanitized workload %s" % how(rc))
            continue
        r = json.load(open(stem + ".json"))
        cov_runs.append({"tool": "AddressSanitizer" + ("" if kind == "asan" else " (no debug assertions)"), "workload": p, "evaluations": r["evaluations"], "calls": r["sut_calls"], "seconds": r["seconds"]})
        evals += r["evaluations"]
        distinct += r["distinct"]
        if p == "S01" and kind == "asan":
            samples = r["samples"]
            tags = r["tags"]

    # --- Miri
    miri_evals = 0
    if not viols:
        m = Build("miri", "S01").build()
        secs = 400.0 if thorough else 100.0
        jobs = []
        for k in range(8):
            stem = os.path.join(work, "S01-miri-%d" % k)
            for f in glob.glob(stem + "*"):
                os.unlink(f)
            sd = seed * 1000 + k
            flags = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=%d" % k
            if k % 4 == 3:
                flags += " -Zmiri-tree-borrows"
            cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target-dir", m.dir] + m.features() + ["--", "run", "S01", "--seed", str(sd), "--tier", "thorough", "--threads", "1", "--seconds", str(secs), "--out", stem + ".json", "--dict", dct]
            ef = open(stem + ".err", "wb")
            jobs.append((k, sd, stem, subprocess.Popen(cmd, cwd=HARNESS, env=m.env(MIRIFLAGS=flags), stdout=subprocess.DEVNULL, stderr=ef, start_new_session=True), flags, cmd))
        end = time.time() + secs * 1.2 + 150
        for k, sd, stem, p, flags, cmd in jobs:
            try:
                rc = p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = None
            err = read_text(stem + ".err", 200000)
            rep = miri_report(err)
            if rep:
                loc = sut_lines(err)
                viols.append({"case": "?", "stream": "miri", "sig": "miri:ub", "msg": "Miri: %s %s" % (rep, " ".join(loc[:4])), "bin": "MIRIFLAGS='%s' RUSTFLAGS='%s'" % (flags, m.flags()), "args": cmd})
                continue
            if rc != 0 or not os.path.exists(stem + ".json"):
                inconclusive.append("a Miri run %s: %s" % ("reached the watchdog" if rc is None else "ended with %d" % rc, err[-800:]))
                continue
            r = json.load(open(stem + ".json"))
            miri_evals += r["evaluations"]
            evals += r["evaluations"]
            distinct += r["distinct"]
            cov_runs.append({"tool": "Miri (tree borrows)" if "tree" in flags else "Miri", "workload": "S01 seed %d" % sd, "evaluations": r["evaluations"], "calls": r["sut_calls"], "seconds": r["seconds"]})
            for t, n in r["tags"].items():
                tags["miri: " + t] = tags.get("miri: " + t, 0) + n

    cov = {
        "evaluations": evals,
        "distinct_nontrivial": distinct,
        "rule": "random calls of every public operation, half of them outside its contract, under AddressSanitizer (with the standard library's unsafe-precondition checks) and under Miri; in the thorough tier also the workloads of all other properties under AddressSanitizer. Non-trivial: distinct (operation, operands), counted per run.",
        "samples": samples or ["(none)"],
        "runs": cov_runs,
        "cases_under_miri": miri_evals,
        "situations": tags,
    }
    rc = report("S01", tier, seed, cov, viols, time.time() - t0, ["AddressSanitizer and Miri report what they define as errors; hangs, panics and exhausted memory are not undefined behaviour", "leaks are not errors"], lambda v: "%s %s" % (v["bin"], " ".join(v["args"])))
    if rc:
        return rc
    if inconclusive and miri_evals < 300:
        raise Inconclusive("; ".join(inconclusive)[:2000])
    if evals < 20000 or miri_evals < 300:
        raise Inconclusive("too little was observed: %d executions, %d of them under Miri" % (evals, miri_evals))
    log("S01: no report in %d executions, %d of them under Miri, %.0f s" % (evals, miri_evals, time.time() - t0))
    return 0


# ------------------------------------------------------------------ S02

def purity(binary, env, seed, n, order, threads, cwd, work, wall):
    with open(os.path.join(work, "S02.err"), "wb") as ef:
        p = subprocess.Popen([binary, "purity", "--seed", str(seed), "--n", str(n), "--order", order, "--threads", str(threads)], stdout=subprocess.PIPE, stderr=ef, env=env, cwd=cwd, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=wall)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return None, None, None
    if p.returncode != 0:
        return p.returncode, None, None
    d, ops = {}, {}
    for line in out.decode().splitlines():
        if line.startswith("# "):
            k, v = line[2:].split("\t")
            ops[k] = int(v)
        else:
            i, t, h = line.split()
            d.setdefault(int(i), set()).add(h)
    return 0, d, ops


def check_s02(tier, seed, seconds):
    t0 = time.time()
    thorough = tier == "thorough"
    work = os.path.join(EVID, "work")
    os.makedirs(work, exist_ok=True)
    b = Build("stable", "S01").build()
    n = 1_000_000 if thorough else 200_000
    far = os.path.join(work, "elsewhere")
    os.makedirs(far, exist_ok=True)
    plain = b.env()
    other = b.env(LANG="de_DE.UTF-8", LC_ALL="de_DE.UTF-8", TZ="Asia/Tokyo", RUST_BACKTRACE="1", COLUMNS="40", TERM="dumb", HOME=far)
    runs = [
        ("forward", "forward", 1, VERIF, plain),
        ("again", "forward", 1, VERIF, plain),
        ("reverse", "reverse", 1, VERIF, plain),
        ("shuffled", "shuffled", 1, VERIF, plain),
        ("each repeated", "echo", 1, VERIF, plain),
        ("other directory and environment", "shuffled2", 1, far, other),
        ("8 threads", "forward", 8, VERIF, plain),
        ("8 threads reversed", "reverse", 8, far, other),
        ("8 threads repeating one operation each", "stress", 8, VERIF, plain),
    ]
    if thorough:
        runs += [("shuffled %d" % k, "s%d" % k, 1, VERIF, plain) for k in range(6)] + [("16 threads %d" % k, "t%d" % k, 16, VERIF, plain) for k in range(4)]
    base, ops, viols, done, inconclusive = None, {}, [], [], []
    observed = 0
    for name, order, threads, cwd, env in runs:
        rc, d, o = purity(b.binary(), env, seed, min(n, 60000) if order == "stress" else n, order, threads, cwd, work, 200 if not thorough else 900)
        if d is None:
            inconclusive.append("run '%s' %s" % (name, how(rc)))
            continue
        events = o["stress calls"] if order == "stress" else n * max(1, threads) * (4 if order == "echo" else 1)
        observed += events
        done.append({"run": name, "order": order, "threads": threads, "events": events})
        if base is None:
            base, ops, base_name = d, o, name
        bad = [i for i in d if len(d[i]) > 1 or d[i] != base.get(i)]
        for i in sorted(bad)[:3]:
            ev = subprocess.run([b.binary(), "purity", "--seed", str(seed), "--show", str(i)], stdout=subprocess.PIPE, env=plain, cwd=VERIF).stdout.decode(errors="replace").strip()
            viols.append({"case": i, "stream": name, "sig": "purity:" + (ev.split("\t")[0].replace(" ", "-") or "?"), "msg": "%d of %d calls give results in run '%s' that differ from those in run '%s' (or between threads); alone in a process, one of them is: %s" % (len(bad), n, name, base_name, ev[:800])})
    # --- data races
    race_events = 0
    races = []
    if not viols:
        m = Build("miri", "S01").build()
        jobs = []
        nm = 200 if thorough else 45
        for k in range(8):
            stem = os.path.join(work, "S02-miri-%d" % k)
            flags = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=%d" % (seed * 8 + k)
            cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target-dir", m.dir] + m.features() + ["--", "purity", "--seed", str(seed * 1000 + k), "--n", str(nm), "--threads", "3"]
            ef = open(stem + ".err", "wb")
            of = open(stem + ".out", "wb")
            jobs.append((stem, subprocess.Popen(cmd, cwd=HARNESS, env=m.env(MIRIFLAGS=flags), stdout=of, stderr=ef, start_new_session=True), cmd))
        end = time.time() + (900 if thorough else 240)
        for stem, p, cmd in jobs:
            try:
                rc = p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = None
            err = read_text(stem + ".err", 100000)
            rep = miri_report(err)
            if rep and "race" in rep.lower():
                loc = sut_lines(err)
                viols.append({"case": "?", "stream": "miri", "sig": "miri:race", "msg": "Miri: %s %s (%s)" % (rep, " ".join(loc[:4]), " ".join(cmd))})
            elif rc == 0:
                c, bad = {}, 0
                for line in read_text(stem + ".out", 1 << 26).splitlines():
                    if not line.startswith("#"):
                        i, t, h = line.split()
                        c.setdefault(i, set()).add(h)
                        race_events += 1
                races.append({"tool": "Miri", "threads": 3, "events": sum(1 for _ in c) * 3})
                diff = [i for i in c if len(c[i]) > 1]
                if diff:
                    viols.append({"case": diff[0], "stream": "miri", "sig": "purity:threads", "msg": "under Miri, %d calls give different results in different threads (%s)" % (len(diff), " ".join(cmd))})
            else:
                inconclusive.append("a Miri run %s: %s" % ("reached the watchdog" if rc is None else "ended with %d" % rc, err[-500:]))
    if thorough and not viols:
        try:
            t = Build("tsan", "S01").build()
            env = t.env(TSAN_OPTIONS="halt_on_error=0:exitcode=0:report_bugs=1")
            e = os.path.join(work, "S02-tsan.err")
            for k in range(4):
                with open(e, "wb") as ef:
                    subprocess.run([t.binary(), "purity", "--seed", str(seed * 10 + k), "--n", "20000", "--threads", "8"], stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=VERIF, timeout=600)
                txt = read_text(e, 1 << 20)
                k2 = txt.count("WARNING: ThreadSanitizer: data race")
                races.append({"tool": "ThreadSanitizer", "threads": 8, "events": 160000, "reports": k2})
                if k2:
                    loc = re.findall(r"/repo/[^\s:]+:\d+", txt)
                    viols.append({"case": "?", "stream": "tsan", "sig": "tsan:race", "msg": "ThreadSanitizer: %d data races %s" % (k2, " ".join(loc[:6]))})
                    break
        except (Inconclusive, subprocess.TimeoutExpired) as x:
            races.append({"tool": "ThreadSanitizer", "unavailable": str(x)})
    cov = {
        "evaluations": observed + race_events,
        "distinct_nontrivial": len(base or {}),
        "rule": "random calls of every public operation, a quarter of them outside its contract; each is evaluated in several processes, orders, environments and threads and its result (or panic) must be the same every time. Non-trivial: the distinct calls of the baseline run.",
        "samples": [subprocess.run([b.binary(), "purity", "--seed", str(seed), "--show", str(i)], stdout=subprocess.PIPE, env=plain, cwd=VERIF).stdout.decode(errors="replace").strip()[:400] for i in (1, n // 3, n // 2)],
        "runs": done,
        "race_detection": races,
        "operations": ops,
    }
    rc = report("S02", tier, seed, cov, viols, time.time() - t0, ["results are compared as sets where the library documents no order (bases of the range, facets, generators)"], lambda v: "%s purity --seed %d --n %d --order ... --show %s" % (b.binary(), seed, n, v["case"]))
    if rc:
        return rc
    if len(done) < 5 or race_events < 200:
        raise Inconclusive("too little was observed: %s" % "; ".join(inconclusive)[:2000])
    log("S02: same results in %d runs of %d calls; no race in %d calls under Miri, %.0f s" % (len(done), n, race_events, time.time() - t0))
    return 0


# ------------------------------------------------------------------

def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 64
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(EVID, exist_ok=True)
    if a[0] == "build":
        try:
            Build("stable", "N01").build()
            Build("plain", "N01").build()
            Build("miri", "S01").build()
        except Inconclusive as x:
            log(x)
            return 2
        return 0
    prop = a[0]
    seconds = float(opt("--seconds", "14" if tier == "quick" else "600"))
    try:
        if prop == "S01":
            return check_s01(tier, seed, seconds)
        if prop == "S02":
            return check_s02(tier, seed, seconds)
        return check_monitor(prop, tier, seed, seconds)
    except Inconclusive as x:
        log("INCONCLUSIVE property=%s %s" % (prop, x))
        return 2


if __name__ == "__main__":
    sys.exit(main())
