#!/usr/bin/env python3
"""Run the monitors of one property against /repo's working tree.

  check.py ID            quick or thorough, as VERIF_TIER says (default quick); VERIF_SEED seeds every choice
  check.py --replay FILE run the case of a replay file again (exit 1 when the violation shows)
  check.py --prebuild    build every configuration the quick checks use

Exit 0: held on what was explored. Exit 1: violated, with a VIOLATION line. Anything else: no verdict.
"""
import json, os, signal, struct, subprocess, sys, threading, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = 8
HOST = "x86_64-unknown-linux-gnu"
T0 = time.time()

# name: (toolchain, profile, features, RUSTFLAGS, extra cargo arguments, target triple)
BUILDS = {
    "rayon":   ("+stable", "checked", "rayon,faults", "", [], None),
    "mpsc":    ("+stable", "checked", "faults", "", [], None),
    "rayon-p": ("+stable", "checked", "rayon,portable", "", [], None),
    "mpsc-p":  ("+stable", "checked", "portable,faults", "", [], None),
    "rayon-r": ("+stable", "release", "rayon", "", [], None),
    "mpsc-r":  ("+stable", "release", "", "", [], None),
    "mpsc-pr": ("+stable", "release", "portable", "", [], None),
    # unoptimised, for the reproducibility of the portable build
    "mpsc-p0": ("+stable", "dev", "portable", "", [], None),
    "asan":    ("+nightly", "checked", "rayon", "-Zsanitizer=address", [], HOST),
    "asan-m":  ("+nightly", "checked", "", "-Zsanitizer=address", [], HOST),
    "msan":    ("+nightly", "checked", "rayon", "-Zsanitizer=memory", ["-Zbuild-std"], HOST),
    "msan-m":  ("+nightly", "checked", "", "-Zsanitizer=memory", ["-Zbuild-std"], HOST),
    "tsan":    ("+nightly", "checked", "rayon", "-Zsanitizer=thread", ["-Zbuild-std"], HOST),
    "tsan-m":  ("+nightly", "checked", "", "-Zsanitizer=thread", ["-Zbuild-std"], HOST),
}
PEERS = {"MPSC": "mpsc", "RELEASE": "rayon-r", "RAYON": "rayon", "PORT": "rayon-p", "PORTR": "mpsc-pr", "PORT0": "mpsc-p0", "MPSCR": "mpsc-r"}


class NoVerdict(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def target_dir(b):
    return os.path.join(HERE, "target", b)


def binary(b):
    tc, profile, feats, flags, extra, triple = BUILDS[b]
    p = {"dev": "debug"}.get(profile, profile)
    return os.path.join(target_dir(b), *([triple] if triple else []), p, "jv")


def build(b):
    tc, profile, feats, flags, extra, triple = BUILDS[b]
    cmd = ["cargo", tc, "build", "--offline", "--manifest-path", os.path.join(HERE, "harness", "Cargo.toml"),
           "--profile", profile, "--target-dir", target_dir(b)] + extra
    if feats:
        cmd += ["--features", feats]
    if triple:
        cmd += ["--target", triple]
    env = dict(os.environ)
    env["RUSTFLAGS"] = flags + " --cap-lints=allow" if flags else "--cap-lints=allow"
    env.pop("RUSTUP_TOOLCHAIN", None)
    p = subprocess.run(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise NoVerdict("building %s failed:\n%s" % (b, "\n".join(l for l in p.stdout.splitlines() if l.strip())[-2500:]))


def build_all(names):
    errs = []

    def one(b):
        try:
            build(b)
        except NoVerdict as e:
            errs.append(str(e))
    ts = [threading.Thread(target=one, args=(b,)) for b in names]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise NoVerdict("\n".join(errs))
    log("built", ", ".join(names))


# ---------------------------------------------------------------- shards

def cpu_of(pid):
    """CPU seconds of a process and its children; None when it is gone."""
    def one(p):
        with open("/proc/%d/stat" % p) as f:
            s = f.read().rsplit(")", 1)[1].split()
        return (int(s[11]) + int(s[12])) / os.sysconf("SC_CLK_TCK")
    try:
        t = one(pid)
    except OSError:
        return None
    try:
        for task in os.listdir("/proc/%d/task" % pid):
            with open("/proc/%d/task/%s/children" % (pid, task)) as f:
                for c in f.read().split():
                    try:
                        t += one(int(c))
                    except (OSError, ValueError):
                        pass
    except OSError:
        pass
    return t


def shard_env(extra=None):
    env = dict(os.environ)
    for n, b in PEERS.items():
        if os.path.exists(binary(b)):
            env["JV_PEER_" + n] = binary(b)
    env["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:symbolize=1"
    env["MSAN_OPTIONS"] = "exitcode=97:symbolize=1:allocator_may_return_null=1"
    env["TSAN_OPTIONS"] = "exitcode=98:halt_on_error=1:second_deadlock_stack=1"
    env["RUST_BACKTRACE"] = "0"
    if extra:
        env.update(extra)
    return env


class Shard:
    def __init__(self, prop, build_name, cases, shard, of, secs, work, known, peers, extra=None):
        self.prop, self.build, self.shard, self.cases, self.of = prop, build_name, shard, cases, of
        tag = "%s-%s-%d" % (prop, build_name, shard)
        self.out = os.path.join(work, tag + ".json")
        self.cur = os.path.join(work, tag + ".cur")
        self.err = os.path.join(work, tag + ".err")
        self.cmd = [binary(build_name), "run", prop, "--seed", str(SEED), "--cases", str(cases), "--shard", str(shard),
                    "--of", str(of), "--secs", str(secs), "--out", self.out, "--cur", self.cur, "--replays", work,
                    "--tier", TIER]
        if known:
            self.cmd += ["--known", ",".join(known)]
        env = shard_env(extra)
        for n in list(PEERS):
            if n not in peers:
                env.pop("JV_PEER_" + n, None)
        self.env = env
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=open(self.err, "wb"), env=env, cwd=work, start_new_session=True)
        self.last = None      # (case count, cpu at its start, wall at its start)
        self.idle = (0.0, time.time())
        self.status = None    # None while running; "ok", "crash", "stuck", "runaway", "killed"
        self.detail = ""

    def current(self):
        try:
            with open(self.cur, "rb") as f:
                b = f.read(24)
            if len(b) == 24:
                return struct.unpack("<QQQ", b)
        except OSError:
            pass
        return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def poll(self):
        if self.status:
            return True
        rc = self.p.poll()
        now = time.time()
        if rc is not None:
            if rc == 0 and os.path.exists(self.out):
                self.status = "ok"
            else:
                self.status = "crash"
                self.detail = "exit status %d" % rc
            return True
        cpu = cpu_of(self.p.pid)
        cur = self.current()
        if cpu is None or cur is None:
            return False
        if self.last is None or self.last[0] != cur[2]:
            self.last = (cur[2], cpu, now)
        # blocked: the case does not advance and nobody uses the processor
        if cpu > self.idle[0] + 0.2 or self.last[2] == now:
            self.idle = (cpu, now)
        if now - self.idle[1] > STUCK and now - self.last[2] > STUCK:
            self.status, self.detail = "stuck", "no progress and no CPU time used for %d s" % STUCK
            self.kill()
        elif cpu - self.last[1] > RUNAWAY:
            self.status, self.detail = "runaway", "more than %d s of CPU for one case" % RUNAWAY
            self.kill()
        return self.status is not None

    def found(self):
        """Whether a finished shard recorded violations."""
        if not hasattr(self, "_found"):
            with open(self.out) as f:
                self._found = bool(json.load(f)["violations"])
        return self._found

    def stderr(self, n=3000):
        try:
            with open(self.err, "rb") as f:
                return f.read()[-200000:].decode("utf-8", "replace")[:n]
        except OSError:
            return ""


STUCK = 40
RUNAWAY = 80
ONCE = []     # processes that run a single case


def one_case(sh, seed, index, known, dump, limit=200):
    """Run one case again. ('held' | 'violated' | 'crash' | 'stuck' | 'runaway' | 'harness', text)"""
    cmd = [binary(sh.build), "case", sh.prop, str(seed), "--index", str(index), "--tier", TIER, "--dump", dump]
    if known:
        cmd += ["--known", ",".join(known)]
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=sh.env,
                         start_new_session=True)
    ONCE.append(p)
    out = []
    t = threading.Thread(target=lambda: out.append(p.stdout.read()))
    t.start()
    start = time.time()
    idle = (0.0, start)
    while p.poll() is None:
        time.sleep(0.05)
        c = cpu_of(p.pid)
        now = time.time()
        if c is None:
            continue
        if c > idle[0] + 0.1:
            idle = (c, now)
        why = None
        if now - idle[1] > STUCK:
            why = "stuck"
        elif c > RUNAWAY or now - start > limit + 2 * RUNAWAY:
            why = "runaway"
        if why:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            t.join()
            return why, out[0].decode("utf-8", "replace") if out else ""
    t.join()
    text = out[0].decode("utf-8", "replace") if out else ""
    if p.returncode == 0:
        return "held", text
    if p.returncode == 1 and "VIOLATED" in text:
        if "the harness panicked" in text:
            return "harness", text
        return "violated", text
    return "crash", text + "\nexit status %d" % p.returncode


def replay_path(prop, seed):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-%016x.json" % (prop, int(seed)))


def write_replay(prop, sh, seed, index, what, blob):
    path = replay_path(prop, seed)
    jpg = None
    if blob and os.path.exists(blob):
        jpg = path[:-5] + ".jpg"
        shutil.copyfile(blob, jpg)
    with open(path, "w") as f:
        json.dump(dict(property=prop, build=sh.build, case=str(seed), index=index, tier=TIER, verif_seed=SEED,
                       peers=[n for n in PEERS if "JV_PEER_" + n in sh.env], what=what, stream=jpg,
                       replay="python3 check.py --replay " + path), f, indent=1)
    return path


# ---------------------------------------------------------------- plans

# Per property: builds the shards run in (with their share), peers, cases (quick, thorough), what a case is, and what
# makes it count.
class Plan:
    def __init__(self, runs, cases, rule, peers=(), thorough_runs=None, level="exploration", extra=None, extra_thorough=None,
                 assumptions=(), min_share=0.25):
        self.runs, self.cases, self.rule, self.peers = runs, cases, rule, peers
        self.thorough_runs = thorough_runs or runs
        self.level, self.extra, self.extra_thorough = level, extra, extra_thorough
        self.assumptions = list(assumptions)
        self.min_share = min_share


ALL4 = {"rayon": 3, "mpsc": 2, "rayon-p": 2, "mpsc-p": 1}
TWO = {"rayon": 5, "rayon-p": 3}
GEN = "Each case is one 64-bit number that determines a generated stream and what is done with it. "
sys.path.insert(0, HERE)
import plans  # noqa: E402
PLANS = plans.plans(Plan, ALL4, TWO, GEN)


def known_of(prop):
    keys = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("known: property=%s " % prop):
                    keys.append(line.split("key=", 1)[1].split()[0])
    except OSError:
        pass
    return keys


def run(prop):
    if prop not in PLANS:
        raise NoVerdict("no check for " + prop)
    plan = PLANS[prop]
    runs = plan.thorough_runs if THOROUGH else plan.runs
    names = list(runs)
    for p in plan.peers:
        if PEERS[p] not in names:
            names.append(PEERS[p])
    build_all(names)
    work = os.path.join(HERE, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    known = known_of(prop)
    total = plan.cases[1] if THOROUGH else plan.cases[0]
    secs = plans.SECS[1] if THOROUGH else plans.SECS[0]
    weight = sum(runs.values())
    shards = []
    t_run = time.time()
    base = 0
    for b, w in runs.items():
        share = max(1, total * w // weight)
        for i in range(w):
            # each build gets its own stretch of case numbers, split among its shards
            shards.append(Shard(prop, b, share, i, w, secs, work, known, plan.peers,
                                dict(JV_BASE=str(base))))
        base += share
    extras = []
    et = []
    for fn in (plan.extra_thorough if THOROUGH and plan.extra_thorough else plan.extra) or []:
        def go(fn=fn):
            try:
                extras.append(fn(sys.modules[__name__], prop, work))
            except NoVerdict as e:
                extras.append(dict(error=str(e)))
        t = threading.Thread(target=go)
        t.start()
        et.append(t)
    cap = secs + 150
    again = {}     # shard -> thread and result of running its fatal case again
    stop = False

    def confirm(sh, cur):  # reads stop as it is when the case has ended
        dump = os.path.join(work, "%016x.jpg" % cur[0])
        r = one_case(sh, cur[0], cur[1], known, dump) + (dump,)
        if stop:
            return
        again[sh][1] = r
        log("case %d of %s/%d: %s, again: %s" % (cur[0], sh.build, sh.shard, sh.status, again[sh][1][0]))

    while True:
        busy = False
        for s in shards:
            if not s.poll():
                busy = True
            elif s.status in ("crash", "stuck", "runaway") and s not in again and not stop:
                cur = s.current()
                if cur is None or (s.status == "crash" and s.p.returncode in (-signal.SIGKILL, 70)):
                    continue
                if sum(1 for t, r in again.values() if r is None) < 4:
                    t = threading.Thread(target=confirm, args=(s, cur))
                    again[s] = [t, None]
                    t.start()
                busy = True
            elif s.status == "ok" and not stop and s.found():
                stop = True
        for sh, (t, r) in list(again.items()):
            if r is None:
                busy = True
            elif r[0] in ("crash", "stuck", "runaway", "violated"):
                stop = True
        if stop:
            # a violation is established: what the others would add is not needed
            for s in shards:
                if not s.status:
                    s.status = "stopped"
                    s.kill()
            for p in list(ONCE):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
            for t, r in again.values():
                t.join()
            break
        if not busy:
            break
        time.sleep(0.05)
        if time.time() - t_run > cap:
            for s in shards:
                if not s.status:
                    s.status, s.detail = "killed", "still running after %d s" % cap
                    s.kill()
    for t in et:
        t.join()
    log("shards done:", ", ".join("%s/%d %s" % (s.build, s.shard, s.status) for s in shards))

    violations = []   # (seed, message, path)
    trouble = []
    counters, maxes, samples, khits = {}, {}, [], {}
    evals = cases = 0
    per_build = {}
    distinct = set()
    for s in shards:
        if s.status == "ok":
            with open(s.out) as f:
                d = json.load(f)
            evals += d["evals"]
            cases += d["cases"]
            per_build[s.build] = per_build.get(s.build, 0) + d["evals"]
            for k, v in d["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for k, v in d["maxes"].items():
                maxes[k] = max(maxes.get(k, v), v)
            samples += ["[%s] %s" % (s.build, x) for x in d["samples"][:2]]
            for k, (n, m) in d["known"].items():
                o = khits.get(k, (0, m))
                khits[k] = (o[0] + n, o[1])
            with open(s.out + ".distinct", "rb") as f:
                b = f.read()
            distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            for v in d["violations"]:
                what = "[%s] %s" % (s.build, v["msg"])
                violations.append((v["case"], what, write_replay(prop, s, v["case"], v["index"], what, v["file"])))
            continue
        if s.status == "stopped":
            continue
        cur = s.current()
        text = s.stderr()
        if s.status == "killed" or cur is None:
            trouble.append("%s/%d: %s %s" % (s.build, s.shard, s.detail, text[-1500:]))
            continue
        rc = s.p.returncode
        if s.status == "crash" and rc == -signal.SIGKILL:
            trouble.append("%s/%d was killed (memory?)" % (s.build, s.shard))
            continue
        if s.status == "crash" and rc == 70:
            trouble.append("%s/%d: %s" % (s.build, s.shard, text[-2000:]))
            continue
        # the process died or hangs in a case: what happened when the case was run again
        if again.get(s, (0, None))[1] is None:
            if not stop:
                trouble.append("%s/%d: %s in case %d, not run again" % (s.build, s.shard, s.status, cur[0]))
            continue
        kind, retext, dump = again[s][1]
        sanitizer = rc in (97, 98, 99)
        if kind in ("crash", "stuck", "runaway", "violated") or sanitizer:
            what = "[%s] %s: %s %s" % (s.build, s.status, s.detail, plans.digest(text if sanitizer else text + retext))
            violations.append((cur[0], what, write_replay(prop, s, cur[0], cur[1], what, dump)))
        elif s.status == "stuck" and prop in ("C10", "C17", "C23"):
            # whether a schedule blocks need not repeat; the observation stands: no thread ran for STUCK seconds
            what = "[%s] %s: %s" % (s.build, s.status, s.detail)
            violations.append((cur[0], what, write_replay(prop, s, cur[0], cur[1], what, None)))
        else:
            trouble.append("%s/%d: %s (%s) in case %d, which does not repeat: %s" %
                           (s.build, s.shard, s.status, s.detail, cur[0], text[-1500:]))
    extra_cov = {}
    for e in extras:
        if "error" in e:
            trouble.append(e["error"])
            continue
        evals += e.get("evals", 0)
        extra_cov[e["name"]] = e.get("coverage", {})
        samples += e.get("samples", [])
        distinct.update(e.get("distinct", []))
        for what, files in e.get("violations", []):
            path = os.path.join(HERE, "replays", "%s-%s.json" % (prop, e["name"]))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                json.dump(dict(property=prop, part=e["name"], what=what, files=files), f, indent=1)
            violations.append(("0", what, path))
    if not violations and not trouble and cases < plan.min_share * total:
        trouble.append("only %d of %d cases were run in the time allowed" % (cases, total))
    if not violations and not trouble and len(distinct) < 2:
        trouble.append("nothing was observed")

    cov = dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=plan.rule, samples=samples[:12], cases=cases,
               cases_planned=total, evaluations_by_build=per_build, observed=dict(sorted(counters.items())),
               extremes=dict(sorted(maxes.items())))
    cov.update({"part: " + k: v for k, v in extra_cov.items()})
    if khits:
        cov["known_findings"] = {k: v[0] for k, v in khits.items()}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=TIER, seed=SEED, level=plan.level, coverage=cov,
                       assumptions=plan.assumptions, wall_s=round(time.time() - T0, 2),
                       violations=len(violations)), f, indent=1)
    for k, (n, m) in khits.items():
        print("KNOWN-FINDING: property=%s %s: %s (%d times)" % (prop, k, m[:300], n))
    shutil.rmtree(work, ignore_errors=True)
    if violations:
        for seed, what, path in violations[:6]:
            print("  case %s: %s" % (seed, what[:1500]))
        for seed, what, path in violations[:6]:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if trouble:
        raise NoVerdict("\n".join(trouble))
    print("%s held: %d evaluations in %d cases, %d distinct, %.0f s" % (prop, evals, cases, len(distinct), time.time() - T0))
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    if "case" not in r:
        print(r["what"])
        raise NoVerdict("this part is replayed with the files it names")
    build_all(sorted({r["build"]} | {PEERS[p] for p in r["peers"]}))
    global TIER
    TIER = r["tier"]

    class S:
        pass
    s = S()
    s.build, s.prop = r["build"], r["property"]
    s.env = shard_env()
    for n in PEERS:
        if n not in r["peers"]:
            s.env.pop("JV_PEER_" + n, None)
    kind, text = one_case(s, r["case"], r["index"], known_of(s.prop), "/dev/null")
    print(text)
    print(kind)
    if kind == "harness":
        raise NoVerdict("harness fault")
    return 0 if kind == "held" else 1


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--prebuild"]:
            names = sorted({b for p in PLANS.values() for b in list(p.runs) + [PEERS[x] for x in p.peers]})
            build_all(names)
            miri = sorted({x for p in PLANS.values() for e in p.extra or [] for x in getattr(e, "peers", [])})
            bad = plans.miri_prebuild(miri)
            if bad:
                raise NoVerdict("building for the interpreter failed: %s" % bad)
            return 0
        if a[:1] == ["--replay"]:
            return replay(a[1])
        return run(a[0])
    except NoVerdict as e:
        print("NO VERDICT:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
