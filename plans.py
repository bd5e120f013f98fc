"""What each check runs: builds, shares, case counts and what counts as an observation."""
import json
import os
import shutil
import struct
import subprocess
import threading
import re

# seconds the shards may take (quick, thorough)
SECS = (400, 3000)


def digest(text):
    """The lines of a sanitizer or crash report that identify it."""
    keep = [l.strip() for l in text.splitlines()
            if re.search(r"ERROR: |WARNING: ThreadSanitizer|WARNING: MemorySanitizer|SUMMARY|#[0-4] |panicked|unsafe precondition|exit status|VIOLATED|READ of|WRITE of", l)]
    return " | ".join(keep[:12])[:1500] or text[-600:]


# Builds that run under Miri, as peers of a native process: (target, features, RUSTFLAGS)
MIRI = {
    "MIRI": ("x86_64-unknown-linux-gnu", "", "-Ctarget-feature=+ssse3"),
    "MIRI_RAYON": ("x86_64-unknown-linux-gnu", "rayon", "-Ctarget-feature=+ssse3"),
    "S390X": ("s390x-unknown-linux-gnu", "portable", ""),
    "I686": ("i686-unknown-linux-gnu", "portable", ""),
}
HERE = os.path.dirname(os.path.abspath(__file__))


def miri_command(name):
    """The start of a command line and an environment that run the harness under Miri."""
    target, feats, flags = MIRI[name]
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    # tree borrows: the dependencies of rayon do not keep to the stricter experimental rules
    env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows"
    env["RUSTFLAGS"] = ("--cap-lints=warn " + flags).strip()
    env["XDG_CACHE_HOME"] = os.path.join(HERE, "target", "miri-cache")
    cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path", os.path.join(HERE, "harness", "Cargo.toml"),
           "--target", target, "--target-dir", os.path.join(HERE, "target", "miri-" + name.lower())]
    if feats:
        cmd += ["--features", feats]
    return cmd + ["--"], env


def miri_prebuild(names):
    """Build standard library and harness for the interpreter. Returns {name: error}."""
    bad = {}
    lock = threading.Lock()
    targets = {}
    for n in names:
        targets.setdefault(MIRI[n][0], []).append(n)

    def go(ns):
        for n in ns:
            cmd, env = miri_command(n)
            p = subprocess.run(cmd + ["serve"], env=env, cwd=HERE, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, text=True)
            if p.returncode != 0:
                with lock:
                    bad[n] = p.stderr[-1500:]
    # one at a time per target: they share its standard library
    ts = [threading.Thread(target=go, args=(ns,)) for ns in targets.values()]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return bad


def interpreted(ident, build, peers, procs, cases, secs):
    """Part of a check: a native build generates pictures, builds under Miri decode them too."""
    def part(check, prop, work):
        check.build_all([build])
        bad = miri_prebuild(peers)
        if bad:
            raise check.NoVerdict("building for the interpreter failed: %s" % bad)
        check.log("interpreted builds ready:", ", ".join(peers))
        th = check.THOROUGH
        runs = []
        for i in range(procs):
            env = check.shard_env()
            for n in list(env):
                if n.startswith("JV_PEER_"):
                    del env[n]
            for n in peers:
                cmd, menv = miri_command(n)
                sh = os.path.join(work, "%s-%d.sh" % (n, i))
                err = os.path.join(work, "%s-%d.err" % (n, i))
                with open(sh, "w") as f:
                    f.write("#!/bin/bash\nset -e\n")
                    for k in ("MIRIFLAGS", "RUSTFLAGS", "XDG_CACHE_HOME"):
                        f.write("export %s='%s'\n" % (k, menv[k]))
                    f.write("cd '%s'\nexec %s \"$@\" 2>'%s'\n" % (HERE, " ".join("'%s'" % c for c in cmd), err))
                os.chmod(sh, 0o755)
                env["JV_PEER_" + n] = sh
                env["JV_ERR_" + n] = err
            out = os.path.join(work, "%s-%d.json" % (ident, i))
            cmd = [check.binary(build), "run", ident, "--seed", str(check.SEED), "--cases", str(cases[th]), "--shard", str(i),
                   "--of", str(procs), "--secs", str(secs[th]), "--out", out, "--replays", work, "--tier", check.TIER]
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=env, cwd=work)
            runs.append((p, out))
        res = dict(name="interpreted", evals=0, coverage={}, samples=[], distinct=set(), violations=[])
        for p, out in runs:
            try:
                _, err = p.communicate(timeout=secs[th] + 300)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                raise check.NoVerdict("the interpreted part did not end in time")
            if p.returncode != 0:
                raise check.NoVerdict("the interpreted part ended with %d: %s" % (p.returncode, err[-800:]))
            with open(out) as f:
                d = json.load(f)
            res["evals"] += d["evals"]
            for k, v in d["counters"].items():
                res["coverage"][k] = res["coverage"].get(k, 0) + v
            res["samples"] += ["[interpreted] " + s for s in d["samples"][:1]]
            with open(out + ".distinct", "rb") as f:
                b = f.read()
            res["distinct"].update(struct.unpack("<%dQ" % (len(b) // 8), b))
            for v in d["violations"]:
                keep = os.path.join(HERE, "replays", "%s-interpreted-%s.jpg" % (prop, v["case"]))
                os.makedirs(os.path.dirname(keep), exist_ok=True)
                shutil.copyfile(v["file"], keep)
                res["violations"].append(("[interpreted] " + v["msg"], [keep]))
        return res
    part.peers = peers
    return part


def plans(Plan, ALL4, TWO, GEN):
    P = {}
    nt = "A case counts when its oracle compared a decoded result; distinct by hash of the stream (and outcome). "
    P["C01"] = Plan({"rayon": 3, "mpsc": 2, "rayon-p": 1, "mpsc-p": 1, "rayon-r": 1}, (700_000, 6_000_000),
        GEN + "Valid streams, structure-aware and byte mutants of them and of the repository's files, garbage; random sequences "
        "of public calls through chunking, interrupting and failing readers, in checked-arithmetic builds and one release build. "
        "Distinct by hash of stream and outcome of every call.",
        thorough_runs={"rayon": 2, "mpsc": 2, "rayon-p": 1, "mpsc-p": 1, "rayon-r": 1, "mpsc-r": 1})
    P["C02"] = Plan({"asan": 4, "asan-m": 2, "msan": 2, "msan-m": 1}, (130_000, 1_000_000),
        GEN + "Valid pictures of all geometries, sampling factors and scales and hostile streams under AddressSanitizer and "
        "MemorySanitizer with debug assertions of unsafe operations; small ones under Miri. Distinct by hash of streams that decoded.",
        extra=[interpreted("C02X", "rayon", ["MIRI", "MIRI_RAYON"], 4, (48, 4000), (60, 2400))])
    P["C03"] = Plan({"rayon": 4, "mpsc": 2, "rayon-p": 2}, (160_000, 3_000_000), GEN + nt)
    P["C04"] = Plan(TWO, (400_000, 3_000_000), GEN + "Single-component pictures from random and extreme samples through random "
        "quantisation, coding and process. " + nt)
    P["C05"] = Plan(ALL4, (80_000, 2_000_000), GEN + "Two codings of one set of coefficients. " + nt)
    P["C06"] = Plan({"rayon": 4, "mpsc": 4}, (900_000, 3_000_000), GEN + "Random lossless pictures. " + nt)
    P["C07"] = Plan({"rayon": 8, "rayon-p": 6, "mpsc": 2}, (60_000, 1_200_000), GEN + "The first 512 cases of a build are the exhaustive "
        "colour cube (3 and 4 components), the others combinations of identifiers, markers and overrides. " + nt)
    P["C08"] = Plan(ALL4, (80_000, 2_000_000), GEN + "Random sampling factors and sizes, incl. all-factor and extreme ones. " + nt)
    P["C09"] = Plan(ALL4, (160_000, 2_000_000), GEN + nt)
    P["C10"] = Plan({"rayon": 6, "mpsc": 2, "tsan": 1, "tsan-m": 1}, (4_000, 150_000), GEN + "2 to 6 streams, each decoded in other builds, in pools of several "
        "sizes and by several decoders at once while allocator and reader perturb the schedule. Distinct by hash of input, pool "
        "size and observed order of allocator events.", peers=("MPSC", "RAYON", "RELEASE"))
    P["C11"] = Plan({"rayon": 5, "mpsc": 3}, (60_000, 1_500_000), GEN + "One stream in an accelerated and several portable builds. " + nt,
        peers=("PORT", "PORTR", "PORT0"),
        extra=[interpreted("C11X", "rayon-p", ["S390X", "I686"], 4, (48, 4000), (60, 2400))])
    P["C12"] = Plan({"rayon": 4, "mpsc": 4}, (240_000, 2_000_000), GEN + nt)
    P["C13"] = Plan({"rayon": 4, "mpsc": 4}, (50_000, 2_000_000), GEN + nt, level="fault_enumeration")
    P["C14"] = Plan({"rayon": 5, "mpsc": 3}, (400_000, 3_000_000), GEN + nt)
    P["C15"] = Plan({"rayon": 5, "mpsc": 3}, (40_000, 2_000_000), GEN + nt)
    P["C16"] = Plan(ALL4, (400_000, 2_000_000), GEN + nt)
    P["C17"] = Plan({"rayon": 6, "mpsc": 2}, (480_000, 3_000_000), GEN + "Hostile and valid streams, with call histories on this thread and "
        "inside pools. Distinct by hash of stream and outcomes.")
    P["C18"] = Plan({"rayon": 5, "mpsc": 3}, (900_000, 6_000_000), GEN + "One rule of the format broken in a valid carrier. Distinct by hash "
        "of the broken stream.")
    P["C19"] = Plan({"rayon": 5, "mpsc": 3}, (900_000, 4_000_000), GEN + "One unsupported feature in a valid carrier. Distinct by hash of the stream.")
    P["C20"] = Plan({"rayon": 5, "mpsc": 3}, (300_000, 2_000_000), GEN + nt)
    P["C21"] = Plan(ALL4, (360_000, 2_500_000), GEN + "A valid stream and the same with tolerated deviations. " + nt)
    P["C22"] = Plan(ALL4, (300_000, 2_000_000), GEN + "A progressive stream cut behind one of its scans. " + nt)
    P["C23"] = Plan({"mpsc": 6, "rayon": 2}, (16_000, 400_000), GEN + "1 to 6 decodes that end well, with a failing or panicking reader, with "
        "damaged data, or with a refused thread start; then the threads are counted and a known picture is decoded. Distinct by "
        "hash of the last stream.")
    return P
