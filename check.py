#!/usr/bin/python3
"""Decides one property of poppy on the current working tree of /repo.

check.py ID                     run the check (VERIF_SEED, VERIF_TIER)
check.py --build                build everything
check.py ID --replay FILE       re-execute a recorded case

Exit status 0: held, 1: violated, 3: the check itself could not work.
"""

import fcntl
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
SHARDS = 8
FLAVOURS = ("release", "checked")
HANG, INTERNAL = 77, 70
# properties that need the command line tool or the Python extension
TOOLS = {"C11", "C17", "C18", "C19", "C20", "C21", "C22", "C26"}
FAULTS = {"C11"}
LIMIT = {"quick": 700, "thorough": 3300}
# multiplies the numbers of cases written in the suites, which are sized for development
SCALE = {
    "C01": 12, "C02": 2.5, "C03": 15, "C04": 6, "C05": 15, "C06": 10, "C07": 10, "C08": 15, "C09": 20,
    "C10": 20, "C11": 15, "C12": 30, "C13": 20, "C14": 15, "C15": 30, "C16": 15, "C17": 12, "C18": 12,
    "C19": 8, "C20": 10, "C21": 6, "C22": 10, "C23": 15, "C24": 20, "C25": 40, "C26": 20, "C27": 8,
    "C28": 15,
}

ENV = dict(os.environ)
ENV.update(
    PATH="/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin",
    HOME="/root",
    RUSTUP_TOOLCHAIN="stable",
    CARGO_NET_OFFLINE="true",
    RUSTC_WRAPPER="",
    CARGO_TERM_COLOR="never",
    PYO3_PYTHON="/usr/bin/python3",
    CARGO_INCREMENTAL="0",
    PROPTEST_CASES="",
)
for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "PROPTEST_CASES"):
    ENV.pop(k, None)


def fail(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(3)


# ---------------------------------------------------------------- building


def sources(roots):
    """hash over the files cargo sees"""
    h = hashlib.sha256()
    for root in roots:
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "__pycache__"))
            for f in sorted(files):
                if not f.endswith((".rs", ".toml", ".lock", ".py", ".md")):
                    continue
                p = os.path.join(d, f)
                try:
                    with open(p, "rb") as o:
                        b = o.read()
                except OSError:
                    continue
                h.update(("%s\0%d\0" % (p, len(b))).encode())
                h.update(b)
    return h.hexdigest()


class Job:
    """one cargo invocation"""

    def __init__(self, name, cwd, packages, args, roots, env=None):
        self.name, self.cwd, self.packages, self.args, self.roots = name, cwd, packages, args, roots
        self.env = dict(ENV, **(env or {}))
        self.stamp = os.path.join(TARGET, "stamp." + name)
        self.log = os.path.join(TARGET, "build.%s.log" % name)
        self.proc = None

    def cargo(self, cmd, extra=()):
        return ["cargo", cmd, "--offline"] + list(extra) + self.args

    def start(self):
        want = sources(self.roots)
        have = None
        if os.path.exists(self.stamp):
            with open(self.stamp) as f:
                have = f.read()
        self.want = want
        out = open(self.log, "wb")
        if have != want:
            # do not trust file times: what the sources became is built again
            if os.path.exists(self.stamp):
                os.remove(self.stamp)
            ps = [x for p in self.packages for x in ("-p", p)]
            subprocess.run(self.cargo("clean", ps), cwd=self.cwd, env=self.env, stdout=out, stderr=out)
        self.proc = subprocess.Popen(self.cargo("build"), cwd=self.cwd, env=self.env, stdout=out, stderr=out)

    def finish(self):
        if self.proc.wait() != 0:
            with open(self.log, errors="replace") as f:
                sys.stderr.write(f.read()[-4000:])
            return False
        with open(self.stamp, "w") as f:
            f.write(self.want)
        return True


def build(tools):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        harness = os.path.join(HERE, "harness")
        roots = [os.path.join(REPO, "poppy"), harness, os.path.join(REPO, "Cargo.toml")]
        jobs = [
            Job(fl, harness, ["poppy-filters", "poppy-verif"], ["--profile", fl, "--target-dir", os.path.join(TARGET, "harness")], roots)
            for fl in FLAVOURS
        ]
        if tools:
            roots = [os.path.join(REPO, "poppy"), os.path.join(REPO, "python"), os.path.join(REPO, "Cargo.toml")]
            for fl in FLAVOURS:
                on = str(fl == "checked").lower()
                env = {
                    "CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": on,
                    "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": on,
                }
                jobs.append(Job("tools-" + fl, REPO, members(), ["--release", "--target-dir", os.path.join(TARGET, "repo-" + fl)], roots, env))
        for j in jobs:
            j.start()
        ok = [j.finish() for j in jobs]
        if not all(ok):
            fail("the build failed")


def members():
    """names of the packages of the workspace"""
    out = []
    for d in ("poppy", "python"):
        with open(os.path.join(REPO, d, "Cargo.toml")) as f:
            for line in f:
                if line.startswith("name"):
                    out.append(line.split('"')[1])
                    break
    return out


# ---------------------------------------------------------------- running


def harness(flavour):
    return os.path.join(TARGET, "harness", flavour, "poppy-verif")


def environment(flavour, scratch):
    e = dict(ENV)
    e["VERIF_SCRATCH"] = scratch
    e["TMPDIR"] = scratch
    e["POPPY_BIN"] = os.path.join(TARGET, "repo-" + flavour, "release", "poppy")
    e["POPPY_SO"] = os.path.join(TARGET, "repo-" + flavour, "release", "libpoppy.so")
    e["RUST_BACKTRACE"] = "0"
    return e


class Shard:
    def __init__(self, prop, seed, tier, i, scratch, deadline):
        self.i, self.deadline = i, deadline
        self.flavour = FLAVOURS[i % len(FLAVOURS)]
        self.dir = os.path.join(scratch, "shard%d" % i)
        os.mkdir(self.dir)
        self.cmd = [harness(self.flavour), "run", prop, "--seed", str(seed), "--tier", tier, "--shard", "%d/%d" % (i, SHARDS), "--scale", str(SCALE[prop])]
        self.start([])

    def start(self, extra):
        self.extra = extra
        self.out = open(os.path.join(self.dir, "out"), "w+b")
        self.err = open(os.path.join(self.dir, "err"), "w+b")
        self.proc = subprocess.Popen(
            self.cmd + extra, cwd=self.dir, env=environment(self.flavour, self.dir),
            stdin=subprocess.DEVNULL, stdout=self.out, stderr=self.err, start_new_session=True)

    def stop(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def result(self):
        """list of suites, or a description of the problem"""
        try:
            code = self.proc.wait(max(1, self.deadline - time.time()))
        except subprocess.TimeoutExpired:
            self.stop()
            return None, "shard %d did not end in time" % self.i
        self.err.seek(0)
        err = self.err.read()[-600:].decode(errors="replace")
        if (code == HANG or (code < 0 and code not in (-signal.SIGKILL, -signal.SIGTERM, -signal.SIGINT))) and not self.extra:
            # a case that kills the process or does not end: one process per case finds it
            print("shard %d (%s) ended with %d, again with a process per case" % (self.i, self.flavour, code), file=sys.stderr)
            self.start(["--fork"])
            return self.result()
        if code != 0:
            return None, "shard %d (%s) ended with %d: %s" % (self.i, self.flavour, code, err)
        self.out.seek(0)
        try:
            return json.loads(self.out.read()), None
        except ValueError as e:
            return None, "shard %d gave no result: %s" % (self.i, e)


def known_ids(prop):
    out = {}
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                w = line.strip().split(None, 3)
                if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + prop and w[2].startswith("id="):
                    out[w[2][3:]] = w[3]
    except OSError:
        pass
    return out


def run(prop):
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in LIMIT:
        fail("unknown tier " + tier)
    began = time.time()
    build(prop in TOOLS)
    info = {p["id"]: p for p in json.loads(subprocess.check_output([harness("release"), "list"]))}
    if prop not in info:
        fail("unknown property " + prop)
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for f in os.listdir(replays):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(replays, f))
    scratch = tempfile.mkdtemp(prefix="poppy-verif-")
    shards = []
    try:
        deadline = time.time() + LIMIT[tier]
        shards = [Shard(prop, seed & (2**64 - 1), tier, i, scratch, deadline) for i in range(SHARDS)]
        results = [(s, s.result()) for s in shards]
    finally:
        for s in shards:
            s.stop()
        shutil.rmtree(scratch, ignore_errors=True)

    problems, failures, known = [], [], {}
    evaluations, hashes, labels, samples, suites = 0, set(), {}, [], {}
    for s, (out, problem) in results:
        if problem:
            problems.append(problem)
            continue
        for suite in out:
            evaluations += suite["evaluations"]
            hashes.update((suite["suite"], h) for h in suite["hashes"])
            for k, v in suite["labels"].items():
                labels[k] = labels.get(k, 0) + v
            mine = suites.setdefault(suite["suite"], [0, []])
            mine[0] += suite["evaluations"]
            mine[1] += suite["samples"]
            for k in suite["known"]:
                known[k] = known.get(k, 0) + 1
            if suite["error"]:
                problems.append(suite["error"])
            if suite["failure"]:
                failures.append(dict(suite["failure"], flavour=s.flavour, seed=seed, shard=s.i))
    for name, (_, ss) in suites.items():
        samples += [{"suite": name, "case": c} for c in sorted(ss, key=lambda c: len(json.dumps(c)))[:2]]

    listed = known_ids(prop)
    for k in sorted(known):
        if k not in listed:
            failures.append({"prop": prop, "suite": "known", "message": "finding %s, which is not a known one" % k, "case": None, "flavour": "release", "seed": seed, "shard": 0})

    failures.sort(key=lambda f: len(json.dumps(f["case"])))
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "fault_enumeration" if prop in FAULTS else "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": info[prop]["rule"],
            "samples": samples,
            "suites": {k: v[0] for k, v in suites.items()},
            "labels": labels,
            "known_findings_seen": sorted(known),
        },
        "assumptions": [
            "8 shards, 4 of them built like a release and 4 with overflow checks and debug assertions",
        ],
        "wall_s": round(time.time() - began, 2),
        "violations": len(failures),
    }
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))

    for k in sorted(known):
        if k in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, listed[k]))
    if failures:
        for n, f in enumerate(failures):
            path = os.path.join(replays, "%s-%d.json" % (prop, n))
            with open(path, "w") as o:
                json.dump(f, o, indent=1)
            if n == 0:
                print("%s, suite %s, %s build: %s" % (prop, f["suite"], f["flavour"], f["message"]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if problems:
        fail("; ".join(problems))
    print("%s held: %d cases, %d distinct and non-trivial, %.1f s" % (prop, evaluations, len(hashes), time.time() - began))


def replay(prop, path):
    with open(path) as f:
        case = json.load(f)
    build(prop in TOOLS)
    scratch = tempfile.mkdtemp(prefix="poppy-verif-")
    try:
        fl = case.get("flavour", "release")
        r = subprocess.run([harness(fl), "replay", os.path.abspath(path)], cwd=scratch, env=environment(fl, scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(1 if r.returncode else 0)


def main():
    a = sys.argv[1:]
    if a == ["--build"]:
        build(True)
    elif len(a) == 1 and not a[0].startswith("-"):
        run(a[0])
    elif len(a) == 3 and a[1] == "--replay":
        replay(a[0], a[2])
    else:
        print(__doc__, file=sys.stderr)
        sys.exit(3)


try:
    main()
except (SystemExit, KeyboardInterrupt):
    raise
except BaseException as e:  # noqa: never a verdict
    fail("%s: %s" % (type(e).__name__, e))
