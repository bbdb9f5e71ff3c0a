#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's working tree.

usage: check.py PROPERTY [quick|thorough]

exit 0: the property held on everything explored
exit 1: violated, with a line  VIOLATION property=<id> replay=<path>
exit 2: the check itself failed (does not build, not reproducible, ...)
"""
import hashlib
import json
import mmap
import os
import resource
import shutil
import signal
import stat
import struct
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")

WORKERS = 8
HANG = {"quick": 60, "thorough": 300}
DEADLINE = {"quick": 360, "thorough": 3000}
MEM = 3 << 30


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class CheckError(Exception):
    pass


def env():
    e = dict(os.environ)
    home = e.get("HOME", "/root")
    e["PATH"] = home + "/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["RUST_BACKTRACE"] = "0"
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "CARGO_INCREMENTAL", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def tree_hash():
    """A hash of everything in /repo which could influence the build."""
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def build(profile, bins, extra_env=None, target=None, toolchain=None, cargo_args=(), manifest=None):
    """Builds binaries of the harness into a target directory of its own; returns that directory."""
    tdir = target or os.path.join(TARGET, profile)
    os.makedirs(tdir, exist_ok=True)
    e = env()
    e["CARGO_TARGET_DIR"] = tdir
    e["RUSTFLAGS"] = "-Awarnings"
    if toolchain:
        e["RUSTUP_TOOLCHAIN"] = toolchain
    e.update(extra_env or {})
    manifest = manifest or os.path.join(HARNESS, "Cargo.toml")
    mark = os.path.join(tdir, ".repo-hash")
    h = tree_hash()
    old = open(mark).read() if os.path.exists(mark) else None
    if old is not None and old != h:
        # do not rely on time stamps alone
        subprocess.run(["cargo", "clean", "--offline", "--manifest-path", manifest, "--profile", profile,
                        "-p", "frozen-collections-core"] + list(cargo_args), env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", manifest, "--profile", profile] + list(cargo_args)
    for b in bins:
        cmd += ["--bin", b]
    p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("build failed (%s):\n%s" % (profile, p.stdout[-6000:]))
    with open(mark, "w") as f:
        f.write(h)
    return tdir


def build_all(profiles, bins):
    """Builds the profiles concurrently; returns {profile: directory of the binaries}."""
    res, errs = {}, []

    def one(p):
        try:
            res[p] = os.path.join(build(p, bins), p)
        except Exception as x:  # noqa: BLE001
            errs.append(x)

    ts = [threading.Thread(target=one, args=(p,)) for p in profiles]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return res


def limits(mem):
    def f():
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setsid()
    return f


class Slot:
    """The shared-memory page in which a worker notes the case it is running."""

    def __init__(self, path):
        with open(path, "wb") as f:
            f.write(b"\0" * 4096)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), 4096)

    def read(self):
        idx, started, n = struct.unpack("QQQ", self.m[:24])
        return self.m[24:24 + min(n, 128)].decode(errors="replace"), idx, started


class Worker:
    def __init__(self, wd, label, cmd, mem=MEM, extra_env=None):
        self.label, self.cmd, self.mem, self.extra_env = label, cmd, mem, extra_env
        safe = label.replace("/", "_")
        self.out = os.path.join(wd, safe + ".json")
        self.slotp = os.path.join(wd, safe + ".slot")
        self.errp = os.path.join(wd, safe + ".err")
        self.hung = False
        self.p = None

    def run(self, hang):
        slot = Slot(self.slotp)
        if os.path.exists(self.out):
            os.unlink(self.out)
        e = env()
        e.update(self.extra_env or {})
        with open(self.errp, "wb") as err:
            self.p = subprocess.Popen(self.cmd + ["--out", self.out, "--slot", self.slotp], env=e, stdin=subprocess.DEVNULL,
                                      stdout=subprocess.DEVNULL, stderr=err, preexec_fn=limits(self.mem))
            last, t0 = None, time.time()
            delay = 0.02
            while True:
                try:
                    self.p.wait(timeout=delay)
                    break
                except subprocess.TimeoutExpired:
                    pass
                delay = min(0.3, delay * 1.5)
                cur = slot.read()
                if cur != last:
                    last, t0 = cur, time.time()
                elif time.time() - t0 > hang:
                    self.hung = True
                    os.killpg(self.p.pid, signal.SIGKILL)
                    self.p.wait()
                    break
        self.at = slot.read()
        self.rc = self.p.returncode
        return self

    def stderr_tail(self, n=1500):
        with open(self.errp, "rb") as f:
            return f.read()[-n:].decode(errors="replace")

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None


def run_workers(ws, hang, parallel=WORKERS):
    it = iter(ws)
    lock = threading.Lock()

    def loop():
        while True:
            with lock:
                w = next(it, None)
            if w is None:
                return
            w.run(hang)

    ts = [threading.Thread(target=loop) for _ in range(parallel)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def classify(w):
    """(kind, scenario, index, description, message) of what a worker found, None if nothing."""
    own = getattr(w, "verdict", None)
    if own:
        c = own()
        if c:
            return c
    r = w.result()
    if w.hung:
        return ("hang", w.at[0], w.at[1], "", "does not terminate")
    if w.rc is not None and w.rc < 0:
        try:
            name = signal.Signals(-w.rc).name
        except ValueError:
            name = str(-w.rc)
        return ("crash", w.at[0], w.at[1], "", "process killed by %s: %s" % (name, w.stderr_tail(600).strip()))
    if r is None:
        raise CheckError("worker %s: exit %s without a result\n%s" % (w.label, w.rc, w.stderr_tail()))
    if r["violations"]:
        v = r["violations"][0]
        return ("compare", v["scenario"], v["index"], v["desc"], v["msg"])
    if w.rc != 0:
        raise CheckError("worker %s: exit %s\n%s" % (w.label, w.rc, w.stderr_tail()))
    return None


def write_replay(prop, cmd, header, extra_env=None):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "replay-%s.sh" % prop)
    with open(path, "w") as f:
        f.write("#!/bin/sh\n")
        for l in header.split("\n"):
            f.write("# " + l[:2000] + "\n")
        f.write("# (build first: python3 %s %s)\n" % (os.path.abspath(__file__), prop))
        for k, v in (extra_env or {}).items():
            f.write("export %s='%s'\n" % (k, v))
        f.write("exec " + " ".join("'%s'" % c.replace("'", "'\\''") for c in cmd) + "\n")
    os.chmod(path, os.stat(path).st_mode | stat.S_IXUSR)
    return path


def load_known(prop):
    """Findings which are known and not repaired: {(scenario, description): text}."""
    known = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding:"):
                d = json.loads(l[len("finding:"):])
                if d["property"] == prop:
                    known[(d["scenario"], d["case"])] = d["what"]
    return known


class Outcome:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.capped, self.notes, self.scenarios = [], [], {}, {}
        self.outcomes = 0
        self.violation = None  # (replay path, text)
        self.assumptions = []
        self.extra = {}

    def add(self, r, first_profile):
        if first_profile:
            self.states += r["states"]
            self.samples += [x for x in r["samples"] if len(self.samples) < 24]
            self.outcomes = max(self.outcomes, r["outcomes"])
            for n, c, t in r["scenarios"]:
                self.scenarios[n] = self.scenarios.get(n, 0) + c
        self.transitions += r["transitions"]
        self.traces += r["cases"]
        for c in r["capped"]:
            if c not in self.capped:
                self.capped.append(c)
        for n, c in r["notes"]:
            self.notes[n] = self.notes.get(n, 0) + c

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples[:24],
            "exhaustive": not self.capped and self.violation is None,
            "cases_per_scenario": self.scenarios,
            "distinct_observed_outcomes_per_worker": self.outcomes,
            "explanation": "states: distinct inputs/histories/schedules (and positions within them) driven through the real code; "
                           "transitions: operations of the real code executed and compared with the reference; "
                           "traces_validated_against_impl: executions of cases on the real code, over all build configurations.",
        }
        if self.capped:
            cov["capped_by_time"] = self.capped
        if self.notes:
            cov["notes"] = self.notes
        cov.update(self.extra)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "model_checking", "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": 1 if self.violation else 0,
        }
        p = os.path.join(EVID, self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(p + ".tmp", p)
        if self.violation:
            log(self.violation[1])
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violation[0]), flush=True)
            return 1
        print("%s: held on %d states, %d transitions, %d executions (%.1f s)%s" % (
            self.prop, self.states, self.transitions, self.traces, time.time() - self.t0,
            "; stopped early: " + ", ".join(self.capped) if self.capped else ""), flush=True)
        return 0


def explore(o, wd, configs, nshards=WORKERS, hang=None, mem=MEM, all_first=False, parallel=WORKERS, worker=Worker):
    """Runs all shards of all configurations [(label, command, env)], and confirms a violation by replay."""
    hang = hang or HANG[o.tier]
    ws = []
    for ci, (label, cmd, xenv) in enumerate(configs):
        for s in range(nshards):
            w = worker(wd, "%s-%d" % (label, s), cmd + ["--tier", o.tier, "--shard", "%d/%d" % (s, nshards), "--deadline", str(DEADLINE[o.tier])],
                       mem, xenv)
            w.ci, w.shard, w.base = ci, s, cmd
            ws.append(w)
    run_workers(ws, hang, parallel)
    found = []
    for w in ws:
        c = classify(w)
        r = w.result()
        if r is not None:
            o.add(r, all_first or w.ci == 0)
        if c:
            found.append((c, w))
    if not found:
        return True
    # the smallest case first; comparisons before crashes before hangs
    order = {"compare": 0, "crash": 1, "hang": 2}
    found.sort(key=lambda x: (order[x[0][0]], x[1].ci, x[0][2]))
    problems = []
    for (kind, scn, idx, desc, msg), w in found[:6]:
        only = w.base + ["--tier", o.tier, "--only", "%s:%d" % (scn, idx)]
        rw = worker(wd, "replay", only, mem, w.extra_env).run(hang)
        try:
            again = classify(rw)
        except CheckError as x:
            problems.append(str(x))
            continue
        how = "this case alone, in a fresh process"
        cmd = only
        if again is None:
            # the failure may depend on what the process did before: repeat all of the worker
            rw = worker(wd, "replay", w.cmd, mem, w.extra_env).run(hang)
            again = classify(rw)
            if again is None or again[1:3] != (scn, idx):
                problems.append("%s %s:%d (%s) did not happen again: %s" % (kind, scn, idx, desc, msg))
                continue
            how = "only after the cases before it: all of worker %d is repeated" % w.shard
            cmd = w.cmd
        else:
            desc = desc or rw.stderr_tail(6000).split("case ", 1)[-1].split("\n")[0]
        text = "property %s violated\nconfiguration: %s\ncase: %s:%d\ninput: %s\nobserved: %s\nreplayed: %s" % (
            o.prop, w.label, scn, idx, desc, again[4] or msg, how)
        path = write_replay(o.prop, cmd, text, w.extra_env)
        o.violation = (path, text)
        return False
    raise CheckError("failures which are not reproducible:\n" + "\n".join(problems))


def standard(prop, tier, profiles=("checked", "plain"), bin=None):
    o = Outcome(prop, tier)
    b = bin or prop.lower()
    dirs = build_all(profiles, [b])
    wd = os.path.join(OUT, "work-" + prop)
    os.makedirs(wd, exist_ok=True)
    configs = [(p, [os.path.join(dirs[p], b)], None) for p in profiles]
    explore(o, wd, configs)
    o.assumptions = [
        "the code is run as compiled by the installed rustc, in a build with and one without debug assertions and overflow checks",
        "exhaustive within the stated bounds (DESIGN.md); nothing is claimed beyond them",
        "the reference (association list in /verif/harness) and std are correct",
    ]
    return o


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        log("unknown tier", tier)
        return 2
    os.makedirs(OUT, exist_ok=True)
    wd = os.path.join(OUT, "work-" + prop)
    try:
        sys.path.insert(0, os.path.join(VERIF, "bin"))
        try:
            import special
        except ImportError:
            special = None
        f = getattr(special, prop.lower(), None) if special else None
        o = f(prop, tier) if f else standard(prop, tier)
        return o.finish()
    except CheckError as x:
        log("ERROR: " + str(x))
        return 2
    finally:
        shutil.rmtree(wd, ignore_errors=True)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import check  # one copy of this module only

    sys.exit(check.main())
