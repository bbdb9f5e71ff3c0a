"""Checks which need more than one run of one binary."""
import os
import re
import shutil
import subprocess
import sys

import check
from check import CheckError, Outcome, explore, log

STD = [
    "the code is run as compiled by the installed rustc",
    "exhaustive within the stated bounds (DESIGN.md); nothing is claimed beyond them",
]


def c22(prop, tier):
    """Every macro invocation within the bounds is compiled and run."""
    import gen22

    o = Outcome(prop, tier)
    wd = os.path.join(check.OUT, "work-" + prop)
    os.makedirs(wd, exist_ok=True)
    root = os.path.join(check.TARGET, "gen22-" + tier)
    parts = 16 if tier == "quick" else 48
    os.makedirs(os.path.join(root, "src"), exist_ok=True)
    for f, to in (("Cargo.toml", "Cargo.toml"), ("Cargo.lock", "Cargo.lock"), ("support.rs", "src/support.rs")):
        s = open(os.path.join(check.VERIF, "macros", f)).read()
        p = os.path.join(root, to)
        if not os.path.exists(p) or open(p).read() != s:
            open(p, "w").write(s)
    where, total = gen22.generate(root, tier, parts)
    e = check.env()
    tdir = os.path.join(check.TARGET, "gen22-%s-build" % tier)
    os.makedirs(tdir, exist_ok=True)
    e["CARGO_TARGET_DIR"] = tdir
    e["RUSTFLAGS"] = "-Awarnings"
    base = ["--offline", "--manifest-path", os.path.join(root, "Cargo.toml")]
    mark = os.path.join(tdir, ".repo-hash")
    h = check.tree_hash()
    old = open(mark).read() if os.path.exists(mark) else None
    if old != h:
        for pkg in ("frozen-collections-core", "frozen-collections-macros", "frozen-collections"):
            subprocess.run(["cargo", "clean", "-p", pkg] + base, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    # without any invocation it has to build, or else this is not about the macro
    p = subprocess.run(["cargo", "build", "--locked", "-p", "frozen-collections", "-p", "mc"] + base, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("build failed:\n" + p.stdout[-4000:])
    cmd = ["cargo", "build", "--locked", "--keep-going", "--message-format=short"] + base
    for b in range(parts):
        cmd += ["--bin", "g%02d" % b]
    p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        bad = {}
        for m in re.finditer(r"src/bin/(g\d\d\.rs):(\d+):\d+: error(.*)", p.stdout):
            at = (m.group(1), int(m.group(2)))
            if at in where:
                bad.setdefault(at, m.group(3))
        if not bad or len(bad) > 0.9 * len(where):
            raise CheckError("build failed:\n" + p.stdout[-4000:])
        at = min(bad, key=lambda a: (len(where[a]), a))
        text = "property %s violated\ncase: this invocation of the macro does not compile (one of %d)\ninput: %s\nobserved: error%s" % (
            prop, len(bad), where[at], bad[at][:1500])
        o.states = o.transitions = o.traces = total
        o.violation = (check.write_replay(prop, ["env", "CARGO_TARGET_DIR=" + tdir, "RUSTFLAGS=-Awarnings"] + cmd[:-2 * parts] + ["--bin", at[0][:-3]], text), text)
        return o
    with open(mark, "w") as f:
        f.write(h)
    configs = [("g%02d" % b, [os.path.join(tdir, "debug", "g%02d" % b)], None) for b in range(parts)]
    explore(o, wd, configs, nshards=1, all_first=True)
    if not o.violation and o.states < total:
        if not o.capped:
            raise CheckError("ran %d of %d invocations" % (o.states, total))
    o.scenarios = gen22.summary(o.scenarios)
    o.assumptions = STD + ["frozen_map! is deterministic but for the random hasher with which it analyses string keys: each build explores one outcome of it"]
    o.extra["macro_invocations_compiled_and_run"] = total
    return o


def c26(prop, tier):
    """Interleavings at instruction granularity; two threads per worker."""
    o = Outcome(prop, tier)
    wd = os.path.join(check.OUT, "work-" + prop)
    os.makedirs(wd, exist_ok=True)
    profiles = ("plain",) if tier == "quick" else ("plain", "checked")
    dirs = check.build_all(profiles, ["c26"])
    configs = [(p, [os.path.join(dirs[p], "c26")], None) for p in profiles]
    # a worker keeps two processors busy
    explore(o, wd, configs, nshards=12 if tier == "quick" else 24, parallel=4)
    o.assumptions = STD + [
        "switches happen between machine instructions; the order in which processors make writes visible (which matters only where a read writes) is not varied",
        "a read that writes nothing to the collection cannot influence any other: more than two threads are covered by the absence of writes, which is monitored",
    ]
    return o


NIGHTLY_FLAGS = "-Aunstable_imports -Awarnings"
MIRI_FLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows"


def asan_build(bins):
    """Builds binaries with AddressSanitizer; returns the directory they are in."""
    t = "x86_64-unknown-linux-gnu"
    d = check.build("checked", bins, {"RUSTFLAGS": NIGHTLY_FLAGS + " -Zsanitizer=address --cfg asan"},
                    target=os.path.join(check.TARGET, "asan"), toolchain="nightly", cargo_args=["--target", t])
    return os.path.join(d, t, "checked")


def miri_env():
    return {
        "RUSTUP_TOOLCHAIN": "nightly",
        "MIRI_SYSROOT": os.path.join(check.TARGET, "miri-sysroot"),
        "CARGO_TARGET_DIR": os.path.join(check.TARGET, "miri"),
        "RUSTFLAGS": NIGHTLY_FLAGS,
        "MIRIFLAGS": MIRI_FLAGS,
    }


def miri_sysroot():
    e = check.env()
    e.update(miri_env())
    v = subprocess.run(["rustc", "-vV"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
    mark = os.path.join(check.TARGET, "miri-sysroot.built")
    if os.path.exists(mark) and open(mark).read() == v and os.path.isdir(e["MIRI_SYSROOT"]):
        return
    p = subprocess.run(["cargo", "miri", "setup"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("no sysroot for Miri:\n" + p.stdout[-3000:])
    with open(mark, "w") as f:
        f.write(v)


def miri_build(bin):
    """Builds a binary to be interpreted; returns the command which runs it."""
    miri_sysroot()
    e = check.env()
    e.update(miri_env())
    manifest = os.path.join(check.HARNESS, "Cargo.toml")
    tdir = e["CARGO_TARGET_DIR"]
    os.makedirs(tdir, exist_ok=True)
    mark = os.path.join(tdir, ".repo-hash")
    h = check.tree_hash()
    old = open(mark).read() if os.path.exists(mark) else None
    if old is not None and old != h:
        shutil.rmtree(os.path.join(tdir, "miri"), ignore_errors=True)
    cmd = ["cargo", "miri", "run", "-q", "--offline", "--locked", "--manifest-path", manifest, "--bin", bin, "--"]
    # a run which does not run any case
    p = subprocess.run(cmd + ["--only", "nothing:0", "--out", os.path.join(check.OUT, "work-miri.json")], env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("build for Miri failed:\n" + p.stdout[-4000:])
    with open(mark, "w") as f:
        f.write(h)
    return cmd


class MiriWorker(check.Worker):
    """There is no shared page in Miri: what a worker is about to do is on its standard error output."""

    def run(self, hang):
        super().run(hang)
        with open(self.errp, "rb") as f:
            text = f.read().decode(errors="replace")
        last = None
        for last in re.finditer(r"^@(.*?):(\d+) ", text, re.M):
            pass
        if last:
            self.at = (last.group(1), int(last.group(2)), 0)
        m = re.search(r"^error: Undefined Behavior: .*", text, re.M)
        self.ub = m and "\n".join(l for l in text[m.start():].split("\n")[:40] if not l.startswith("@"))
        return self

    def verdict(self):
        if self.result() is None and self.ub:
            return ("crash", self.at[0], self.at[1], "", self.ub)
        if self.result() is None and not self.hung:
            raise CheckError("worker %s: exit %s without a result\n%s" % (self.label, self.rc, self.stderr_tail(3000)))
        return None


def c28(prop, tier):
    """Sequences of safe calls, in builds which notice undefined behaviour."""
    o = Outcome(prop, tier)
    wd = os.path.join(check.OUT, "work-" + prop)
    os.makedirs(wd, exist_ok=True)
    dirs = check.build_all(("checked", "plain"), ["c28"])
    asan = asan_build(["c28"])
    configs = [(p, [os.path.join(dirs[p], "c28")], None) for p in ("checked", "plain")]
    if not explore(o, wd, configs):
        return o
    aenv = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1"}
    if not explore(o, wd, [("asan", [os.path.join(asan, "c28")], aenv)], mem=None, nshards=37):
        return o
    cmd = miri_build("c28")
    n0 = o.states
    if not explore(o, wd, [("miri", cmd, miri_env())], mem=None, hang=600 if tier == "quick" else 3600, worker=MiriWorker, all_first=True):
        return o
    o.extra["states_under_miri"] = o.states - n0
    o.assumptions = STD + [
        "undefined behaviour is what Miri (with tree borrows), AddressSanitizer, the checking allocator or the standard library's own assertions report",
        "Miri interprets shorter words than the other builds execute",
        "of the interleavings of threads Miri sees one; data races are found from the order of events, not from the outcome (C26 explores interleavings)",
    ]
    return o
