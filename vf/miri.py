"""The harness under Miri: other targets (endianness, word size) and byte-exact memory checking."""
import os
import re
import shutil

from . import core
from .core import ToolError

BASE = os.path.join(core.TARGET, "miri")
FLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows"
# label: (target, rustflags, features)
LABELS = {
    "s390x": ("s390x-unknown-linux-gnu", "", "std"),
    "i686": ("i686-unknown-linux-gnu", "", "std"),
    "x64-avx2": ("x86_64-unknown-linux-gnu", "-C target-feature=+avx2", ""),
    "x64-sse41": ("x86_64-unknown-linux-gnu", "-C target-feature=+sse4.1", ""),
    "x64": ("x86_64-unknown-linux-gnu", "", ""),
    "x64-thr": ("x86_64-unknown-linux-gnu", "", "std,threads"),
    "x64-avx2-thr": ("x86_64-unknown-linux-gnu", "-C target-feature=+avx2", "std,threads"),
    "i686-avx2": ("i686-unknown-linux-gnu", "-C target-feature=+avx2", ""),
}


def _env(label, target, rf, extra=""):
    # MIRI's sysroot is built once per target
    return core.env(XDG_CACHE_HOME=os.path.join(BASE, "cache-" + target), RUSTFLAGS=rf, MIRIFLAGS=FLAGS + " " + extra,
                    RUSTUP_TOOLCHAIN=core.NIGHTLY)


def sysroot(target):
    with core._lock:
        lk = core._locks.setdefault("miri-" + target, core.threading.Lock())
    with lk:
        done = os.path.join(BASE, "cache-" + target, "done")
        if os.path.exists(done):
            return
        os.makedirs(os.path.dirname(done), exist_ok=True)
        r = core.run(["cargo", "miri", "setup", "--target", target], 600, cwd=core.HARNESS, env=_env("", target, ""))
        if r.returncode != 0:
            raise ToolError("cargo miri setup: " + r.stderr[-800:])
        open(done, "w").close()


def prepare(label):
    """Build once so that the parallel runs only execute; True unless the code does not build."""
    target, rf, feats = LABELS[label]
    sysroot(target)


def races(label, seed, big=0, timeout=600):
    """The concurrent program of stress.rs in one schedule and one order of memory; (returncode, stdout, stderr)."""
    target, rf, feats = LABELS[label]
    sysroot(target)
    cmd = ["cargo", "miri", "run", "--quiet", "--offline", "--target", target, "--target-dir", target_dir(label), "--features", feats,
           "--", "races", "--seed", str(seed), "--big", str(big)]
    extra = f"-Zmiri-seed={seed} -Zmiri-preemption-rate={['0.01', '0.1', '0.4'][seed % 3]} -Zmiri-compare-exchange-weak-failure-rate=0.3"
    try:
        r = core.run(cmd, timeout, cwd=core.HARNESS, env=_env(label, target, rf, extra))
    except core.subprocess.TimeoutExpired:
        raise ToolError(f"miri {label} timed out")
    return r.returncode, r.stdout, r.stderr


def target_dir(label, hooks=False):
    base = os.path.join(BASE, "t", label + ("-h" if hooks else ""))
    h = core.lib_hash()
    with core._lock:
        for old in (os.listdir(base) if os.path.isdir(base) else []):
            if old != h:
                shutil.rmtree(os.path.join(base, old), ignore_errors=True)
    return os.path.join(base, h)


def execute(label, ops, out, seed=1, timeout=700, extra="", dry=True, hooks=False):
    """Run `exec` on a file of operations; (returncode, stdout, stderr)."""
    target, rf, feats = LABELS[label]
    sysroot(target)
    if hooks:
        rf = (rf + " --cfg blake2_verif").strip()
    cmd = ["cargo", "miri", "run", "--quiet", "--offline", "--target", target, "--target-dir", target_dir(label, hooks)]
    if feats:
        cmd += ["--features", feats]
    cmd += ["--", "exec", "--in", ops, "--out", out]
    if dry:
        cmd += ["--dry", "1"]
    try:
        r = core.run(cmd, timeout, cwd=core.HARNESS, env=_env(label, target, rf, f"-Zmiri-seed={seed} " + extra))
    except core.subprocess.TimeoutExpired:
        raise ToolError(f"miri {label} timed out")
    return r.returncode, r.stdout, r.stderr


def error_of(stderr):
    m = re.search(r"error:? ?[^\n]*(Undefined Behavior[^\n]*|abnormal[^\n]*|unsupported[^\n]*)(\n[^\n]*){0,3}", stderr)
    if m:
        return m.group(0)
    m = re.search(r"error[^\n]*(\n[^\n]*){0,5}", stderr)
    return m.group(0) if m else stderr[-600:]


def is_ub(stderr):
    return "Undefined Behavior" in stderr
