"""Shared machinery of the checks: builds of the code under test, TLC runs, evidence."""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla"
JAR = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 8)
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"


class ToolError(Exception):
    """The check itself could not run: neither a pass nor a violation."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env(**kw):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:quarantine_size_mb=64:allocator_may_return_null=0"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    for k, v in kw.items():
        e[k] = str(v)
    return e


def run(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                          errors="replace", **kw)


# ---------------------------------------------------------------- builds
def tree_hash(paths):
    """Content hash of source trees (names and bytes, not times)."""
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode())
            h.update(open(root, "rb").read())
            continue
        for d, dirs, files in sorted(os.walk(root)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "fuzz", "tests"))
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    h.update(b"?")
                h.update(b"\0")
    return h.hexdigest()[:16]


def lib_hash():
    return tree_hash([f"{REPO}/blake2b", f"{REPO}/blake2s", f"{HARNESS}/src", f"{HARNESS}/Cargo.toml",
                      f"{HARNESS}/Cargo.lock"])


ASAN = "-Zsanitizer=address --cfg b2_asan -C force-frame-pointers=yes"
# name: (profile, features, extra rustflags, hooks)
CONFIGS = {
    "rel": ("release", "std", "", True),
    "dbg": ("dbg", "std", "", True),
    "thr": ("release", "std,threads", "", False),
    "nostd": ("release", "", "", True),
    "nostd-dbg": ("dbg", "", "", False),
    "sse41": ("release", "", "-C target-feature=+sse4.1", True),
    "avx2": ("release", "", "-C target-feature=+avx2", False),
    "avx2-dbg": ("dbg", "", "-C target-feature=+avx2", False),
    "native": ("release", "std", "-C target-cpu=native", False),
    "unin": ("release", "std,uninline", "", False),
    "o0": ("o0", "std", "", False),
    "size": ("size", "", "", False),
    # every input and object in an allocation of exactly its size, under AddressSanitizer (nightly)
    "asan": ("release", "std", ASAN, False),
    "asan-sse41": ("release", "", ASAN + " -C target-feature=+sse4.1", False),
    "asan-nostd": ("release", "", ASAN, False),
}
_locks = {}
_lock = threading.Lock()


class BuildFailed(Exception):
    pass


def build(name, hash_=None):
    """Build the harness with the code under test in one configuration; path of the binary."""
    with _lock:
        lk = _locks.setdefault(name, threading.Lock())
    with lk:
        profile, feats, flags, hooks = CONFIGS[name]
        h = hash_ or lib_hash()
        base = os.path.join(TARGET, "h", name)
        tdir = os.path.join(base, h)
        sub = "release" if profile == "release" else profile
        asan = ASAN in flags
        if asan:
            sub = "x86_64-unknown-linux-gnu/" + sub
        stamp = os.path.join(tdir, "done")
        if os.path.exists(stamp):
            hooked = open(stamp).read().strip()
            return os.path.join(tdir, sub, "b2h"), hooked == "1"
        for old in (os.listdir(base) if os.path.isdir(base) else []):
            if old != h:
                shutil.rmtree(os.path.join(base, old), ignore_errors=True)
        os.makedirs(tdir, exist_ok=True)
        err = ""
        for hk in ([True, False] if hooks else [False]):
            rf = (flags + (" --cfg blake2_verif" if hk else "")).strip()
            cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", tdir, "--profile", profile,
                   "--manifest-path", f"{HARNESS}/Cargo.toml"]
            if feats:
                cmd += ["--features", feats]
            if asan:
                cmd += ["--target", "x86_64-unknown-linux-gnu"]
            r = run(cmd, 600, cwd=HARNESS,
                    env=env(RUSTFLAGS=rf, RUSTUP_TOOLCHAIN=NIGHTLY if asan else STABLE, CARGO_INCREMENTAL="0"))
            if r.returncode == 0:
                open(stamp, "w").write("1" if hk else "0")
                return os.path.join(tdir, sub, "b2h"), hk
            err = r.stderr
            if hk:
                log(f"note: configuration {name} does not build with the hooks, building without")
        raise BuildFailed(f"{name}: {err[-4000:]}")


def build_all(names):
    h = lib_hash()
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        fs = {n: ex.submit(build, n, h) for n in names}
        out = {}
        for n, f in fs.items():
            out[n] = f.result()
        return out


def overrides():
    """Compile the Java implementation of the word arithmetic; None if that fails."""
    srcs = [os.path.join(SPEC, "overrides", f) for f in ("Words.java", "Blake2.java")]
    h = tree_hash(srcs)
    d = os.path.join(TARGET, "ov", h)
    with _lock:
        if os.path.exists(os.path.join(d, "done")):
            return d
        os.makedirs(d, exist_ok=True)
        try:
            r = run(["javac", "-cp", JAR, "-d", d, *srcs], 120)
            if r.returncode != 0:
                log("note: the word-arithmetic override does not compile:", r.stderr[-500:])
                return None
        except (OSError, subprocess.TimeoutExpired) as e:
            log("note: javac failed:", e)
            return None
        open(os.path.join(d, "done"), "w").close()
        return d


# ---------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, ok, kind, out, states, distinct, secs, name):
        self.ok, self.kind, self.out, self.states, self.distinct, self.secs, self.name = \
            ok, kind, out, states, distinct, secs, name


_mdn = [0]


def tlc(module, cfg=None, envs=None, pure=True, workers=1, mem="2g", timeout=600, args=(), work=None, name=None):
    """Run TLC on spec/<module>.tla.  kind: ok, violation (spec verdict), error (tool)."""
    work = work or os.path.join(VERIF, "work")
    with _lock:
        _mdn[0] += 1
        md = os.path.join(work, f"md{os.getpid()}.{_mdn[0]}")
    os.makedirs(md, exist_ok=True)
    cp = JAR
    if not pure:
        o = overrides()
        if o:
            cp = o + ":" + cp
    cmd = ["java", "-Xss256m", f"-Xmx{mem}"]
    cmd += ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
    cmd += ["-cp", cp, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg or module + ".cfg",
            "-metadir", md, *args, module + ".tla"]
    t0 = time.time()
    try:
        r = run(cmd, timeout, cwd=SPEC, env=env(**(envs or {})))
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired:
        out, rc = "TIMEOUT", -1
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    st, di = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    if rc == 0 and ("No error has been found" in out or "-simulate" in args):
        kind = "ok"
    elif rc == 0 and "Finished in" in out:
        kind = "ok"
    elif re.search(r'(<<\s*|^)"(REJECT|NOTENABLED)[" ]', out, re.M) or rc in (12, 13) or "is violated" in out:
        kind = "violation"
    else:
        kind = "error"
    return Tlc(kind == "ok", kind, out, st, di, time.time() - t0, name or module)


# ---------------------------------------------------------------- one check run
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1")) % (1 << 31)
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.replays = os.path.join(VERIF, "work", "replay", pid)
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.replays, exist_ok=True)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.cov = {}
        self.assume = []
        self.violations = []     # (what, replay)
        self.notes = []
        self.known = load_known(pid)
        self.known_seen = []
        self.pool = concurrent.futures.ThreadPoolExecutor(NCPU)
        self.side = concurrent.futures.ThreadPoolExecutor(2)
        self.level = "model_checking"

    @property
    def thorough(self):
        return self.tier == "thorough"

    def elapsed(self):
        return time.time() - self.t0

    def violation(self, what, replay, key=None):
        for k in self.known:
            if key is not None and k == key:
                if key not in self.known_seen:
                    self.known_seen.append(key)
                    print(f"KNOWN-FINDING: property={self.pid} {key}", flush=True)
                return
        self.violations.append((what, replay))
        log("violation:", what)

    def note(self, s):
        self.notes.append(s)
        log("note:", s)

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:6])
        cov.update(self.cov)
        if self.notes:
            cov["notes"] = self.notes[:20]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assume, wall_s=round(self.elapsed(), 1), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", f"{self.pid}.json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        for what, rep in self.violations[:5]:
            print(f"# {what[:1500]}")
            print(f"VIOLATION property={self.pid} replay={rep}", flush=True)
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out
