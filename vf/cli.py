"""C13, C14: recorded runs of the real blake2 binary, judged by TraceCli.tla.

Environment behaviours come from Cli.tla (every complete behaviour within its bounds is replayed) and
from families of command lines, sizes, file kinds and faults; the LD_PRELOAD shim cli/shim.c plays the
environment.  The binary only ever reads the files it is given and writes to its standard streams."""
import json
import os
import random
import re
import resource
import shutil
import subprocess
import threading

from . import core
from .core import REPO, TARGET, VERIF, ToolError

VS = {"b": (64, 128, 16), "s": (32, 64, 8), "bp": (64, 128, 16), "sp": (32, 64, 8)}
NUMS = ["length", "fanout", "max-depth", "max-leaf-length", "node-offset", "node-depth", "inner-hash-length"]
TREE = ["fanout", "max-depth", "max-leaf-length", "node-offset", "node-depth", "inner-hash-length", "salt", "personal", "last-node"]


# ---------------------------------------------------------------- builds
def build(profile="release"):
    h = core.tree_hash([f"{REPO}/blake2b", f"{REPO}/blake2s", f"{REPO}/blake2_bin"])
    base = os.path.join(TARGET, "cli", profile)
    tdir = os.path.join(base, h)
    with core._lock:
        lk = core._locks.setdefault("cli" + profile, threading.Lock())
    with lk:
        if not os.path.exists(os.path.join(tdir, "done")):
            for old in (os.listdir(base) if os.path.isdir(base) else []):
                shutil.rmtree(os.path.join(base, old), ignore_errors=True)
            os.makedirs(tdir, exist_ok=True)
            cmd = ["cargo", "build", "--offline", "--quiet", "--bin", "blake2", "--target-dir", tdir,
                   "--manifest-path", f"{REPO}/blake2_bin/Cargo.toml"] + (["--release"] if profile == "release" else [])
            r = core.run(cmd, 600, cwd=f"{REPO}/blake2_bin", env=core.env(RUSTUP_TOOLCHAIN=core.STABLE, CARGO_INCREMENTAL="0"))
            if r.returncode != 0:
                raise ToolError("cannot build blake2_bin: " + r.stderr[-3000:])
            open(os.path.join(tdir, "done"), "w").close()
    return os.path.join(tdir, profile, "blake2")


def shim():
    src = os.path.join(VERIF, "cli", "shim.c")
    d = os.path.join(TARGET, "shim", core.tree_hash([src]))
    out = os.path.join(d, "shim.so")
    with core._lock:
        if not os.path.exists(out):
            os.makedirs(d, exist_ok=True)
            r = core.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", out + ".tmp", src, "-ldl"], 60)
            if r.returncode != 0:
                raise ToolError("cannot build the shim: " + r.stderr[-500:])
            os.replace(out + ".tmp", out)
    return out


# ---------------------------------------------------------------- message bytes (Blake2.tla StreamByte)
_content = {}


def stream(seg):
    seed, off, n = seg
    key = tuple(seg)
    if key not in _content:
        if seed >= 100000:
            b = bytearray(stream([seed % 100000, off, n]))
            p = seed // 100000 - 1 - off
            if 0 <= p < n:
                b[p] = (b[p] + 1) % 256
            b = bytes(b)
        elif seed < 2:
            b = bytes([0, 255][seed:seed + 1]) * n
        else:
            b = bytes(((i % 251) * (2 * seed + 1) + (i // 251) * 7 + (i // 64) * 13 + seed * 31) % 256 for i in range(off, off + n))
        if len(_content) > 3000:
            _content.clear()
        _content[key] = b
    return _content[key]


class Input:
    def __init__(self, kind, seg, sched=(), name=None):
        """kind: file absent dir fifo devnull devstdin proc link stdin-file stdin-mid stdin-pipe; sched: shim tokens."""
        self.kind, self.seg, self.sched, self.name = kind, list(seg), list(sched), name


class Run:
    def __init__(self, items, inputs, family, wsched=(), sink="pipe", style=0):
        self.items, self.inputs, self.family, self.wsched, self.sink, self.style = items, inputs, family, list(wsched), sink, style

    def cost(self):
        v = variant(self.items)
        blk = VS[v][1]
        return sum(i.seg[2] // blk + (2 if len(v) == 1 else 2 * 8 + 2) for i in self.inputs)


def variant(items):
    n = [i[0] for i in items]
    return ("s" if "s" in n else "b") + ("p" if "p" in n else "")


def argv(run, paths, rnd):
    out = []
    short = [i for i in run.items if i[0] in ("b", "s", "p")]
    rest = [i for i in run.items if i[0] not in ("b", "s", "p")]
    rnd.shuffle(short)
    parts = []
    if len(short) > 1 and rnd.random() < 0.5:
        parts.append([b"-" + "".join(i[0] for i in short).encode()])
    else:
        parts += [[b"-" + i[0].encode()] for i in short]
    for n, raw in rest:
        if n in ("mmap", "last-node"):
            parts.append([b"--" + n.encode()])
        elif n == "raw":
            parts.append([raw])
        elif raw[:1] in (b"-", b"") or rnd.random() < 0.6:
            parts.append([b"--" + n.encode() + b"=" + raw])
        else:
            parts.append([b"--" + n.encode(), raw])
    rnd.shuffle(parts)
    after = [p for p in parts if rnd.random() < 0.2] if not any(p[:1] == b"-" for p in paths) else []
    for p in parts:
        if p not in after:
            out += p
    if any(p[:1] == b"-" for p in paths) or (paths and not after and rnd.random() < 0.1):
        out.append(b"--")
    out += paths
    for p in after:
        out += p
    return out


class Lab:
    """A scratch directory with the inputs, and the runs made in it."""

    def __init__(self, chk, binary):
        self.chk, self.bin = chk, binary
        self.dir = os.path.join(chk.work, "lab")
        os.makedirs(self.dir, exist_ok=True)
        self.shim = shim()
        self.lock = threading.Lock()
        self.made = {}

    def file(self, seg):
        with self.lock:
            key = tuple(seg)
            if key not in self.made:
                p = os.path.join(self.dir, "c%d" % len(self.made))
                with open(p, "wb") as f:
                    f.write(stream(seg))
                self.made[key] = p
            return self.made[key]

    def execute(self, k, run, seed):
        rnd = random.Random(seed * 1000003 + k)
        d = os.path.join(self.dir, "r%d" % k)
        os.mkdir(d)
        try:
            return self._execute(k, run, rnd, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def _execute(self, k, run, rnd, d):
        paths, spec, feeders = [], [], []
        stdin = subprocess.DEVNULL
        stdin_data = None
        opened = []
        has_stdin = len(run.inputs) == 1 and run.inputs[0].kind.startswith("stdin")
        recs = []
        for j, x in enumerate(run.inputs):
            name = x.name if x.name is not None else b"f%d" % j
            p = os.path.join(os.fsencode(d), name)
            shown = [name]
            cls = "file"
            raw = b""
            if has_stdin:
                if x.kind == "stdin-file":
                    stdin = open(self.file(x.seg), "rb")
                    opened.append(stdin)
                elif x.kind == "stdin-mid":      # a file whose beginning was read by somebody else
                    stdin = open(self.file([x.seg[0], 0, x.seg[1] + x.seg[2]]), "rb")
                    os.lseek(stdin.fileno(), x.seg[1], os.SEEK_SET)
                    opened.append(stdin)
                elif x.kind == "stdin-pipe":
                    stdin, stdin_data = subprocess.PIPE, stream(x.seg)
                else:
                    stdin = subprocess.DEVNULL
                spec.append(b"- " + b" ".join(x.sched))
            else:
                if x.kind == "dup":        # the same path as the input before it
                    name, p = paths[-1], os.path.join(os.fsencode(d), paths[-1])
                    shown = [name]
                elif x.kind == "file":
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    os.link(self.file(x.seg), p) if not x.sched else shutil.copyfile(self.file(x.seg), p)
                    if x.seg[2] == 0:
                        cls = "nommap"
                elif x.kind == "link":
                    os.symlink(os.fsencode(self.file(x.seg)), p)
                    if x.seg[2] == 0:
                        cls = "nommap"
                elif x.kind == "dir":
                    os.mkdir(p)
                    cls = "absent"
                elif x.kind == "fifo":
                    os.mkfifo(p)
                    feeders.append((p, stream(x.seg)))
                    cls = "nommap"
                elif x.kind == "devnull":
                    name = b"/dev/null"
                    shown = [name]
                    p = name
                    cls = "nommap"
                elif x.kind == "proc":           # a file whose size is said to be 0
                    name = p = b"/proc/version"
                    shown = [name]
                    cls = "nommap"
                    with open(p, "rb") as f:
                        raw = f.read()
                elif x.kind == "devstdin":       # standard input, by a name: what one reader takes is gone for the next
                    name = p = x.name
                    shown = [name]
                    cls = "nommap"
                    if stdin_data is None:
                        stdin, stdin_data = subprocess.PIPE, stream(x.seg)
                elif x.kind == "loop":
                    os.symlink(name, p)
                    cls = "absent"
                elif x.kind == "absent":
                    cls = "absent"
                if cls == "file" and x.seg[2] == 0:
                    cls = "nommap"
                lossy = name.decode("utf8", "replace").encode()
                if lossy not in shown:
                    shown.append(lossy)
                paths.append(name)
                spec.append(p.hex().encode() + b" " + b" ".join(x.sched))
            recs.append(dict(cls=cls, names=[list(s) for s in shown], raw=list(raw), segs=[x.seg] if x.seg[2] else [], ev=[], named=0))
        if run.wsched:
            spec.append(b"1 " + b" ".join(run.wsched))
        sp, lg = os.path.join(d, "zz.spec"), os.path.join(d, "zz.log")
        with open(sp, "wb") as f:
            f.write(b"\n".join(spec) + b"\n")
        env = {"PATH": "/usr/bin:/bin", "LD_PRELOAD": self.shim, "B2_SPEC": sp, "B2_LOG": lg, "RUST_BACKTRACE": "0"}
        threads = []
        for p, data in feeders:
            t = threading.Thread(target=feed, args=(p, data), daemon=True)
            t.start()
            threads.append(t)
        args = [os.fsencode(self.bin)] + argv(run, paths, rnd)
        sink = subprocess.PIPE
        if run.sink == "full":
            sink = open("/dev/full", "wb")
            opened.append(sink)
        elif run.sink == "gone":      # a pipe nobody reads, from before the start
            r_end, w_end = os.pipe()
            os.close(r_end)
            sink = os.fdopen(w_end, "wb", buffering=0)
            opened.append(sink)
        # long lists of files do not need as many open files
        few = (lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (40, 40))) if run.family == "crowd" else None
        pr = subprocess.Popen(args, stdin=stdin, stdout=sink, stderr=subprocess.PIPE, cwd=d, env=env, preexec_fn=few)
        try:
            out, err = pr.communicate(stdin_data, timeout=120)
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.communicate()
            return dict(hang=True, argv=[a.decode("latin1") for a in args[1:]], family=run.family)
        finally:
            for f in opened:
                f.close()
            for p, data in feeders:
                unblock(p)
        out = out or b""
        events = {}
        if os.path.exists(lg):
            for line in open(lg):
                a, t, n = line.split()
                events.setdefault(int(a), []).append([t, int(n)])
        for j, r in enumerate(recs):
            # a cut-off log of ordinary reads carries nothing the verdict needs
            ev = [e for e in events.get(j, []) if e[0] in "oemis"]
            r["ev"] = [e for k, e in enumerate(ev) if e[0] != "i" or k < 20]
            r["named"] = 1 if (has_stdin and b"stdin" in err) or (not has_stdin and any(bytes(s) in err for s in r["names"])) else 0
        wf = 1 if run.sink != "pipe" or any(e[0] == "e" for e in events.get(len(recs), []) if run.wsched) else 0
        return dict(items=[[n if n not in ("raw",) else "unknown", list(raw)] for n, raw in run.items], stdin=1 if has_stdin else 0,
                    inputs=recs, out=list(out), exit=pr.returncode if pr.returncode >= 0 else 256 - pr.returncode,
                    wfault=wf, said=1 if err.strip() else 0, argv=[a.decode("latin1") for a in args[1:]], err=err.decode("utf8", "replace")[:400],
                    family=run.family, log=[(a, e) for a, e in sorted(events.items())] if sum(map(len, events.values())) < 30 else [])


def feed(p, data):
    try:
        with open(p, "wb", buffering=0) as f:
            f.write(data)
    except OSError:
        pass


def unblock(p):
    """Release a feeder whose fifo was never read."""
    try:
        fd = os.open(p, os.O_RDONLY | os.O_NONBLOCK)
        os.close(fd)
    except OSError:
        pass


# ---------------------------------------------------------------- command lines
def hexs(rnd, n):
    return bytes(rnd.randrange(256) for _ in range(n)).hex().encode()


def good_items(rnd, v=None, p=0.35):
    v = v or rnd.choice(["b", "s", "bp", "sp"])
    outb, _, saltb = VS[v]
    it = []
    if v[0] == "s":
        it.append(("s", b""))
    elif rnd.random() < 0.4:
        it.append(("b", b""))
    if len(v) == 2:
        it.append(("p", b""))
    if rnd.random() < p:
        it.append(("length", b"%d" % rnd.choice([1, 2, outb // 2, outb - 1, outb, rnd.randint(1, outb)])))
    if rnd.random() < p:
        it.append(("key", hexs(rnd, rnd.choice([1, outb - 1, outb, rnd.randint(1, outb)]))))
    if len(v) == 1:
        for n in ("salt", "personal"):
            if rnd.random() < p:
                it.append((n, hexs(rnd, rnd.choice([1, saltb, saltb, rnd.randint(1, saltb)]))))
        for n in ("fanout", "max-depth", "node-depth"):
            if rnd.random() < p:
                it.append((n, b"%d" % rnd.choice([0, 1, 2, 127, 128, 255, rnd.randint(0, 255)])))
        if rnd.random() < p:
            it.append(("inner-hash-length", b"%d" % rnd.choice([0, 1, outb - 1, outb, rnd.randint(0, outb)])))
        if rnd.random() < p:
            it.append(("max-leaf-length", b"%d" % rnd.choice([0, 1, 255, 256, 65535, 65536, 1 << 24, (1 << 31), (1 << 32) - 1, rnd.randrange(1 << 32)])))
        if rnd.random() < p:
            top = 64 if v == "b" else 48
            it.append(("node-offset", b"%d" % rnd.choice([0, 1, (1 << 32) - 1, 1 << 32, (1 << 40) + 5, (1 << 47) + 3, (1 << top) - 1, rnd.randrange(1 << top)])))
        if rnd.random() < p:
            it.append(("last-node", b""))
    return it


def bad_items(rnd):
    """Every way of being refused, by class."""
    out = []
    for v in VS:
        outb, _, saltb = VS[v]
        base = ([("s", b"")] if v[0] == "s" else []) + ([("p", b"")] if len(v) == 2 else [])

        def a(*items):
            out.append(base + list(items))
        for x in (0, outb + 1, outb + 64, 255, 256, 257, 256 + outb, 1 << 32, (1 << 32) + 1, (1 << 64) - 1, 1 << 64, (1 << 64) + 1):
            a(("length", b"%d" % x))
        for n in NUMS + ["key", "salt", "personal"]:
            for raw in (b"x", b"1x", b"0x10", b"-1", b" 1", b"1.0", b"1e1"):
                if n in NUMS or raw not in ():
                    a((n, raw))
        for n in (outb + 1, outb + 2, 2 * outb, 128, 255, 256, 257):
            a(("key", hexs(rnd, n)))
        for raw in (b"0", b"012", b"0g", b"zz", b"0x00", b"00 ", hexs(rnd, outb) + b"0", hexs(rnd, 3) + b"gg"):
            a(("key", raw))
        if len(v) == 1:
            for n in ("salt", "personal"):
                for k in (saltb + 1, saltb + 2, 2 * saltb, 255, 256, 257):
                    a((n, hexs(rnd, k)))
                for raw in (b"0", b"012", b"0g", hexs(rnd, saltb) + b"0"):
                    a((n, raw))
            for n in ("fanout", "max-depth", "node-depth"):
                for x in (256, 257, 511, 1 << 16, 1 << 32, 1 << 64):
                    a((n, b"%d" % x))
            for x in (outb + 1, 2 * outb, 255, 256, 256 + outb, 1 << 32, (1 << 64)):
                a(("inner-hash-length", b"%d" % x))
            for x in (1 << 32, (1 << 32) + 1, 1 << 33, 1 << 64):
                a(("max-leaf-length", b"%d" % x))
            for x in ([1 << 64, (1 << 64) + 1, 1 << 65] if v == "b" else [1 << 48, (1 << 48) + 1, 1 << 49, (1 << 63), (1 << 64) - 1, 1 << 64]):
                a(("node-offset", b"%d" % x))
        else:
            for n in TREE:
                good = {"salt": b"00" * saltb, "personal": b"00" * saltb, "last-node": b""}.get(n)
                for raw in ([good] if good is not None else [b"0", b"1", b"2"]):
                    a((n, raw))
                a((n, b"0001" if n in ("salt", "personal") else good if good is not None else b"3"), ("length", b"16"), ("key", b"0102"))
        out.append([("b", b""), ("s", b"")] + ([("p", b"")] if len(v) == 2 else []))
        out.append([("b", b""), ("s", b"")] + good_items(rnd, v, 0.3))
        for raw in (b"--nope", b"--lengthx=1", b"-x", b"--key", b"-bx", b"--last-nodes"):
            a(("raw", raw))
    # a bad option among good ones
    for it in list(out):
        if rnd.random() < 0.5:
            have = {n for n, _ in it}
            v = variant(it)
            extra = [x for x in good_items(rnd, v, 0.25) if x[0] not in have and x[0] not in ("b", "s", "p")]
            if extra and not any(n == "raw" and raw == b"--key" for n, raw in it):
                out.append(it + extra)
    # --key without a value swallows what follows: keep it last and without inputs
    return [it for it in out if not any(n == "raw" and raw == b"--key" for n, raw in it) or len(it) <= 3]


def grey_items(rnd):
    out = []
    for v in VS:
        base = ([("s", b"")] if v[0] == "s" else []) + ([("p", b"")] if len(v) == 2 else [])
        out += [base + [("length", b"+16")], base + [("length", b"016")], base + [("key", b"ABCD")], base + [("key", b"aBcD01")], base + [("key", b"")]]
        if len(v) == 1:
            out += [base + [("salt", b"")], base + [("personal", b"AF")], base + [("fanout", b"007")], base + [("node-offset", b"+1")]]
            out += [base + [("last-node", b""), ("last-node", b"")]]
        out.append([("p", b""), ("p", b"")] + base)
    return out


def good_single(rnd):
    """Each option alone at each boundary, per function."""
    out = []
    for v in VS:
        outb, _, saltb = VS[v]
        base = ([("s", b"")] if v[0] == "s" else []) + ([("p", b"")] if len(v) == 2 else [])
        out.append(base)
        for x in range(1, outb + 1):
            out.append(base + [("length", b"%d" % x)])
        for n in range(1, outb + 1):
            out.append(base + [("key", hexs(rnd, n))])
        if len(v) == 1:
            for n in ("salt", "personal"):
                for k in range(1, saltb + 1):
                    out.append(base + [(n, hexs(rnd, k))])
            for n in ("fanout", "max-depth", "node-depth"):
                for x in (0, 1, 2, 3, 63, 64, 127, 128, 200, 254, 255):
                    out.append(base + [(n, b"%d" % x)])
            for x in range(0, outb + 1, 3):
                out.append(base + [("inner-hash-length", b"%d" % x)])
            for k in range(0, 32):
                out.append(base + [("max-leaf-length", b"%d" % ((1 << k) + (k & 1)))])
            out.append(base + [("max-leaf-length", b"%d" % ((1 << 32) - 1))])
            for k in range(0, 64 if v == "b" else 48):
                out.append(base + [("node-offset", b"%d" % ((1 << k) + (k & 1)))])
            out.append(base + [("node-offset", b"%d" % ((1 << (64 if v == "b" else 48)) - 1))])
            out.append(base + [("last-node", b"")])
            tree = dict(length=b"17", key=b"0a0b", salt=b"01" * saltb, personal=b"02" * saltb, fanout=b"3")
            tree.update({"max-depth": b"4", "max-leaf-length": b"99", "node-offset": b"77", "node-depth": b"5", "inner-hash-length": b"18"})
            for n in tree:       # all but one; all pairs
                out.append(base + [(m, x) for m, x in tree.items() if m != n])
                for m in tree:
                    if n < m:
                        out.append(base + [(n, tree[n]), (m, tree[m])])
            out.append(base + list(tree.items()) + [("last-node", b"")])
    return out


SIZES = [0, 1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193,
         12345, 16384, 32767, 32768, 32769, 32768 + 64, 65535, 65536, 65537, 70000, 98304, 98305]


def seg(rnd, n):
    return [rnd.randrange(2, 120), 0 if n < 2000 else 0, n]


def from_script(sc, unit, rnd):
    """A complete behaviour of Cli.tla as a run of the binary."""
    ins = []
    for size, evs in zip(sc["size"], sc["script"]):
        toks = []
        for e in evs:
            t = e[0]
            toks.append({"r": b"r%d" % (unit * e[1] if len(e) > 1 else 1), "i": b"i", "e": b"e%d" % (rnd.choice([5, 5, 11, 21, 12, 110]) if t == "e" else 0),
                         "o": b"o%d" % (rnd.choice([13, 2, 24, 5, 40]) if t == "o" else 0), "m": b"m%d" % (rnd.choice([12, 19, 1]) if t == "m" else 0)}[t])
        kind = {"stdin": rnd.choice(["stdin-file", "stdin-pipe"])}.get(sc["mode"], "file")
        ins.append(Input(kind, seg(rnd, size * unit), toks))
    it = good_items(rnd, None, 0.2)
    if sc["mode"] == "mmap":
        it.append(("mmap", b""))
    return Run(it, ins, "script")


def scripts(chk):
    t = core.tlc("Cli", cfg="CliGen.cfg", workers=4)
    if t.kind != "ok":
        raise ToolError("Cli.tla (generation): " + t.out[-800:])
    chk.states += t.distinct
    chk.transitions += t.states
    out = []
    for m in re.finditer(r'^"SCRIPT (.*)"$', t.out, re.M):
        out.append(json.loads(json.loads('"' + m.group(1) + '"')))
    if len(out) < 500:
        raise ToolError("Cli.tla produced too few behaviours: " + t.out[-400:])
    return sorted(out, key=lambda x: json.dumps(x, sort_keys=True))


def model(chk):
    t = core.tlc("Cli", workers=4, timeout=900)
    if t.kind != "ok":
        raise ToolError("Cli.tla: " + t.out[-800:])
    chk.states += t.distinct
    chk.transitions += t.states
    chk.cov["cli_model_states"] = t.distinct


def runs_for(chk, rnd):
    out = []
    th = chk.thorough
    sc = scripts(chk)
    faulty = [s for s in sc if s["exit"] == 1]
    fine = [s for s in sc if s["exit"] == 0]
    units = [1, 64, 100, 4096, 8192, 16384, 32768, 40000]
    small = [1, 3, 64, 100, 129, 200]
    if chk.pid == "C13":
        out += [from_script(s, rnd.choice(small), rnd) for s in fine]
        out += [from_script(s, rnd.choice(units), rnd) for s in rnd.sample(fine, min(len(fine), 60 if not th else 100000))]
        for it in good_single(rnd):
            mm = rnd.random() < 0.3
            k = rnd.choice(["stdin-pipe", "stdin-file", "file"]) if not mm else "file"
            out.append(Run(it + ([("mmap", b"")] if mm else []), [Input(k, seg(rnd, rnd.choice([0, 1, 3, 64, 100, 128, 130]) if not mm else 65))], "option"))
        for _ in range(6000 if th else 500):
            n = rnd.choice([1, 1, 2, 3])
            mm = rnd.random() < 0.3
            ins = [Input("file", seg(rnd, rnd.choice([1, 3, 64, 128, 129, 200, 300] + ([] if mm else [0])))) for _ in range(n)]
            if n == 1 and not mm and rnd.random() < 0.4:
                ins[0].kind = "stdin-pipe"
            out.append(Run(good_items(rnd) + ([("mmap", b"")] if mm else []), ins, "options"))
        for v in VS:
            base = ([("s", b"")] if v[0] == "s" else []) + ([("p", b"")] if len(v) == 2 else [])
            sizes = SIZES if th else [s for s in SIZES if s < 5000] + rnd.sample([s for s in SIZES if s > 5000], 6) + [32768, 32769]
            for s in sizes:
                out.append(Run(base, [Input("stdin-pipe", seg(rnd, s))], "size"))
                out.append(Run(base, [Input("file", seg(rnd, s))], "size"))
                if s:
                    out.append(Run(base + [("mmap", b"")], [Input("file", seg(rnd, s))], "size"))
            for k in range(40 if not th else 400):    # random delivery: caps and interruptions
                n = rnd.choice([1, 64, 128, 500, 1000, 3000])
                toks = [rnd.choice([b"i", b"r%d" % rnd.choice([1, 7, 63, 64, 65, 127, 128, 129, 511, 512, 1024])]) for _ in range(rnd.randint(1, 30))]
                out.append(Run(base + [x for x in good_items(rnd, v, 0.15) if x[0] not in ("b", "s", "p")],
                               [Input(rnd.choice(["stdin-pipe", "stdin-file", "file", "fifo"]), seg(rnd, n), toks)], "delivery"))
            for k in range(2 if not th else 12):
                n = rnd.choice([33000, 66000, 98304])
                toks = [rnd.choice([b"i", b"r%d" % rnd.choice([1, 32767, 32768, 511, 20000])]) for _ in range(rnd.randint(1, 12))]
                out.append(Run(base, [Input(rnd.choice(["stdin-pipe", "file"]), seg(rnd, n), toks)], "delivery"))
            for pre in (1, 64, 128, 1000, 40000):       # standard input from the middle of a file
                out.append(Run(base, [Input("stdin-mid", [rnd.randrange(2, 120), pre, rnd.choice([0, 1, 70, 128, 300])])], "offset"))
            out.append(Run(base, [Input("proc", [2, 0, 0])], "special"))
            out.append(Run(base, [Input("file", seg(rnd, 70), (), b"-")], "special"))
            out.append(Run(base, [Input("file", seg(rnd, 70), (), b"-"), Input("proc", [2, 0, 0]), Input("file", seg(rnd, 5))], "special"))
            for k in range(3):          # the same pipe by several names, or by one name several times
                nm = [rnd.choice([b"/dev/stdin", b"/dev/fd/0", b"/proc/self/fd/0"])] * 3 if k < 2 else [b"/dev/fd/0", b"/dev/stdin", b"/dev/fd/0"]
                ins = [Input("devstdin", seg(rnd, rnd.choice([1, 64, 300])), (), nm[0])] + [Input("devstdin", [2, 0, 0], (), nm[j]) for j in range(1, rnd.choice([1, 2, 3]) if k else 2)]
                if rnd.random() < 0.5:
                    ins.insert(rnd.randint(0, len(ins)), Input("file", seg(rnd, 5)))
                out.append(Run(base, ins, "special"))
            # answers to stat that fail
            for k in (5, 12, 13, 38, 75):
                mm = rnd.random() < 0.3
                out.append(Run(base + ([("mmap", b"")] if mm else []), [Input("file", seg(rnd, rnd.choice([1, 100])), [b"s%d" % k])], "stat"))
            # patience: long runs of interruptions, and very many small reads
            where = ["stdin-pipe", "stdin-file", "file", "fifo"]
            for k, many in enumerate([33, 70, 130, 300, 1100, 70000]):
                toks = [[b"I%d" % many], [b"r10", b"I%d" % many], [b"r130", b"I%d" % many, b"r1", b"I%d" % many]][(k + chk.seed) % 3]
                out.append(Run(base, [Input(where[(k + chk.seed // 3) % 4], seg(rnd, rnd.choice([0, 100, 300])), toks)], "patience"))
            out.append(Run(base, [Input("file", seg(rnd, 64), [b"r64", b"I270"]), Input("file", seg(rnd, 65), [b"I270", b"c1"])], "patience"))
            for most, n in ((1, 66000 + rnd.randrange(500)), (rnd.choice([7, 63, 100]), 40000)) if th or len(v) == 2 else ((1, 300 + rnd.randrange(600)),):
                out.append(Run(base, [Input(rnd.choice(where), seg(rnd, n), [b"c%d" % most])], "patience"))
            out.append(Run(base, [Input("file", seg(rnd, 66))], "patience", wsched=[b"w3", b"I300", b"c1"]))
    else:
        for v in VS:        # patience that ends in failure
            base = ([("s", b"")] if v[0] == "s" else []) + ([("p", b"")] if len(v) == 2 else [])
            for many in (33, 130, 300, 1100):
                out.append(Run(base, [Input(rnd.choice(["stdin-pipe", "stdin-file", "file"]), seg(rnd, 200), [b"r%d" % rnd.choice([1, 64, 200]), b"I%d" % many, b"e5"])], "patience"))
        # every error number, wherever one can be met (EINTR is no error; the standard library takes EBADF on a
        # standard stream for a closed stream)
        vs = sorted(VS)
        for no in [k for k in range(1, 134) if k not in (4, 41, 58)]:
            v = vs[(no + chk.seed) % 4]
            base = ([("s", b"")] if v[0] == "s" else []) + ([("p", b"")] if len(v) == 2 else [])
            pre = [[], [b"r1"], [b"r64"], [b"r100", b"i"], [b"r200"]][(no + chk.seed // 4) % 5]
            out.append(Run(base, [Input("file", seg(rnd, 200), pre + [b"e%d" % no])], "errno"))
            if no != 9:
                out.append(Run(base, [Input(rnd.choice(["stdin-pipe", "stdin-file"]), seg(rnd, 200), pre + [b"e%d" % no])], "errno"))
                w = [[], [b"w1"], [b"w64"], [b"w60", b"i"]][no % 4]
                out.append(Run(base, [Input("file", seg(rnd, 5))], "errno", wsched=w + [b"e%d" % no]))
            out.append(Run(base, [Input("file", seg(rnd, 5), [b"o%d" % no]), Input("file", seg(rnd, 5))][:rnd.choice([1, 2])], "errno"))
            out.append(Run(base + [("mmap", b"")], [Input("file", seg(rnd, 5), [b"m%d" % no]), Input("file", seg(rnd, 5))][:rnd.choice([1, 2])], "errno"))
        out += [from_script(s, rnd.choice(small), rnd) for s in faulty]
        out += [from_script(s, rnd.choice(units), rnd) for s in rnd.sample(faulty, min(len(faulty), 60 if not th else 100000))]
        out += [from_script(s, rnd.choice(small), rnd) for s in rnd.sample(fine, 60)]
        for it in bad_items(rnd):
            mm = rnd.random() < 0.2
            lone = any(n == "raw" and raw == b"--key" for n, raw in it)
            ins = [Input("file", seg(rnd, 70)) for _ in range(rnd.choice([1, 1, 2]))] if (rnd.random() < 0.5 or mm) and not lone else [Input("stdin-pipe", seg(rnd, 3))]
            out.append(Run(it + ([("mmap", b"")] if mm else []), ins, "refused"))
        for it in grey_items(rnd):
            out.append(Run(it, [Input("stdin-pipe", seg(rnd, 70))], "grey"))
            out.append(Run(it, [Input("file", seg(rnd, 70))], "grey"))
        for v in VS:
            for k in range(4):
                out.append(Run([x for x in good_items(rnd, v, 0.2 * k)] + [("mmap", b"")], [Input("stdin-pipe", seg(rnd, 10))], "mmap-stdin"))
    # several inputs, of every kind
    names = [b"a b", b"-", b"-x", b"--length=3", b"x\xc3\xa9", b"bad\xff", b"tab\tq", b"new\nline", b"sub/dir/f", b"'q'", b"*", b"a" * 200, b"0", b"stdin", b"x: y", b"%s", b"f0"]
    for k in range((3000 if th else 350)):
        n = rnd.randint(2, 6)
        mm = rnd.random() < 0.3
        ins, used = [], set()
        for j in range(n):
            kinds = ["file"] * 5 + ["link", "devnull", "proc"] + ([] if mm else ["fifo"]) + (["absent", "dir", "loop", "dup"] if chk.pid == "C14" else ["dup"])
            kd = rnd.choice(kinds)
            if kd == "dup" and (not ins or ins[-1].kind not in ("file", "link")):
                kd = "file"
            nm = None
            if rnd.random() < 0.3:
                nm = rnd.choice(names)
                if nm in used or kd in ("devnull", "proc", "dup") or (b"/" in nm and kd != "file"):
                    nm = None
                else:
                    used.add(nm)
            if nm is None:
                nm = b"n%d" % j
            s = seg(rnd, rnd.choice([0, 1, 3, 64, 65, 128, 129, 300])) if kd in ("file", "link", "fifo") else [2, 0, 0]
            toks = []
            if kd == "dup":
                s = ins[-1].seg
            if chk.pid == "C14" and kd == "file" and rnd.random() < 0.3:
                toks = [rnd.choice([b"o13", b"e5", b"r1 e5", b"r64 i e11", b"i e5", b"r%d e5" % max(1, s[2])])]
            ins.append(Input(kd, s, toks, nm))
        out.append(Run(good_items(rnd, None, 0.12) + ([("mmap", b"")] if mm else []), ins, "several"))
    # hundreds of inputs (a process has only 256 exit statuses and at most 1024 descriptors)
    for n, bad in ((300, 0), (1300, 0)) if chk.pid == "C13" else ((256, 256), (300, 256), (512, 512), (270, 1), (300, 299)):
        which = set(rnd.sample(range(n), bad))
        ins = []
        for j in range(n):
            if j in which:
                ins.append(Input("absent", [2, 0, 0], (), b"n%d" % j) if j % 3 or j > 50 else Input("file", [3, 0, 5], [b"r2 e5"], b"n%d" % j))
            else:
                ins.append(Input("file", [2 + j % 100, 0, 1 + j % 150], (), b"n%d" % j))
        out.append(Run(good_items(rnd, rnd.choice(["b", "s"]), 0.05) + ([("mmap", b"")] if n == 1300 else []), ins, "crowd"))
    # standard output that fails, or takes little at a time
    for k in range(60 if not th else 400):
        n = rnd.randint(1, 4)
        ins = [Input("file", seg(rnd, rnd.choice([1, 64, 200]))) for _ in range(n)] if rnd.random() < 0.8 else [Input("stdin-pipe", seg(rnd, 20))]
        if chk.pid == "C13":
            w = [rnd.choice([b"w%d" % rnd.choice([1, 2, 10, 64, 127, 128, 129, 131]), b"i"]) for _ in range(rnd.randint(1, 6))]
            out.append(Run(good_items(rnd, None, 0.1), ins, "output", wsched=w))
        else:
            z = rnd.random()
            if z < 0.25:
                out.append(Run(good_items(rnd, None, 0.1), ins, "output", sink="full"))
            elif z < 0.5:
                out.append(Run(good_items(rnd, None, 0.1), ins, "output", sink="gone"))
            else:
                w = [b"w%d" % rnd.choice([1, 20, 64, 129, 131, 140]) for _ in range(rnd.randint(0, 3))] + [b"e%d" % rnd.choice([28, 5, 32])]
                out.append(Run(good_items(rnd, None, 0.1), ins, "output", wsched=w))
    return out


# ---------------------------------------------------------------- many MiB, and more than 2^32 bytes
def large_file(chk, n):
    d = os.path.join(chk.work, "big")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "f%d" % n)
    with open(p, "wb") as f:
        if n < 1 << 26:
            piece = stream([5, 0, 999983])
            for _ in range(n // len(piece) + 1):
                f.write(piece)
        else:            # sparse, with something in every window of the powers of two
            for at in [0] + [(1 << k) + 5 for k in range(16, 32)] + [(1 << 32) - 3, n - 700]:
                f.seek(at)
                f.write(stream([5, 0, 600]))
        f.truncate(n)
    return p


def big(chk, binary):
    """Inputs of many MiB and of more than 4 GiB through every path of the command."""
    ref = core.build("rel")[0]
    rnd = random.Random(chk.seed + 5)
    n = (1 << 32) + 3 * 1024 + 77 + chk.seed % 51
    plan = [("b", "", "file"), ("s", "0102", "mmap"), ("bp", "07", "mmap"), ("sp", "", "stdin")]
    if chk.thorough:
        plan = [(v, k, m) for v in VS for k, m in (("", "file"), ("0102", "mmap"), ("", "mmap"), ("", "stdin"))]
    if chk.pid == "C14" and not chk.thorough:
        plan = []
    plan = [(n, v, k, m) for v, k, m in plan]
    sizes = [1 << 20, (1 << 20) + 1, 2 << 20, (2 << 20) + 32768, (5 << 20) + 4097, 16 << 20, (33 << 20) - 64, (64 << 20) + rnd.randrange(1 << 20)]
    for size in sizes if chk.thorough else sizes[:5] + sizes[6:]:
        for v in VS:
            for m in ("file", "mmap", "stdin") if chk.thorough or size < (3 << 20) else [rnd.choice(["file", "mmap", "stdin"])]:
                plan.append((size, v, rnd.choice(["", "0102"]), m))
    # multiples of every likely window or buffer
    for k in range(14, 31) if chk.pid == "C13" else ():
        for v in VS if chk.thorough else [sorted(VS)[(k + chk.seed) % 4]]:
            plan.append((1 << k, v, "", "mmap"))
            if k < 24 or chk.thorough:
                plan.append((1 << k, v, "07", rnd.choice(["file", "stdin"])))
    files = {k: large_file(chk, k) for k in sorted({x[0] for x in plan})}

    def one(x):
        size, v, key, mode = x
        p = files[size]
        args = [binary, "-" + v] + ([f"--key={key}"] if key else []) + (["--mmap"] if mode == "mmap" else []) + ([] if mode == "stdin" else [p])
        try:
            with open(p, "rb") as f:
                r = subprocess.run(args, stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, errors="replace")
            q = core.run([ref, "reftail", v, key, p], 300, env=core.env())
        except subprocess.TimeoutExpired:
            raise ToolError("hashing a large file timed out")
        return x, args, r, q
    done = list(chk.pool.map(one, plan))
    # the last blocks of every digest, computed by the specification
    rows, which = [], []
    for x, args, r, q in done:
        if q.returncode != 0 or len(q.stdout.splitlines()) < 2:
            raise ToolError("reftail: " + q.stderr[-500:])
        m = re.fullmatch(r"((?:[0-9a-f]{2})+)\n", r.stdout)
        if m and r.returncode == 0:
            which.append((x, args, r, q))
            rows.append(q.stdout.splitlines()[1] + ',"out":%s}' % json.dumps(list(bytes.fromhex(m.group(1)))))
        elif chk.pid == "C13" or r.returncode != 0:
            report(chk, x, args, r, q)
    while rows:
        f = os.path.join(chk.work, "bigrow.ndjson")
        with open(f, "w") as fh:
            fh.write("\n".join(rows) + "\n")
        t = core.tlc("TraceBig", envs=dict(TRACE=f), pure=True)
        chk.states += t.distinct
        if t.kind == "ok":
            chk.traces += len(rows)
            chk.add("large_inputs", len(rows))
            chk.add("inputs_over_4GiB", sum(1 for w in which if w[0][0] > 1 << 32))
            break
        m = re.search(r'<<\s*"REJECT",\s*(\d+)', t.out)
        if t.kind != "violation" or not m:
            raise ToolError("TraceBig: " + t.out[-500:])
        k = int(m.group(1)) - 1
        if chk.pid == "C13":
            report(chk, *which[k])
        chk.traces += k
        rows, which = rows[k + 1:], which[k + 1:]
        if len(chk.violations) > 2:
            break
    for p in files.values():
        os.unlink(p)


def report(chk, x, args, r, q):
    rep = os.path.join(chk.replays, f"{len(chk.violations)}.txt")
    with open(rep, "w") as fh:
        fh.write(" ".join(args) + f"  (a file of {x[0]} bytes, see large_file in vf/cli.py)\n" + r.stdout + r.stderr + "\nstandard: " + q.stdout[:200])
    chk.violation(f"{' '.join(args[1:])} on {x[0]} bytes: exit {r.returncode}, {r.stdout[:150]!r} {r.stderr[:150]!r}; the standard's digest is {q.stdout[:128]}", rep)


# ---------------------------------------------------------------- verdicts
def judge(path):
    return core.tlc("TraceCli", envs=dict(TRACE=path), pure=False, timeout=600, mem="3g")


def run(chk):
    binary = build()
    rnd = random.Random(chk.seed * 7 + (13 if chk.pid == "C13" else 14))
    fut = chk.pool.submit(model, chk)
    runs = runs_for(chk, rnd)
    lab = Lab(chk, binary)
    recs = list(chk.pool.map(lambda a: lab.execute(a[0], a[1], chk.seed), list(enumerate(runs))))
    fut.result()
    shutil.rmtree(lab.dir, ignore_errors=True)
    fams = {}
    for r, x in zip(runs, recs):
        fams[r.family] = fams.get(r.family, 0) + 1
        if x.get("hang"):
            p = os.path.join(chk.replays, "hang.json")
            json.dump(x, open(p, "w"))
            chk.violation(f"blake2 {' '.join(x['argv'])} does not end", p)
            return
    chk.cov["runs_of_the_binary"] = fams
    chk.add("delivered_faults", sum(1 for x in recs for i in x["inputs"] for e in i["ev"] if e[0] in "oem"))
    chk.add("delivered_interruptions", sum(1 for x in recs for i in x["inputs"] for e in i["ev"] if e[0] == "i"))
    chk.add("refused_command_lines", sum(1 for r in runs if r.family == "refused"))
    files = [[] for _ in range(core.NCPU)]
    cost = [0] * core.NCPU
    for r, x in sorted(zip(runs, recs), key=lambda z: -z[0].cost()):
        k = cost.index(min(cost))
        cost[k] += r.cost()
        files[k].append(x)
    chk.cov["blocks_judged"] = sum(cost)
    futs = []
    for k, f in enumerate(files):
        p = os.path.join(chk.work, f"cli{k}.ndjson")
        with open(p, "w") as fh:
            for x in f:
                fh.write(json.dumps({a: b for a, b in x.items() if a not in ("argv", "err", "family", "log")}, separators=(",", ":")) + "\n")
        futs.append((p, f, chk.pool.submit(judge, p)))
    for p, f, fu in futs:
        verdicts(chk, p, f, fu.result())
    if not chk.violations:
        big(chk, binary)
    ok = [x for x in recs if len(x["inputs"]) > 1][:2] + recs[:1]
    chk.samples += [dict(argv=x["argv"], inputs=[(i["cls"], i["segs"], i["ev"]) for i in x["inputs"]], exit=x["exit"],
                         stdout=bytes(x["out"]).decode("utf8", "replace")[:300]) for x in ok]


def verdicts(chk, p, f, t, depth=0):
    """All rejected runs of one file (TLC stops at the first; go on behind it)."""
    chk.states += t.distinct
    chk.transitions += t.states
    if t.kind == "ok":
        chk.traces += len(f)
        return
    m = re.search(r'^"REJECT (.*)"$', t.out, re.M)
    if t.kind != "violation" or not m:
        raise ToolError("TraceCli: " + t.out[-1500:])
    rj = json.loads(json.loads('"' + m.group(1) + '"'))
    n = rj["line"]
    x = f[n - 1]
    chk.traces += n - 1
    mine = (chk.pid == "C13") != rj["expecting"] or (chk.pid == "C14" and x["exit"] != 0)
    want = [bytes(d).decode("latin1")[:40] for d in rj["digests"]]
    what = (f"blake2 {' '.join(x['argv'])[:300]}: exit {x['exit']}, stdout {bytes(x['out'])[:200]!r}; specification: command line "
            f"{rj['verdict']}, inputs {rj['outcome'][:8]}, digests {want[:8]}; stderr {x['err'][:120]!r}")
    if mine:
        rep = os.path.join(chk.replays, f"{len(chk.violations)}.json")
        with open(rep, "w") as fh:
            json.dump(x, fh)
        chk.violation(what, rep, key=json.dumps([x["argv"], [(i["cls"], i["segs"], i["ev"]) for i in x["inputs"]]]))
    else:
        chk.note("a run outside this property is rejected: " + what)
    if depth < 4 and len(chk.violations) < 3 and n < len(f):
        q = p + "x"
        with open(q, "w") as fh:
            for y in f[n:]:
                fh.write(json.dumps({a: b for a, b in y.items() if a not in ("argv", "err", "family", "log")}, separators=(",", ":")) + "\n")
        verdicts(chk, q, f[n:], judge(q), depth + 1)
