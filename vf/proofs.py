"""What is shown about the specification alone: it does not depend on /repo, so a verdict is kept
under target/gen, named after a digest of the modules it depends on, and reused until they change."""
import hashlib
import json
import os
import random
import re

from . import core, models
from .core import ToolError

# name -> (module, cfg)  explored by TLC;  (module, constants)  shown inductive by Apalache
TLC = {
    "SerialBuf": ("SerialBuf", "SerialBuf.cfg", 2), "ParBuf": ("ParBuf", "ParBuf.cfg", 2),
    "ManySched": ("ManySched", "ManySched.cfg", 2), "Many84": ("ManySched", "Many84.cfg", 4),
    "ManyPar": ("ManySched", "ManyPar.cfg", 2), "ManyPar8": ("ManySched", "ManyPar8.cfg", 2),
}
APALACHE = {
    "SerialBuf128": ("SerialBuf", "ConstB128", "IndNext"), "SerialBuf64": ("SerialBuf", "ConstB64", "IndNext"),
    "ParBuf4x128": ("ParBuf", "ConstBp", "IndNext"), "ParBuf8x64": ("ParBuf", "ConstSp", "IndNext"),
    "Lane128": ("Lane", "ConstB", "Next"), "Lane64": ("Lane", "ConstS", "Next"),
    "Lane4x128": ("Lane", "ConstBp", "Next"), "Lane8x64": ("Lane", "ConstSp", "Next"),
}
PLAN = {
    "C01": ["vectors"],
    "C02": ["SerialBuf", "SerialBuf128", "SerialBuf64"],
    "C03": ["ParBuf", "ManyPar", "ManyPar8", "ParBuf4x128", "ParBuf8x64", "Lane4x128", "Lane8x64"],
    "C05": ["ManySched", "Many84", "Lane128", "Lane64"],
    "C06": ["SerialBuf", "ManySched", "SerialBuf128", "SerialBuf64", "Lane128", "Lane64"],
    "C07": ["SerialBuf128", "SerialBuf64", "ParBuf4x128", "ParBuf8x64", "Lane128", "Lane64", "Lane4x128", "Lane8x64"],
    "C15": ["SerialBuf128", "SerialBuf64", "ParBuf4x128", "ParBuf8x64", "Lane128", "Lane64", "Lane4x128", "Lane8x64"],
}


def kept(name, modules, work):
    h = hashlib.sha256()
    for m in sorted(modules):
        h.update(open(os.path.join(core.SPEC, m), "rb").read())
    path = os.path.join(models.GEN, f"proof-{name}-{h.hexdigest()[:16]}.json")
    if os.path.exists(path):
        return dict(json.load(open(path)), kept=True)
    d = work()
    os.makedirs(models.GEN, exist_ok=True)
    tmp = f"{path}.{os.getpid()}"
    with open(tmp, "w") as f:
        json.dump(d, f)
    os.replace(tmp, path)
    return d


def explore(name):
    module, cfg, workers = TLC[name]

    def work():
        t = core.tlc(module, cfg=cfg, workers=workers, mem="4g", timeout=800)
        if t.kind != "ok":
            raise ToolError(f"{cfg}: " + t.out[-1500:])
        return dict(how="TLC, all behaviours", states=t.distinct, transitions=t.states)
    return kept(name, [module + ".tla", cfg, "Lane.tla"], work)


def induct(name):
    module, const, nxt = APALACHE[name]

    def work():
        out = os.path.join(core.VERIF, "work", f"apa{os.getpid()}{name}")
        for init, n in (("IndInit", 1), ("Init", 0)):
            r = core.run(["apalache-mc", "check", f"--out-dir={out}", f"--init={init}", f"--next={nxt}", "--inv=Inv",
                          f"--cinit={const}", f"--length={n}", module + ".tla"], 600, cwd=core.SPEC, env=core.env())
            if r.returncode != 0 or "EXITCODE: OK" not in r.stdout:
                raise ToolError(f"Apalache on {module} {const} from {init}: " + r.stdout[-1500:])
        core.shutil.rmtree(out, ignore_errors=True)
        return dict(how="Apalache, invariant shown inductive: streams and calls of any length", states=0, transitions=0)
    return kept(name, [module + ".tla"], work)


def vectors(seed, n):
    """The standard in the specification against the published vectors and against hashlib."""
    rnd = random.Random(seed)
    path = os.path.join(core.VERIF, "work", f"vectors{os.getpid()}.json")
    v = json.load(open(os.path.join(core.SPEC, "kat.json")))
    limbs = lambda x, k: [(x >> (16 * i)) & 0xffff for i in range(k)]  # noqa: E731
    for _ in range(n):
        b = rnd.random() < 0.5
        out, salt, blk = (64, 16, 128) if b else (32, 8, 64)
        some = lambda m: rnd.randbytes(rnd.choice([0, 1, m - 1, m, rnd.randint(0, m)]))  # noqa: E731
        p = dict(digest_size=rnd.choice([1, out, rnd.randint(1, out)]), key=some(out), salt=some(salt), person=some(salt),
                 fanout=rnd.choice([0, 1, 255, rnd.randint(0, 255)]), depth=rnd.choice([1, 255, rnd.randint(1, 255)]),
                 leaf_size=rnd.choice([0, 2**32 - 1, rnd.getrandbits(32)]),
                 node_offset=rnd.choice([0, rnd.getrandbits(64 if b else 48)]),
                 node_depth=rnd.choice([0, 255, rnd.randint(0, 255)]), inner_size=rnd.randint(0, out),
                 last_node=rnd.random() < 0.5)
        msg = rnd.randbytes(rnd.choice([0, 1, blk - 1, blk, blk + 1, 2 * blk, rnd.randint(0, 4 * blk)]))
        d = (hashlib.blake2b if b else hashlib.blake2s)(msg, **p).digest()
        v.append(dict(v="b" if b else "s", msg=list(msg), out=list(d), prm=dict(
            hl=p["digest_size"], key=list(p["key"]), salt=list(p["salt"]), pers=list(p["person"]), fo=p["fanout"], md=p["depth"],
            mll=limbs(p["leaf_size"], 2), no=limbs(p["node_offset"], 4), nd=p["node_depth"], ihl=p["inner_size"],
            ln=int(p["last_node"]))))
    with open(path, "w") as f:
        json.dump(v, f)
    t = core.tlc("Vectors", envs=dict(KAT=path), timeout=600)
    os.unlink(path)
    if t.kind != "ok":
        raise ToolError("Vectors.tla: " + t.out[-1500:])
    return dict(how="TLC computes published vectors and hashlib's digests", vectors=len(v), states=t.distinct, transitions=t.states)


def start(chk):
    """In the background: the walks go on meanwhile."""
    fs = {}
    for n in PLAN.get(chk.pid, []):
        if n == "vectors":
            fs[n] = chk.side.submit(vectors, chk.seed, 600 if chk.thorough else 60)
        else:
            fs[n] = chk.side.submit(explore if n in TLC else induct, n)
    return fs


def finish(chk, fs):
    for n, f in fs.items():
        d = f.result()
        chk.states += d["states"]
        chk.transitions += d["transitions"]
        chk.cov.setdefault("shown_of_the_specification", {})[n] = d


def all_of_them(pool):
    names = sorted({n for p in PLAN.values() for n in p if n != "vectors"})
    for f in [pool.submit(explore if n in TLC else induct, n) for n in names]:
        f.result()
