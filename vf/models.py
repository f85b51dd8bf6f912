"""Behaviours and schedules that TLC generates from the specification, as calls for the harness.

Three kinds of source:
  Gen*.cfg        GenApi.tla   every history over a small universe of calls (breadth first)
  GenMix.cfg      GenApi.tla   random long histories (tlc -simulate)
  *Tour*.cfg      SerialBuf, ParBuf, ManySched: every transition (every batch) of the models that are
                  shaped like the implementation, mapped from their small blocks to the real ones

They depend on the specification (and a seed), not on /repo, so they are generated once and kept
under target/gen, named after a digest of the specification.
"""
import hashlib
import json
import os
import random
import re

from . import core
from .core import ToolError

GEN = os.path.join(core.VERIF, "target", "gen")
BLK = {"b": 128, "s": 64, "bp": 128, "sp": 64}
OUT = {"b": 64, "s": 32, "bp": 64, "sp": 32}
FAN = {"b": 1, "s": 1, "bp": 4, "sp": 8}
MARK = re.compile(r'^"GEN (.*)"$', re.M)


def spec_digest():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(core.SPEC)):
        for f in sorted(fs):
            if f.endswith((".tla", ".cfg")):
                h.update(f.encode())
                h.update(open(os.path.join(d, f), "rb").read())
    h.update(open(__file__, "rb").read())
    return h.hexdigest()[:16]


def limbs(n):
    return [(n >> (16 * i)) & 0xffff for i in range(4)]


def scale(x, blk, mb):
    """Model position (blocks of mb) to real position: block boundaries stay block boundaries."""
    q, r = divmod(x, mb)
    return q * blk + {3: [0, 1, blk - 1], 4: [0, 1, blk // 2 + 1, blk - 1], 2: [0, 1]}[mb][r]


def params(v, keyed, p=0):
    out = [["pnew", p, v]]
    if keyed:
        out.append(["pset", p, "key", [3, 0, keyed]])
    return out


def serial_tour(objs, rnd):
    for v in ("b", "s"):
        blk, n = BLK[v], 4 if v == "b" else 8
        for o in objs:
            keyed = rnd.choice([1, OUT[v] - 1, OUT[v]]) if o["k"] else 0
            many = any(h[0] == "m" for h in o["h"])
            states = range(n if many else 1)
            ops = params(v, keyed) + [["pst", 0, k] for k in states]
            base = blk if o["k"] else 0
            for kind, fed, m in o["h"]:
                a, b = scale(fed, blk, 4) - base, scale(fed + m, blk, 4) - base
                if kind == "m":
                    ops.append(["um", v, [[k, [11 + k, a, b - a]] for k in states]])
                else:
                    ops += [["supd", k, [11 + k, a, b - a]] for k in states]
                ops.append(["scnt", 0])
            ops += [["sfin", k, k] for k in states]
            yield ops


def par_tour(v):
    def gen(objs, rnd):
        blk, row = BLK[v], BLK[v] * FAN[v]
        for o in objs:
            keyed = rnd.choice([1, OUT[v] - 1, OUT[v]]) if o["k"] else 0
            ops = params(v, keyed) + [["pst", 0, 0]]
            base = row if o["k"] else 0
            for _, fed, m in o["h"]:
                a, b = scale(fed, blk, 3) - base, scale(fed + m, blk, 3) - base
                ops += [["supd", 0, [11, a, b - a]], ["scnt", 0]]
            ops.append(["sfin", 0, 0])
            yield ops
    return gen


def many_tour(objs, rnd):
    for v in ("b", "s"):
        blk = BLK[v]
        for o in objs:
            last = [["pset", 1, "hl", limbs(rnd.randrange(1, OUT[v]))], ["pset", 1, "ln", limbs(1)]]
            ops = params(v, 0, 0) + params(v, rnd.choice([1, OUT[v]]), 1) + last
            members = []
            for k, m in enumerate(o["l"]):
                p = rnd.randrange(2)
                n = scale(m, blk, 2)
                if m % 2:
                    n = n - 1 + rnd.choice([1, blk - 1, blk // 2])
                if o["f"]:
                    ops.append(["jnew", k, p, [21 + k, k, n]])
                    members.append(k)
                else:
                    ops.append(["pst", p, k])
                    members.append([k, [21 + k, k, n + 1]])
            if o["f"]:
                ops.append(["hm", v, members])
                ops += [["jhash", k, k] for k in members]
            else:
                ops.append(["um", v, members])
                ops += [["sfin", m[0], m[0]] for m in members]
            yield ops


SOURCES = {}
for _u in ("SerialB", "SerialS", "SerialBp", "SerialSp", "ManyB", "ManyS", "UManyB", "UManyS", "HashB", "HashS",
           "ParamB", "ParamS", "ParamBp", "ParamSp"):
    SOURCES[_u] = ("GenSets", f"Gen{_u}.cfg", None)
SOURCES["SerialTour"] = ("SerialTour", "SerialTour.cfg", serial_tour)
SOURCES["ParTour4"] = ("ParTour", "ParTour4.cfg", par_tour("bp"))
SOURCES["ParTour8"] = ("ParTour", "ParTour8.cfg", par_tour("sp"))
SOURCES["ManyTour"] = ("ManyTour", "ManyTour.cfg", many_tour)
SOURCES["ManyTour84"] = ("ManyTour", "ManyTour84.cfg", many_tour)
SOURCES["Mix"] = ("GenSets", "GenMix.cfg", None)


def generate(name, seed=1, num=0):
    """(path of the calls, states, transitions, histories)"""
    module, cfg, mapping = SOURCES[name]
    tag = f"{name}-{spec_digest()}" + (f"-{seed}-{num}" if num else "")
    path = os.path.join(GEN, tag + ".ops")
    meta = os.path.join(GEN, tag + ".json")
    if os.path.exists(meta) and os.path.exists(path):
        m = json.load(open(meta))
        return path, m["states"], m["transitions"], m["histories"]
    os.makedirs(GEN, exist_ok=True)
    args = ["-simulate", f"num={num}", "-depth", "70", "-seed", str(seed), "-aril", "0"] if num else []
    t = core.tlc(module, cfg=cfg, workers=1, mem="3g", timeout=600, args=args)
    if t.kind != "ok":
        raise ToolError(f"{cfg}: " + t.out[-1500:])
    objs = sorted(json.loads('"' + m + '"') for m in MARK.findall(t.out))
    if not objs:
        raise ToolError(f"{cfg} generated nothing: " + t.out[-500:])
    rnd = random.Random(name)
    n = 0
    tmp = f"{path}.{os.getpid()}"
    with open(tmp, "w") as f:
        hs = (json.loads(x) for x in objs)
        for ops in (mapping(list(hs), rnd) if mapping else hs):
            f.write('["reset"]\n')
            for o in ops:
                f.write(json.dumps(o, separators=(",", ":")) + "\n")
            n += 1
    os.replace(tmp, path)
    st, tr = t.distinct, t.states
    if num:
        m = re.search(r"The number of states generated: (\d+)", t.out)
        st = tr = int(m.group(1)) if m else 0
    with open(meta + ".tmp", "w") as f:
        json.dump(dict(states=st, transitions=tr, histories=n), f)
    os.replace(meta + ".tmp", meta)
    return path, st, tr, n


def generate_all(pool):
    return [f.result() for f in [pool.submit(generate, n) for n in SOURCES if n != "Mix"]]
