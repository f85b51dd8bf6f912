"""C10: the same behaviours on every build and CPU; detection; other architectures."""
import concurrent.futures
import json
import os
import re

from . import api, core, miri
from .core import ToolError

FEATS = ["ssse3", "sse4.1", "avx", "avx2"]
# (build, emulated cpu)
QUICK = [("rel", None), ("dbg", None), ("nostd", None), ("nostd-dbg", None), ("sse41", None), ("avx2", None),
         ("avx2-dbg", None), ("native", None), ("unin", None), ("rel", "sse41"), ("rel", "noavx"), ("rel", "noymm"),
         ("rel", "ssse3"), ("rel", "portable"), ("dbg", "portable"), ("dbg", "sse41"), ("unin", "portable"), ("unin", "noymm")]
THOROUGH = QUICK + [("o0", None), ("o0", "portable"), ("o0", "sse41"), ("size", None), ("native", "full")]
PROFILES = "mix,params,split,tree,many,umany,observe,builder,hash,limits,edge,lens,pairs,treepairs,manyvec,ufill,fields"


def lab(v):
    return v[0] + ("@" + v[1] if v[1] else "")


def host_features():
    flags = set()
    for line in open("/proc/cpuinfo"):
        if line.startswith("flags"):
            flags = set(line.split(":")[1].split())
            break
    names = {"ssse3": "ssse3", "sse4.1": "sse4_1", "avx": "avx", "avx2": "avx2"}
    return [f for f in FEATS if names[f] in flags]


def machine(cpu):
    """(features, os saves ymm) of the emulated machine, or of this one."""
    host = host_features()
    drop = {None: [], "full": [], "sse41": ["avx2"], "noavx": ["avx", "avx2"], "noymm": [],
            "ssse3": ["sse4.1", "avx", "avx2"], "portable": FEATS}[cpu]
    return [f for f in host if f not in drop], 0 if cpu == "noymm" else 1


def usable(bins, chk):
    out = []
    host = host_features()
    for v in bins:
        f, _ = machine(v[1])
        ct = core.CONFIGS[v[0]][2]
        need = {"-C target-feature=+avx2": "avx2", "-C target-feature=+sse4.1": "sse4.1"}.get(ct)
        if need and need not in f:
            chk.note(f"{lab(v)} cannot run on this machine")
            continue
        out.append(v)
    return out


def rows(chk, variants, bins):
    """Measured detection rows, judged by Detect.tla."""
    def one(v):
        args = ["audit"]
        args += ["--cpu", v[1]] if v[1] else []
        return v, api.harness(bins[v[0]][0], args, 300)
    out = []
    todo = [v for v in variants if v[0] not in ("o0",)]
    todo += [(c, k) for c in ("rel", "nostd") for k in (None, "sse41", "noavx", "noymm", "ssse3", "portable")]
    todo = sorted(set(todo), key=lambda v: (v[0], v[1] or ""))
    for v, r in chk.pool.map(one, todo):
        if r.returncode == 96:
            chk.note(f"CPU emulation is not available: {lab(v)} not measured")
            continue
        d = re.search(r"DEGREE (\d+) (\d+)", r.stdout)
        if r.returncode != 0 or not d:
            m = re.search(r"CRASH.*", r.stdout + r.stderr)
            if m:
                p = os.path.join(chk.replays, "audit.txt")
                open(p, "w").write(r.stdout + r.stderr)
                chk.violation(f"[{lab(v)}] {m.group(0)} while hashing", p)
                continue
            raise ToolError(f"audit failed on {lab(v)}: {r.returncode} {r.stderr[-400:]}")
        f, ymm = machine(v[1])
        cfg = core.CONFIGS[v[0]]
        ct = FEATS if ("avx2" in cfg[2] or "native" in cfg[2]) else FEATS[:2] if "sse4.1" in cfg[2] else []
        if "native" in cfg[2]:
            ct = [x for x in f]
        parts = []
        for m in re.finditer(r"AUDIT (\S+) (\{.*\})", r.stdout):
            c = json.loads(m.group(2))
            n = m.group(1)
            parts.append(dict(name=n, crate="b" if n.startswith("b") else "s", lanes=1 if "many" in n else 0, **c))
            chk.add("single_stepped_instructions", c["steps"])
        out.append(dict(name=lab(v), std=1 if "std" in cfg[1] else 0, ct=ct, f=f, ymm=ymm,
                        deg=[int(d.group(1)), int(d.group(2))], parts=parts))
    p = os.path.join(chk.work, "rows.ndjson")
    with open(p, "w") as fh:
        for r in out:
            fh.write(json.dumps(r) + "\n")
    t = core.tlc("Detect", envs=dict(ROWS=p))
    chk.states += t.distinct
    chk.transitions += t.states
    chk.cov["detection_rows"] = {r["name"]: r["deg"] for r in out}
    if t.kind == "violation":
        rep = os.path.join(chk.replays, "rows.ndjson")
        os.replace(p, rep)
        m = re.search(r'<<\s*"REJECT".*', t.out)
        if not m:
            raise ToolError("Detect.tla: " + t.out[-800:])
        chk.violation("detection: " + m.group(0)[:600], rep)
    elif t.kind != "ok":
        raise ToolError("Detect.tla: " + t.out[-800:])
    else:
        chk.traces += len(out)


def split(text):
    out, cur = [], []
    for line in text.splitlines():
        if line.startswith('{"o":["reset"]'):
            if cur:
                out.append(cur)
            cur = []
        cur.append(line)
    if cur:
        out.append(cur)
    return out


def comparable(line):
    """The part of a trace line that must agree between all builds (None: may differ)."""
    if line.startswith('{"o":["deg"') or line.startswith('{"o":["max"'):
        return None
    return line


def run_variant(chk, v, bins, ops, out):
    args = ["exec", "--in", ops, "--out", out, "--hang", 60]
    args += ["--cpu", v[1]] if v[1] else []
    r = api.harness(bins[v[0]][0], args, 400)
    return v, r


def agree(chk, variants, bins):
    """One list of behaviours on every variant; the recorded traces must be the same text."""
    # the list comes from a build without hooks, so that every variant can run all of it
    gen = bins["unin"][0]
    ops = os.path.join(chk.work, "ops.ndjson")
    n = 4000 if chk.thorough else 400
    r = api.harness(gen, ["trace", "--profiles", PROFILES, "--count", n, "--seed", chk.seed, "--cap", 500, "--out", ops], 600)
    if r.returncode != 0:
        raise ToolError("trace generation failed: " + (r.stdout + r.stderr)[-500:])
    more = ops + ".large"
    r = api.harness(gen, ["trace", "--profiles", "vast,crowd,herd,marathon", "--count", 300 if chk.thorough else 25, "--seed", chk.seed,
                          "--cap", 150000, "--out", more], 600)
    if r.returncode != 0:
        raise ToolError("trace generation failed: " + (r.stdout + r.stderr)[-500:])
    with open(ops, "a") as fh:
        fh.write(open(more).read())
    futs = [chk.pool.submit(run_variant, chk, v, bins, ops, os.path.join(chk.work, "tr_" + lab(v).replace("@", "_")))
            for v in variants]
    got = {}
    for f in futs:
        v, r = f.result()
        if r.returncode == 96:
            continue
        p = os.path.join(chk.work, "tr_" + lab(v).replace("@", "_"))
        if api.summary(r) is None:
            m = re.search(r"(CRASH|HANG) (\S+) (\S+) (\d+) (\d+)", r.stdout + r.stderr)
            if not m:
                raise ToolError(f"exec failed on {lab(v)}: {r.returncode} {r.stderr[-600:]}")
            got[v] = (m, None)
            continue
        got[v] = (None, split(open(p).read()))
    crashed = [v for v in got if got[v][0]]
    whole = [v for v in got if not got[v][0]]
    if crashed and whole:
        v = crashed[0]
        rep = os.path.join(chk.replays, "crash.ndjson")
        os.replace(ops, rep)
        chk.violation(f"[{lab(v)}] {got[v][0].group(0)} where {lab(whole[0])} completes", rep)
        return []
    if not whole:
        raise ToolError("every build crashes")
    ref = whole[0]
    total = len(got[ref][1])
    # group by debug assertions first: misuse is refused only in debug builds
    differ = []
    for k in range(total):
        seen = {}
        for v in whole:
            sc = got[v][1][k] if k < len(got[v][1]) else []
            seen.setdefault("\n".join(filter(None, map(comparable, sc))), []).append(v)
        if len(seen) > 1:
            # misuse refused in debug builds only: those lines are not compared
            drop = set()
            for t in seen:
                drop |= {i for i, x in enumerate(t.split("\n")) if misuse(x)}
            groups = {}
            for t, vs in seen.items():
                groups.setdefault("\n".join(x for i, x in enumerate(t.split("\n")) if i not in drop), []).extend(vs)
            if len(groups) > 1:
                differ.append((k, groups))
    chk.cov["variants"] = [lab(v) for v in whole]
    chk.cov["behaviours_compared_on_every_variant"] = total
    if differ:
        k, groups = differ[0]
        verdict = {}
        for t, vs in groups.items():
            v = vs[0]
            f = os.path.join(chk.replays, f"{k}_{lab(v).replace('@', '_')}.ndjson")
            with open(f, "w") as fh:
                fh.write("\n".join(got[v][1][k]) + "\n")
            j = api.judge(f, v[0], "any")
            verdict[lab(v)] = (j.kind, [lab(x) for x in vs], f)
        wrong = [x for x in verdict.values() if x[0] != "ok"] or list(verdict.values())
        chk.violation(f"{len(differ)} of {total} behaviours differ between builds: " +
                      "; ".join(f"{'accepted' if x[0] == 'ok' else 'rejected'} by the specification: {x[1]}" for x in verdict.values())[:700],
                      wrong[0][2])
        return []
    # all agree: the specification judges a part of one copy
    out = []
    budget = 30000 if chk.thorough else 6000
    for cfg in ("rel", "dbg"):
        v = (cfg, None)
        if v not in whole:
            continue
        files = [[] for _ in range(4)]
        cost = [0] * 4
        for sc in got[v][1]:
            c = sum(len(x) for x in sc) / 120
            i = cost.index(min(cost))
            if cost[i] + c < budget / 8:
                cost[i] += c
                files[i].append(sc)
        for i, f in enumerate(files):
            p = os.path.join(chk.work, f"j_{cfg}_{i}.ndjson")
            with open(p, "w") as fh:
                for sc in f:
                    fh.write("\n".join(sc) + "\n")
            out.append((p, api.Walk(cfg, "cross-build")))
    return out


def misuse(line):
    """A panic of debug builds: jhash before hash_many, as_array of a short hash."""
    return line.startswith(('{"o":["jhash"', '{"o":["harr"')) and '"k":"panic"' in line


def other_targets(chk, dbg_bin):
    """Small behaviours on a big-endian and on a 32-bit target, under Miri."""
    plan = [("s390x", 5 if not chk.thorough else 8), ("i686", 3 if not chk.thorough else 4)]
    if chk.thorough:
        plan.append(("i686-avx2", 4))
    under_miri(chk, dbg_bin, plan, "mix,tree,split,many,umany,params,edge,builder,hash,fields,treepairs")


def memory(chk):
    """C15: the three implementations under Miri, which knows of every byte and reference what it may be."""
    plan = [("x64", 3), ("x64-avx2", 3), ("x64-sse41", 2)]
    try:
        dbg_bin = core.build("dbg")
    except core.BuildFailed as e:
        raise ToolError(str(e))
    under_miri(chk, dbg_bin, plan, "edge,many,umany,tree,split,mix,treepairs,hash,observe")


def under_miri(chk, dbg_bin, plan, profiles):
    hooks = dbg_bin[1] and core.build("rel")[1]
    dbg_bin = dbg_bin[0]
    per = 60 if chk.thorough else 1
    if chk.pid != "C10":
        per = 30 if chk.thorough else 1
    # with the hooks, counters beyond what these machines could hash are reached too
    gen = core.build("rel" if hooks else "unin")[0]
    jobs = []
    for label, nproc in plan:
        miri.prepare(label)
        for k in range(nproc):
            ops = os.path.join(chk.work, f"m_{label}_{k}.ndjson")
            r = api.harness(gen, ["trace", "--profiles", profiles, "--count", 2 * per,
                                  "--seed", chk.seed * 131 + k, "--cap", 90 if chk.thorough else 36, "--out", ops], 100)
            if hooks:
                more = ops + ".wide"
                api.harness(gen, ["trace", "--profiles", "wide", "--count", 48 if chk.thorough else 4, "--seed", chk.seed * 131 + k,
                                  "--from", 4 * (k % 3), "--cap", 200, "--out", more], 100)
                with open(ops, "a") as fh:
                    fh.write(open(more).read())
            exp = ops + ".exp"
            r = api.harness(dbg_bin, ["exec", "--in", ops, "--out", exp], 100)
            if api.summary(r) is None:
                raise ToolError("reference run failed")
            jobs.append((label, ops, exp, ops + ".got"))
    first = {}
    for label, ops, exp, got in jobs:   # the first run of each label builds
        first.setdefault(label, []).append((ops, exp, got))

    def go(j):
        label, ops, exp, got = j
        return j, miri.execute(label, ops, got, seed=chk.seed, timeout=800, hooks=hooks)
    lines = 0
    for j, (rc, out, err) in chk.pool.map(go, jobs):
        label, ops, exp, got = j
        if rc != 0:
            if miri.is_ub(err) or "panicked" in err:
                rep = os.path.join(chk.replays, f"miri_{label}.txt")
                open(rep, "w").write(open(ops).read() + err)
                chk.violation(f"[{label} under Miri] {miri.error_of(err)[:600]}", rep)
                continue
            raise ToolError(f"miri {label}: rc={rc} {err[-1500:]}")
        a, b = open(exp).read().splitlines(), open(got).read().splitlines()
        lines += len(b)
        if a != b:
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            if k < len(a) and ('"deg"' in a[k] or '"max"' in a[k]):
                continue
            rep = os.path.join(chk.replays, f"miri_{label}.ndjson")
            s = max(i for i in range(k + 1) if i < len(b) and b[i].startswith('{"o":["reset"]'))
            open(rep, "w").write("\n".join(b[s:k + 1]) + "\n")
            t = api.judge(rep, "dbg", "any", pure=True)
            chk.violation(f"[{label} under Miri, specification says {t.kind}] {b[k][:300] if k < len(b) else 'missing'} elsewhere {a[k][:300] if k < len(a) else 'missing'}", rep)
        else:
            chk.traces += sum(1 for x in b if x.startswith('{"o":["reset"]'))
    chk.cov["calls_on_other_targets"] = lines
    chk.cov["other_targets"] = [p[0] for p in plan]


def run(chk):
    variants = THOROUGH if chk.thorough else QUICK
    try:
        bins = core.build_all(sorted({v[0] for v in variants}))
    except core.BuildFailed as e:
        raise ToolError(f"cannot build: {e}")
    variants = usable(variants, chk)
    rows(chk, variants, bins)
    traces = agree(chk, variants, bins)
    api.judge_traces(chk, traces)
    if not chk.violations:
        other_targets(chk, bins["dbg"])
