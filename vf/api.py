"""Checks of the library properties: behaviours of spec/Api.tla against the real crates."""
import json
import os
import re
import shutil
import subprocess
import time
import zlib

from . import core
from .core import ToolError, build, build_all, tlc, log

PURE_BLOCKS = 260          # judged with the specification alone, without the arithmetic override


class Walk:
    """One harness run: profiles executed on one build under one (possibly emulated) CPU."""

    def __init__(self, cfg, profiles, secs=4, cpu=None, platform="any", twin=0, budget=1500, cap=400, files=2):
        self.cfg, self.profiles, self.secs, self.cpu = cfg, profiles, secs, cpu
        self.platform, self.twin, self.budget, self.cap, self.files = platform, twin, budget, cap, files

    def label(self):
        return self.cfg + ("@" + self.cpu if self.cpu else "")


def harness(binary, args, timeout):
    try:
        return core.run([binary] + [str(x) for x in args], timeout, env=core.env(), cwd=core.VERIF)
    except subprocess.TimeoutExpired as e:
        raise ToolError(f"harness timed out: {args}")


def is_debug(cfg):
    return core.CONFIGS[cfg][0] in ("dbg", "o0")


def summary(r):
    for line in r.stdout.splitlines():
        if line.startswith("SUMMARY "):
            return json.loads(line[8:])
    return None


def trace_env(cfg, platform, trace):
    return dict(TDEBUG="1" if is_debug(cfg) else "0", TPLATFORM=platform, TRACE=trace)


def judge(trace, cfg, platform, pure=False, timeout=400):
    return tlc("TraceApi", envs=trace_env(cfg, platform, trace), pure=pure, timeout=timeout, name="TraceApi")


def count_scenarios(path):
    n = 0
    with open(path) as f:
        for line in f:
            if line.startswith('{"o":["reset"]'):
                n += 1
    return n


def lines_of(path):
    return [json.loads(x) for x in open(path) if x.strip()]


def split_scenarios(path, limit_blocks=None):
    """Text chunks, one per scenario."""
    out = []
    for line in open(path):
        if line.startswith('{"o":["reset"]'):
            out.append([])
        if line.strip():
            if not out:
                out.append([])
            out[-1].append(line)
    return out


# ---------------------------------------------------------------- attribution of a mismatch
def relevant(pid, lines, ctx):
    """Does this (shrunk) rejected behaviour contradict property pid?

    A behaviour that the specification rejects always contradicts *some* property.  The checks of
    properties that are relative to others (C05: hash_many against hashing alone, C06: update_many
    against update, C11: views of a hash, C12: texts, C09: panics) report it only when the rejected
    observation is theirs; otherwise a broken compression function would be blamed on all of them.
    """
    ops = [x["o"] for x in lines]
    last = lines[-1]
    op, res = last["o"], last["r"]
    kinds = [o[0] for o in ops]
    rk = res.get("k")
    if rk in ("crash", "hang", "broken"):
        return pid != "C12" and pid != "C11"
    if pid == "C05":
        return ("hm" in kinds or any(o[0] == "bulk" and o[2] == "hm" for o in ops)) and not ctx.get("alone_wrong")
    if pid == "C06":
        return ("um" in kinds or any(o[0] == "bulk" and o[2] == "um" or o[0] == "srep" and o[4] in "mv" for o in ops)) and not ctx.get("alone_wrong")
    if pid == "C03":
        return ctx["variants"] & {"bp", "sp"} != set()
    if pid == "C02":
        return ctx["variants"] & {"b", "s"} != set() and any(k in ("supd", "swr", "srep", "sln", "sfl", "sfin") for k in kinds)
    if pid == "C07":
        return op[0] in ("scnt", "sdbg", "srep") or "sbase" in kinds or "jbase" in kinds
    if pid == "C09":
        return rk == "panic" or ctx.get("expected_panic") or any(x["r"].get("k") == "panic" for x in lines)
    if pid == "C11":
        return op[0] in ("hby", "hasref", "harr", "hhex", "hdbg", "heq", "heqs", "hfrom", "hcp")
    if pid == "C12":
        return op[0] in ("pdbg", "sdbg", "jdbg") or rk == "panic"
    if pid == "C04":
        return any(o[0] == "srep" and o[4] in "foc" for o in ops) or sum(k in ("sfin", "scl", "scnt", "sdbg", "sfl", "smv") for k in kinds) >= 2
    return True


def companions(pid, lines):
    """For C05/C06: the same work done one object at a time, appended to the behaviour."""
    ops = [x["o"] for x in lines]
    out = []
    n = 0
    if pid == "C05":
        for o in ops:
            if o[0] == "jnew":
                out.append(["phash", o[2], o[3], 90 + n % 6])
                n += 1
            if o[0] not in ("hm", "jhash", "bulk"):
                out.append(o)
    elif pid == "C06":
        for o in ops:
            if o[0] == "um":
                for s, g in o[2]:
                    out.append(["supd", s, g])
            elif o[0] == "srep" and o[4] in "mv":
                out.append(o[:4] + ["u"])
            elif o[0] != "bulk":
                out.append(o)
    return out


def variants(lines):
    vs = set()
    for x in lines:
        for y in x["o"]:
            if isinstance(y, str) and y in ("b", "s", "bp", "sp"):
                vs.add(y)
    return vs


def handle_bad(chk, binary, cfg, cpu, platform, twin, path, blocks, what):
    """A trace the harness' mirror objects to: the specification decides."""
    lines = lines_of(path)
    if not lines:
        raise ToolError("empty counterexample")
    verdict = "mirror"
    detail = what
    if blocks <= 60000:
        t = judge(path, cfg, platform, pure=blocks <= 1500, timeout=300)
        chk.states += t.distinct
        chk.transitions += t.states
        if t.kind == "ok":
            raise ToolError(f"harness and specification disagree about {path}: {what}")
        if t.kind == "violation":
            verdict = "TLC"
            m = re.search(r'<<\s*"(?:REJECT|NOTENABLED)".*', t.out)
            detail = (m.group(0)[:700] if m else t.out[-700:])
        else:
            chk.note("TLC could not judge a counterexample: " + t.out[-300:])
    ctx = {"variants": variants(lines), "expected_panic": "panics |-> TRUE" in detail or '"panics":true' in detail
           or "specification Panic" in what}
    if chk.pid in ("C05", "C06"):
        comp = companions(chk.pid, lines)
        if comp and lines[-1]["r"].get("k") not in ("crash", "hang", "broken"):
            f = os.path.join(chk.work, "comp.ndjson")
            with open(f, "w") as fh:
                for o in comp:
                    fh.write(json.dumps(o, separators=(",", ":")) + "\n")
            args = ["exec", "--in", f, "--platform", platform, "--out", f + ".out"]
            if cpu:
                args += ["--cpu", cpu]
            r = harness(binary, args, 120)
            s = summary(r)
            if s and s["bad"]:
                ctx["alone_wrong"] = True
    if not relevant(chk.pid, lines, ctx):
        chk.note(f"a behaviour outside this property is rejected: {what[:300]}")
        return False
    k = len(chk.violations)
    rep = os.path.join(chk.replays, f"{k}.ndjson")
    shutil.copy(path, rep)
    with open(os.path.join(chk.replays, f"{k}.json"), "w") as f:
        json.dump(dict(property=chk.pid, config=cfg, cpu=cpu, platform=platform, twin=twin, judged_by=verdict,
                       what=what, detail=detail, seed=chk.seed,
                       replay=f"{binary} exec --in {rep} --out -"), f, indent=1)
    chk.violation(f"[{cfg}{'@' + cpu if cpu else ''}, judged by {verdict}] {what[:400]} {detail[:600]}", rep,
                  key=finding_key(lines))
    return True


def finding_key(lines):
    return json.dumps([x["o"] for x in lines], separators=(",", ":"))


def crash_trace(chk, binary, w, seed, kind, profile, idx, opi, what):
    r = harness(binary, ["dump", profile, seed, idx], 60)
    if profile == "exec" or r.returncode != 0:
        return None
    ops = [x for x in r.stdout.splitlines() if x.strip()][1:]
    pre, bad = ops[:opi], ops[opi] if opi < len(ops) else None
    if bad is None:
        return None
    f = os.path.join(chk.work, f"crash{len(chk.violations)}.ndjson")
    with open(f + ".ops", "w") as fh:
        fh.write('["reset"]\n' + "\n".join(pre) + "\n")
    args = ["exec", "--in", f + ".ops", "--out", f, "--platform", w.platform]
    if w.cpu:
        args += ["--cpu", w.cpu]
    try:
        harness(binary, args, 60)
        text = open(f).read() if os.path.exists(f) else '{"o":["reset"],"r":{"k":"ok"}}\n'
    except ToolError:
        text = '{"o":["reset"],"r":{"k":"ok"}}\n'
    with open(f, "w") as fh:
        fh.write(text + '{"o":%s,"r":{"k":"%s","t":"%s"}}\n' % (bad, kind, what))
    return f


def run_walk(chk, w, binary, seed, secs):
    out = os.path.join(chk.work, re.sub(r"\W", "_", w.label()) + f"_{zlib.crc32(w.profiles.encode()) % 10000}")
    args = ["walk", "--profiles", w.profiles, "--seed", seed, "--secs", secs, "--threads", core.NCPU,
            "--twin", w.twin, "--platform", w.platform, "--budget", w.budget, "--cap", w.cap, "--files", w.files,
            "--out", out, "--hang", 60]
    if w.cpu:
        args += ["--cpu", w.cpu]
    r = harness(binary, args, 200 + 3 * secs)
    if r.returncode == 96:
        chk.note(f"this machine cannot emulate another CPU; {w.label()} not covered")
        return []
    s = summary(r)
    if s is None:
        m = re.search(r"(CRASH|HANG) (\S+) (\S+) (\d+) (\d+)", r.stdout + r.stderr)
        if m:
            kind = "crash" if m.group(1) == "CRASH" else "hang"
            what = f"{kind} (signal {m.group(2)}) in scenario {m.group(3)} {m.group(4)} operation {m.group(5)}"
            a = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", r.stderr)
            if a:
                at = re.search(r"#\d+ \S+ in (\S*blake2[bs]_simd\S*)", r.stderr)
                what += f": AddressSanitizer {a.group(1)} in {at.group(1) if at else '?'}"
            f = crash_trace(chk, binary, w, seed, kind, m.group(3), int(m.group(4)), int(m.group(5)), what)
            if f:
                if handle_bad(chk, binary, w.cfg, w.cpu, w.platform, w.twin, f, 10 ** 9, what):
                    return []
                return []
        raise ToolError(f"harness failed on {w.label()}: rc={r.returncode} {r.stdout[-500:]} {r.stderr[-1500:]}")
    for k in ("calls", "scenarios", "message_bytes", "expected_panics"):
        chk.add("impl_" + k, s[k])
    chk.add("impl_distinct_situations", s["situations"])
    chk.add("skipped_ops", s["skipped_ops"])
    for p, d in s["profiles"].items():
        p = "@" + os.path.basename(p) if p.startswith("@") else p
        e = chk.cov.setdefault("runs", {}).setdefault(f"{w.label()}:{p}", {"scenarios": 0, "complete": False})
        e["scenarios"] += d["scenarios"]
        e["complete"] |= bool(d["complete"])
    hit = False
    for b in s["bad"]:
        hit |= handle_bad(chk, binary, w.cfg, w.cpu, w.platform, w.twin, b["trace"], b["blocks"],
                          f"{b['profile']}#{b['idx']}: {b['what']}")
        if hit and len(chk.violations) >= 3:
            break
    return [(f"{out}.{k}.ndjson", w) for k in range(w.files) if os.path.exists(f"{out}.{k}.ndjson")
            and os.path.getsize(f"{out}.{k}.ndjson")]


def pure_file(chk, traces):
    """A few scenarios from each trace file, judged without the override."""
    path = os.path.join(chk.work, "pure.ndjson")
    n = 0
    w0 = traces[0][1]
    with open(path, "w") as out:
        for f, w in traces:
            if is_debug(w.cfg) != is_debug(w0.cfg) or w.platform != w0.platform:
                continue
            for sc in split_scenarios(f)[:40]:
                cost = sum(len(x) for x in sc) // 60
                if cost < 60 and n + cost <= PURE_BLOCKS:
                    n += cost
                    out.writelines(sc)
    return path, w0


def judge_traces(chk, traces):
    """Validate recorded traces with TLC, in parallel."""
    if not traces:
        return
    jobs = []
    p, w0 = pure_file(chk, traces)
    if os.path.getsize(p):
        jobs.append((p, w0, True, chk.pool.submit(judge, p, w0.cfg, w0.platform, True)))
    for f, w in traces:
        jobs.append((f, w, False, chk.pool.submit(judge, f, w.cfg, w.platform, False)))
    for f, w, pure, fut in jobs:
        t = fut.result()
        chk.states += t.distinct
        chk.transitions += t.states
        if t.kind == "ok":
            n = count_scenarios(f)
            if not pure:
                chk.traces += n
                chk.add("trace_lines_accepted", max(0, t.distinct - 1))
            else:
                chk.add("traces_also_validated_without_override", n)
            if len(chk.samples) < 3:
                sc = split_scenarios(f)
                if sc:
                    chk.samples.append(dict(config=w.label(), trace=[x.strip()[:300] for x in sc[len(sc) // 2][:12]]))
        elif t.kind == "violation":
            reject(chk, f, w, t)
        else:
            raise ToolError(f"TLC failed on {f}: {t.out[-1500:]}")
    chk.add("trace_files", len(traces))


def reject(chk, f, w, t):
    """TLC rejects a line of a recorded trace: cut out the behaviour it belongs to."""
    m = re.search(r'<<\s*"(?:REJECT|NOTENABLED)",\s*(\d+).*', t.out)
    if not m:
        raise ToolError("TLC rejected a trace without naming the line: " + t.out[-800:])
    n = int(m.group(1))
    text = [x for x in open(f) if x.strip()]
    k = n - 1
    while k > 0 and not text[k].startswith('{"o":["reset"]'):
        k -= 1
    path = os.path.join(chk.work, f"rej{len(chk.violations)}.ndjson")
    with open(path, "w") as out:
        out.writelines(text[k:n])
    lines = lines_of(path)
    what = "recorded trace rejected by the specification: " + m.group(0)[:500]
    ctx = {"variants": variants(lines), "expected_panic": '"panics":true' in t.out}
    if not relevant(chk.pid, lines, ctx):
        chk.note("a behaviour outside this property is rejected: " + what)
        return
    rep = os.path.join(chk.replays, f"{len(chk.violations)}.ndjson")
    shutil.copy(path, rep)
    chk.violation(f"[{w.label()}, judged by TLC] {what}", rep, key=finding_key(lines))


def binary_for(chk, cfg):
    """The harness in a configuration; a build failure is an error of the check."""
    try:
        return build(cfg)[0]
    except core.BuildFailed as e:
        raise ToolError(f"cannot build: {e}")


def run_walks(chk, walks, scale=1.0):
    cfgs = sorted({w.cfg for w in walks})
    try:
        bins = build_all(cfgs)
    except core.BuildFailed as e:
        raise ToolError(f"cannot build: {e}")
    chk.cov["builds"] = {c: {"hooks": bins[c][1]} for c in cfgs}
    traces = []
    for k, w in enumerate(walks):
        if chk.violations and len(chk.violations) >= 3:
            break
        traces += run_walk(chk, w, bins[w.cfg][0], chk.seed + 1000 * k, max(1, int(w.secs * scale)))
    return traces
