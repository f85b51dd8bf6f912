"""C17: the instructions a call executes and the memory it touches do not depend on secret bytes (spec/Steps.tla, TraceSteps.tla)."""
import os
import re

from . import api, core, operands
from .core import ToolError


def run(chk):
    t = chk.pool.submit(core.tlc, "Steps", timeout=400)
    early = chk.pool.submit(core.tlc, "Steps", cfg="StepsEarly.cfg", timeout=400)
    lookup = chk.pool.submit(core.tlc, "Steps", cfg="StepsTable.cfg", timeout=400)
    plan = [("rel", 4, 8), ("nostd", 9, 7), ("sse41", 9, 7)]
    if chk.thorough:
        plan = [("rel", 1, 12), ("nostd", 1, 12), ("sse41", 1, 12), ("unin", 3, 12), ("native", 3, 12), ("size", 3, 12)]
    try:
        bins = core.build_all([c for c, _, _ in plan])
    except core.BuildFailed as e:
        raise ToolError(f"cannot build: {e}")
    for cfg, stride, contents in plan:
        rounds = 3 if chk.thorough else 1
        for k in range(rounds):
            record(chk, bins[cfg][0], cfg, stride, contents, chk.seed + 77 * k, k)
            if chk.violations:
                return
    t, early = t.result(), early.result()
    if t.kind != "ok":
        raise ToolError("Steps.tla: " + t.out[-800:])
    if early.kind != "violation":
        raise ToolError("Steps.tla does not tell an early exit from a constant-time comparison")
    if lookup.result().kind != "violation":
        raise ToolError("Steps.tla does not tell a table look-up from a comparison that touches the same memory")
    chk.states += t.distinct
    chk.transitions += t.states
    chk.cov["steps_model_states"] = t.distinct


def record(chk, binary, cfg, stride, contents, seed, k):
    of = 4 * core.NCPU
    ops = operands.argument(binary)
    outs = [os.path.join(chk.work, f"steps_{cfg}_{k}_{p}.ndjson") for p in range(of)]
    futs = [chk.pool.submit(api.harness, binary, ["steps", "--seed", seed, "--stride", stride, "--part", p, "--of", of,
                                                  "--contents", contents, "--operands", ops, "--out", outs[p]], 800) for p in range(of)]
    for r in [f.result() for f in futs]:
        s = api.summary(r)
        if s is None:
            m = re.search(r"WRONG (.*)", r.stdout)
            if m:
                chk.note("outside this property: " + m.group(1))
                continue
            raise ToolError(f"steps failed on {cfg}: rc={r.returncode} {r.stdout[-300:]} {r.stderr[-800:]}")
        if s["observations"] and not s["last"]:
            raise ToolError("single-stepping does not work here")
        if s["observations"] and not s["operands"]:
            raise ToolError("no memory operands were recorded")
        chk.add("memory_operands_recorded", s["operands"])
        chk.add("recorded_runs", s["observations"])
        chk.add("public_classes", s["classes"])
        chk.cov["longest_run_instructions"] = max(chk.cov.get("longest_run_instructions", 0), s["longest"])
    futs = [(o, chk.pool.submit(core.tlc, "TraceSteps", envs=dict(TRACE=o), timeout=400)) for o in outs if os.path.exists(o) and os.path.getsize(o) > 2]
    for o, f in futs:
        t = f.result()
        chk.states += t.distinct
        chk.transitions += t.states
        if t.kind == "ok":
            chk.traces += 1
            if len(chk.samples) < 2:
                chk.samples.append(dict(config=cfg, trace=[x.strip() for x in open(o)][:6]))
        elif t.kind == "violation":
            m = re.search(r'<<\s*"REJECT"(?:.|\n)*?>>', t.out)
            what = " ".join(m.group(0).split()) if m else t.out[-500:]
            rep = os.path.join(chk.replays, f"{len(chk.violations)}.ndjson")
            with open(rep, "w") as fh:
                fh.write(open(o).read())
            chk.violation(f"[{cfg}, judged by TLC] secrets change the executed instructions or the memory they touch: {what[:500]}", rep)
            if len(chk.violations) >= 3:
                return
        else:
            raise ToolError("TraceSteps: " + t.out[-800:])
