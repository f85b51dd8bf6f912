"""What each check runs."""
import json
import os

from . import api, c10, cli, core, miri, models, proofs, steps
from .api import Walk
from .core import ToolError


def impls(profiles, secs=4, twin=0, budget=1500, cap=400, files=2, cfgs=("rel", "sse41", "nostd", "dbg")):
    """The same profiles on the AVX2 (detected), SSE4.1, portable and debug builds."""
    return [Walk(c, profiles, secs=secs, twin=twin, budget=budget, cap=cap, files=files) for c in cfgs]


def large(profiles, secs=4, twin=0, cfgs=("rel", "sse41", "nostd", "dbg")):
    """Scale: messages of many MiB, batches of hundreds, histories of hundreds of calls."""
    return [Walk(c, profiles, secs=secs, twin=twin, budget=5000, cap=5000, files=1) for c in cfgs]


WALKS = {
    "C01": lambda: impls("params:all,fields:all,lens:all,long:400,kin:all", secs=8, budget=3000)
    + [Walk("unin", "params:all,lens:all", secs=3, budget=500, files=1)]
    + large("vast:all", 3),
    "C02": lambda: impls("split:all,pairs:all,lens:all", secs=8, budget=3000)
    + large("vast:all,marathon:all,drip:all", 6),
    "C03": lambda: impls("tree:all,treepairs:all,lens:all,kin:all", secs=8, budget=4000, cap=600)
    + large("vast:all,marathon:all,drip:all", 7),
    "C04": lambda: impls("observe:all,mix:all", secs=8, budget=3000)
    + large("marathon:all,drip:all", 5),
    "C05": lambda: impls("many:all,manyvec:all,mix:all,kin:all", secs=10, budget=3000)
    + large("crowd:all,herd:all,marathon:all,swarm:all", 10),
    "C06": lambda: impls("umany:all,ufill:all,mix:all,kin:all", secs=10, budget=3000)
    + large("crowd:all,herd:all,marathon:all,swarm:all,drip:all", 11),
    "C07": lambda: impls("count:all,wide:all,split:all,tree:all,umany:all", secs=8, budget=3000)
    + large("vast:all,crowd:all,herd:all,drip:all", 6, cfgs=("rel", "nostd", "dbg")),
    "C08": lambda: impls("builder:all,setters:all,kin:all", secs=8, budget=3000)
    + large("marathon:all", 4, cfgs=("rel", "dbg")),
    "C09": lambda: impls("limits:all,wide:all,setters:all,builder:all,mix:all", secs=8, budget=2000, cfgs=("rel", "dbg", "nostd", "nostd-dbg", "avx2-dbg")),
    "C11": lambda: impls("hash:all,hashpairs:all", secs=6, budget=2500, cfgs=("rel", "dbg", "nostd")),
    "C12": lambda: impls("debug:all,limits:all,observe:all", secs=8, budget=2500, twin=1, cfgs=("rel", "dbg", "nostd"))
    + large("marathon:all,vast:all", 4, 1, cfgs=("rel", "dbg")),
    "C15": lambda: impls("edge:all,lens:all,many:all,umany:all,tree:all,split:all", secs=9, budget=2500)
    + [Walk("avx2", "edge:all,many:all", secs=3, budget=500, files=1)]
    + [Walk(c, "edge:all,lens:all,many:all,umany:all,tree:all,split:all,observe:all,limits:all,mix:all,vast:all,crowd:all,herd:all",
            secs=12, budget=300, files=1) for c in ("asan", "asan-sse41", "asan-nostd")]
    + large("vast:all,crowd:all,herd:all,swarm:all", 5),
    "C16": lambda: impls("mix:all,kin:all", secs=8, budget=3000, cap=600)
    + large("crowd:all,marathon:all", 4, cfgs=("rel", "sse41")),
}


def scale(chk):
    return 14.0 if chk.thorough else 1.0


# What TLC generates from the specification for each property, and the builds that replay it.
GENERATED = {
    "C01": (["ParamB", "ParamS"], ("rel", "nostd")),
    "C02": (["SerialTour", "SerialB", "SerialS"], ("rel", "sse41", "nostd", "dbg")),
    "C03": (["ParTour4", "ParTour8", "SerialBp", "SerialSp"], ("rel", "sse41", "nostd", "dbg")),
    "C04": (["SerialB", "SerialS", "SerialBp", "SerialSp"], ("rel", "sse41", "nostd")),
    "C05": (["ManyTour", "ManyTour84", "ManyB", "ManyS"], ("rel", "sse41", "nostd")),
    "C06": (["SerialTour", "ManyTour", "UManyB", "UManyS"], ("rel", "sse41", "nostd")),
    "C07": (["SerialTour", "ParTour4", "ParTour8", "UManyB", "UManyS"], ("rel", "dbg")),
    "C08": (["ParamB", "ParamS", "ParamBp", "ParamSp"], ("rel", "dbg")),
    "C09": (["ParamB", "ParamS", "ParamBp", "ParamSp"], ("rel", "dbg", "nostd")),
    "C11": (["HashB", "HashS"], ("rel", "dbg")),
    "C12": (["ParamB", "ParamSp", "UManyB", "SerialBp"], ("rel", "dbg")),
    "C15": (["SerialTour", "ParTour4", "ParTour8", "ManyTour"], ("asan", "asan-sse41", "asan-nostd")),
    "C16": (["UManyB", "UManyS", "ManyB"], ("rel", "sse41")),
}
MIX = {"C04", "C08", "C12", "C16"}


def generated(chk):
    names, cfgs = GENERATED[chk.pid]
    jobs = [chk.pool.submit(models.generate, n) for n in names]
    if chk.pid in MIX:
        num = 400 if chk.thorough else 60
        jobs.append(chk.pool.submit(models.generate, "Mix", chk.seed, num))
        names = names + ["Mix"]
    paths = []
    for n, j in zip(names, jobs):
        path, states, transitions, histories = j.result()
        chk.states += states
        chk.transitions += transitions
        chk.cov.setdefault("generated_by_tlc", {})[n] = dict(states=states, transitions=transitions, histories=histories)
        paths.append("@" + path + ":all")
    twin = 1 if chk.pid == "C12" else 0
    return [Walk(c, ",".join(paths), secs=30, twin=twin, budget=600, cap=400, files=1) for c in cfgs]


def library(chk):
    walks = generated(chk) + WALKS[chk.pid]()
    if chk.thorough:
        for w in walks:
            w.budget *= 6
            w.files *= 2
    traces = api.run_walks(chk, walks, scale(chk))
    for r, d in chk.cov.get("runs", {}).items():
        if ":@" in r and not d["complete"] and not chk.violations:
            raise ToolError(f"{r}: not all generated behaviours were replayed ({d['scenarios']})")
    api.judge_traces(chk, traces)


def save_replay(chk, text, suffix="txt"):
    p = os.path.join(chk.replays, f"{len(chk.violations)}.{suffix}")
    with open(p, "w") as f:
        f.write(text)
    return p


# ---------------------------------------------------------------- C07: more than 2^32 bytes
def big(chk):
    plan = [("rel", "all"), ("rel", "giant"), ("sse41", "umany")]
    if chk.thorough:
        plan = [("rel", "all"), ("rel", "giant"), ("nostd", "giant"), ("sse41", "giant"), ("sse41", "all"), ("nostd", "all"), ("dbg", "all"), ("avx2-dbg", "all")]
    try:
        bins = core.build_all(sorted({c for c, _ in plan}))
    except core.BuildFailed as e:
        raise ToolError(str(e))
    for cfg, tasks in plan:
        r = api.harness(bins[cfg][0], ["big", "--tasks", tasks, "--extra", chk.seed * 7919 % 1000003, "--hang", 600], 800)
        lines = [x[9:] for x in r.stdout.splitlines() if x.startswith("BIGTRACE ")]
        bad = [x for x in r.stdout.splitlines() if x.startswith("BAD ")]
        s = api.summary(r)
        if s is None or not lines:
            m = api.re.search(r"CRASH.*", r.stdout + r.stderr)
            if m:
                chk.violation(f"[{cfg}] input beyond 2^32 bytes: {m.group(0)}", save_replay(chk, r.stdout[-3000:] + r.stderr[-3000:]))
                continue
            raise ToolError(f"big inputs failed on {cfg}: rc={r.returncode} {r.stderr[-800:]}")
        f = os.path.join(chk.work, f"big_{cfg}_{tasks}.ndjson")
        with open(f, "w") as fh:
            fh.write("\n".join(lines) + "\n")
        t = core.tlc("TraceBig", envs=dict(TRACE=f), pure=True, timeout=300)
        chk.states += t.distinct
        chk.transitions += t.states
        chk.add("digests_of_inputs_over_4GiB", s["observations"])
        if t.kind == "violation" or (bad and t.kind == "ok"):
            m = api.re.search(r'<<\s*"REJECT".*', t.out)
            rep = save_replay(chk, "\n".join(bad) + "\n" + (m.group(0) if m else "") + "\n", "big.txt")
            with open(rep + ".ndjson", "w") as fh:
                fh.write("\n".join(lines) + "\n")
            chk.violation(f"[{cfg}] {'; '.join(bad)[:600]} {m.group(0)[:300] if m else ''}", rep)
        elif t.kind == "ok":
            chk.traces += len(lines)
        else:
            raise ToolError("TraceBig: " + t.out[-800:])


# ---------------------------------------------------------------- C16: threads
def races(chk, binary):
    """Schedules and orders of memory that this machine would never show: a concurrent program under Miri."""
    seeds = range(60) if chk.thorough else range(5)
    plan = [("x64-thr", chk.seed * 1009 + k) for k in seeds] + [("x64-avx2-thr", chk.seed * 1009 + k) for k in list(seeds)[:len(seeds) // 2]]
    miri.sysroot(miri.LABELS["x64-thr"][0])

    def go(x):
        label, seed = x
        big = [0, 300, 900][seed % 3]
        return x, big, miri.races(label, seed, big)
    for (label, seed), big_, (rc, out, err) in chk.pool.map(go, plan):
        want = core.run([binary, "races", "--seed", str(seed), "--big", str(big_), "--expect", "1"], 60)
        if want.returncode != 0:
            raise ToolError("races: " + want.stderr[-300:])
        if rc == 0 and sorted(out.split("\n")) == sorted(want.stdout.split("\n")):
            chk.add("miri_schedules", 1)
            continue
        if rc != 0 and not miri.is_ub(err) and "panicked" not in err:
            if "unsupported operation" in err:
                chk.note(f"{label}: Miri cannot execute this code: " + miri.error_of(err)[:200])
                return
            raise ToolError(f"miri {label}: " + err[-800:])
        diff = [l for l in out.split("\n") if l not in want.stdout.split("\n")][:1]
        chk.violation(f"[{label} under Miri, three threads, seed {seed}] " + (miri.error_of(err)[:600] if rc else f"thread, function, call, results: {diff}"),
                      save_replay(chk, out + err))
        return


def threads(chk):
    try:
        binary = core.build("thr")[0]
    except core.BuildFailed as e:
        if "between threads safely" in str(e):
            chk.violation("a public object can no longer move between or be shared by threads",
                          save_replay(chk, str(e)))
            return
        raise ToolError(str(e))
    races(chk, binary)
    if chk.violations:
        return
    out = os.path.join(chk.work, "st")
    runs = [(1, 1)] * (150 if chk.thorough else 30) + [(4000 if chk.thorough else 250, 10 if chk.thorough else 6)]
    traces = []
    for k, (rounds, files) in enumerate(runs):
        o = f"{out}{k}"
        big_ = k == len(runs) - 1
        r = api.harness(binary, ["stress", "--rounds", rounds, "--threads", 8, "--seed", chk.seed + 100003 * k, "--out", o,
                                 "--contend", (400 if chk.thorough else 60) if big_ else 0,
                                 "--files", files if big_ else 0, "--hang", 100], 600)
        s = api.summary(r)
        if s is None:
            m = api.re.search(r"(CRASH|HANG).*", r.stdout + r.stderr)
            if m:
                chk.violation("concurrent use: " + m.group(0), save_replay(chk, r.stdout[-2000:] + r.stderr[-2000:]))
                return
            raise ToolError(f"stress failed rc={r.returncode} {r.stderr[-800:]}")
        chk.add("concurrent_calls", s["calls"])
        chk.add("racing_first_uses", 1)
        chk.add("shared_reads", s["shared_reads"])
        chk.add("contended_calls", s["contended"])
        if s["bad"]:
            files = [f"{o}.{x}" for x in ()]
            import glob
            text = "\n".join(s["bad"]) + "\n"
            verdicts = []
            for f in sorted(glob.glob(o + ".bad*.ndjson"))[:2]:
                t = api.judge(f, "thr", "any")
                verdicts.append(t.kind)
                text += open(f).read()
            chk.violation(f"concurrent use: {s['bad'][0][:500]} (TLC on the recorded interleaving: {verdicts})",
                          save_replay(chk, text, "ndjson"))
            return
        if big_:
            w = Walk("thr", "stress")
            traces = [(f"{o}.{i}.ndjson", w) for i in range(files) if os.path.exists(f"{o}.{i}.ndjson")]
    api.judge_traces(chk, traces)


EXTRA = {"C07": [big], "C10": [c10.run], "C13": [cli.run], "C14": [cli.run], "C15": [c10.memory], "C16": [threads], "C17": [steps.run]}


def run(chk):
    shown = proofs.start(chk)
    if chk.pid in WALKS:
        library(chk)
    for f in EXTRA.get(chk.pid, []):
        f(chk)
    if not chk.violations:
        proofs.finish(chk, shown)
