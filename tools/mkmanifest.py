#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Every recorded call is a step of an executable TLA+ specification evaluated by TLC (sampled traces) and by its "
          "Rust mirror (all of them); bounded, not a proof. Trusted: TLC, the harness' recording of results, the Java word "
          "arithmetic (a share of the traces is judged without it).")
T = {
 "C01": "TLA+ executable BLAKE2 specification; conformance of recorded one-shot digests (TLC trace validation)",
 "C02": "TLA+ buffer state machine model-checked with TLC; replayed and recorded update histories validated against Api.tla",
 "C03": "TLA+ tree specification and double-buffer model; update histories validated against Api.tla",
 "C04": "TLA+ API state machine; histories with observers and clones validated with TLC",
 "C05": "TLA+ batch scheduler model checked with TLC; recorded hash_many histories validated against Api.tla",
 "C06": "TLA+ batch scheduler model checked with TLC; recorded update_many histories validated against Api.tla",
 "C07": "TLA+ counter specification; histories across 2^32/2^64 validated with TLC (counter hooks, and real >4 GiB inputs)",
 "C08": "TLA+ API state machine; builder histories validated with TLC",
 "C09": "TLA+ Panics predicate; every setter value class and legal histories validated in debug and release builds",
 "C10": "TLA+ detection model; identical traces across builds and emulated CPUs, validated with TLC",
 "C11": "TLA+ Hash value operations; recorded observations validated with TLC",
 "C12": "two-run noninterference over specification behaviours; Debug fields validated with TLC",
 "C13": "TLA+ command-line specification; recorded runs of blake2 validated with TLC",
 "C14": "TLA+ command-line specification with faults; recorded runs under injected faults validated with TLC",
 "C15": "specification behaviours executed with guard pages, canaries and every alignment; traces validated with TLC",
 "C16": "TLA+ independence check; concurrent histories recorded and validated with TLC",
 "C17": "TLA+ two-run (self-composition) model; recorded sequences of instructions and memory addresses validated with TLC",
}
NOTE = {"C17": "Instruction sequences, and the effective addresses of their memory operands (from the disassembly and the registers; heap and vector-indexed addresses excepted), are recorded by single-stepping optimised builds on this machine for chosen and random secrets; "
               "equal public facts must give equal sequences (TraceSteps.tla). Bounded, not a proof; "
               "data-dependent instruction latencies are not observed."}
CLAIMED = os.environ.get("CLAIMED")
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
claimed = CLAIMED.split(",") if CLAIMED else ids
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --setup",
 "hooks": {"guard": "cfg(blake2_verif)", "enable": "RUSTFLAGS='--cfg blake2_verif' (set by vf/core.py when it builds the harness)",
           "source_commits": ["7898ce3"]},
 "checks": [{"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
             "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "model_checking",
             "level_note": NOTE.get(i, COMMON)} for i in claimed],
 "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in claimed],
 "notes": "Specification language: TLA+ (TLC). See DESIGN.md.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
