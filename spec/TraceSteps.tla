----------------------------- MODULE TraceSteps -----------------------------
(***************************************************************************)
(* Recorded runs of the code against Steps.tla.  A line names the public   *)
(* part p of a run, its secret part s (for the report), a digest d of the  *)
(* sequence of instruction addresses it executed, their number n, and a    *)
(* digest m of the sequence of addresses of memory they used.              *)
(* `seen` is what is known of the function from public parts to steps; a   *)
(* run is a step of this machine only if it agrees with it.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils
VARIABLES l, seen
Log == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ seen = << >>
Known(p) == p \in DOMAIN seen
Step ==
  /\ l <= Len(Log)
  /\ LET e == Log[l] r == <<e.d[1], e.d[2], e.n, e.m[1], e.m[2]>> IN
       IF Known(e.p) /\ seen[e.p].r # r
       THEN PrintT(<<"REJECT", l, e.p, "secrets", seen[e.p].s, e.s, "steps", seen[e.p].r[3], e.n,
                     IF SubSeq(r, 1, 3) = SubSeq(seen[e.p].r, 1, 3) THEN "other memory" ELSE "other instructions">>) /\ FALSE
       ELSE seen' = IF Known(e.p) THEN seen ELSE (e.p :> [r |-> r, s |-> e.s]) @@ seen
  /\ l' = l + 1
Spec == Init /\ [][Step]_<<l, seen>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
