------------------------------ MODULE TraceCli ------------------------------
(***************************************************************************)
(* Judges recorded runs of the real `blake2` binary.  A line of the log:   *)
(*  items   the options as typed (CliOpt)                                  *)
(*  stdin   1 if no input was named                                        *)
(*  inputs  [cls, names, raw, segs, ev, named]: cls is "file", "nommap" (may    *)
(*          legitimately be impossible to map) or "absent"; names are the  *)
(*          spellings accepted after the digest; raw and segs the bytes; ev what   *)
(*          the environment answered; named whether standard error names it*)
(*  out, exit, wfault  standard output, exit status, whether writing to    *)
(*          standard output was made to fail                               *)
(*  said    1 if there is anything on standard error                       *)
(***************************************************************************)
EXTENDS CliOpt, TLCExt, Json, IOUtils

VARIABLE l
Log == ndJsonDeserialize(IOEnv.TRACE)

HexC == <<48,49,50,51,52,53,54,55,56,57,97,98,99,100,101,102>>
HexOf(b) == TLCEval([k \in 1..(2*Len(b)) |-> LET x == b[(k+1) \div 2]
                                     IN IF k % 2 = 1 THEN HexC[(x \div 16)+1] ELSE HexC[(x % 16)+1]])

Faulty(evs) == \E k \in DOMAIN evs : evs[k][1] \in {"o", "e", "m"}
Unstated(evs) == \E k \in DOMAIN evs : evs[k][1] = "s"     \* what is known of a file besides its bytes is no input
Outcome(e, k) ==
  LET x == e.inputs[k] IN
  IF x.cls = "absent" \/ Faulty(x.ev) THEN "fail"
  ELSE IF (x.cls = "nommap" /\ HasItem(e.items, "mmap")) \/ Unstated(x.ev) THEN "either" ELSE "digest"

LineFor(e, k, d) ==        \* accepted spellings of the line
  IF Len(e.inputs) > 1 THEN { d \o <<32, 32>> \o nm \o <<10>> : nm \in {e.inputs[k].names[j] : j \in DOMAIN e.inputs[k].names} }
  ELSE { d \o <<10>> }
At(out, p, s) == p + Len(s) - 1 <= Len(out) /\ SubSeq(out, p, p + Len(s) - 1) = s

(* Walk over inputs k.. with standard output consumed up to p-1; cont = "prefix" allows stopping anywhere *)
RECURSIVE Walk(_,_,_,_,_)
Walk(e, digs, k, p, fails) ==
  IF k > Len(e.inputs) THEN p = Len(e.out) + 1 /\ (e.exit = 0 <=> ~fails)
  ELSE LET o == Outcome(e, k)
           print == \E s \in LineFor(e, k, digs[k]) : At(e.out, p, s) /\ Walk(e, digs, k+1, p + Len(s), fails)
           skip  == e.inputs[k].named = 1 /\ Walk(e, digs, k+1, p, TRUE)
       IN CASE o = "digest" -> print [] o = "fail" -> skip [] o = "either" -> print \/ skip

(* standard output broke: a beginning of what was due, and a failure *)
RECURSIVE Due(_,_,_)
Due(e, digs, k) == IF k > Len(e.inputs) THEN << >>
                   ELSE (IF Outcome(e, k) = "fail" THEN << >> ELSE CHOOSE s \in LineFor(e, k, digs[k]) : TRUE) \o Due(e, digs, k+1)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

Digests(e) ==
  LET v == VariantOf(e.items)  p == TLCEval(PrmOf(e.items)) IN
  TLCEval([k \in DOMAIN e.inputs |->
     IF Outcome(e, k) = "fail" THEN << >> ELSE HexOf(Digest(v, p, e.inputs[k].raw \o SegsBytes(e.inputs[k].segs)))])
Refused(e) == e.out = << >> /\ e.exit # 0 /\ e.said = 1
Performed(e) == \E d \in {Digests(e)} :      \* (binds d to a value)
  IF e.wfault = 1 THEN e.exit # 0 /\ Prefix(e.out, Due(e, d, 1))
  ELSE Walk(e, d, 1, 1, FALSE)
NIn(e) == IF e.stdin = 1 THEN 0 ELSE Len(e.inputs)
RunOK(e) ==
  LET vd == Verdict(e.items, NIn(e)) IN
  CASE vd = "bad" -> Refused(e)
    [] vd = "grey" -> Refused(e) \/ Performed(e)
    [] vd = "ok" -> Performed(e)
(* does this run contain an expected failure? *)
Expecting(e) == \/ Verdict(e.items, NIn(e)) = "bad" \/ e.wfault = 1
                \/ \E k \in DOMAIN e.inputs : Outcome(e, k) # "digest"

Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET e == Log[l] IN
           IF RunOK(e) THEN TRUE ELSE (PrintT("REJECT " \o ToJson([line |-> l, verdict |-> Verdict(e.items, NIn(e)), expecting |-> Expecting(e),
                                outcome |-> [k \in DOMAIN e.inputs |-> Outcome(e, k)],
                                digests |-> IF Verdict(e.items, NIn(e)) = "bad" THEN << >> ELSE Digests(e)])) /\ FALSE)
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
