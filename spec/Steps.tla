------------------------------- MODULE Steps -------------------------------
(***************************************************************************)
(* Secrets do not influence which instructions are executed, nor which     *)
(* memory they touch (C17).                                                *)
(*                                                                         *)
(* A run of a call is a sequence of steps.  The property is about two      *)
(* runs: if they agree on everything public (the call, lengths, which      *)
(* parameters are set, the answer) they execute the same steps, whatever   *)
(* the secret bytes (message, key, the digests compared).                  *)
(*                                                                         *)
(* This module runs two copies of a comparison side by side (a self-       *)
(* composition) and compares their program counters at every step, for     *)
(* all pairs of small secrets.  With EarlyExit the comparison is the usual *)
(* one that stops at the first difference, and TLC finds two secrets that  *)
(* tell it from the constant-time one (StepsEarly.cfg must fail).  With    *)
(* Table the difference of two bytes comes from a table indexed by them:   *)
(* the same instructions, but other addresses (StepsTable.cfg must fail).  *)
(* TraceSteps.tla states the same property over recorded runs of the code. *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS MaxLen, Bytes, EarlyExit, Table

Strings == UNION {[1..n -> Bytes] : n \in 0..MaxLen}
VARIABLES x, y, pc, i, acc         \* each a pair: one component per run
vars == <<x, y, pc, i, acc>>
Runs == 1..2

Answer(r) == x[r] = y[r]
Init == /\ x \in Strings \X Strings /\ y \in Strings \X Strings
        /\ Len(x[1]) = Len(x[2]) /\ Len(y[1]) = Len(y[2])       \* public
        /\ Answer(1) = Answer(2)                                \* public
        /\ pc = <<"len", "len">> /\ i = <<1, 1>> /\ acc = <<0, 0>>

Xor(a, b) == IF a = b THEN 0 ELSE 1
NextPc(r) ==
  CASE pc[r] = "len"  -> IF Len(x[r]) # Len(y[r]) THEN "done" ELSE "loop"
    [] pc[r] = "loop" -> IF i[r] > Len(x[r]) THEN "test" ELSE "xor"
    [] pc[r] = "xor"  -> IF EarlyExit /\ x[r][i[r]] # y[r][i[r]] THEN "test" ELSE "loop"
    [] pc[r] = "test" -> "done"
    [] OTHER -> "done"
Step == /\ pc' = [r \in Runs |-> NextPc(r)]
        /\ i' = [r \in Runs |-> IF pc[r] = "xor" THEN i[r] + 1 ELSE i[r]]
        /\ acc' = [r \in Runs |-> IF pc[r] = "xor" /\ Xor(x[r][i[r]], y[r][i[r]]) = 1 THEN 1 ELSE acc[r]]
        /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

(* the memory a step touches, relative to the objects of the call *)
Touches(r) == IF pc[r] # "xor" THEN {}
              ELSE {<<"x", i[r]>>, <<"y", i[r]>>} \cup (IF Table THEN {<<"table", x[r][i[r]], y[r][i[r]]>>} ELSE {})
SameSteps == pc[1] = pc[2]
SameTouches == Touches(1) = Touches(2)
Right == \A r \in Runs : pc[r] = "done" => (acc[r] = 0 /\ Len(x[r]) = Len(y[r])) = Answer(r)
Ends == <>(pc = <<"done", "done">>)
=============================================================================
