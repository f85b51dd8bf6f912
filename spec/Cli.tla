-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The `blake2` process (blake2_bin/src/main.rs) as a state machine whose  *)
(* environment answers every open, read, map and write: how many bytes a   *)
(* read delivers, whether it is interrupted, whether it fails.             *)
(*                                                                         *)
(* Sizes are in abstract units.  Lines are symbolic: <<i, n>> stands for   *)
(* "the digest of the first n units of input i".                           *)
(*                                                                         *)
(* `script` records the environment's choices.  Complete behaviours are    *)
(* printed (Emit) and replayed on the real binary, which must produce the  *)
(* outcome that Outcome() derives from the environment alone.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxInputs, MaxSize, MaxEintr, Export

VARIABLES
  mode,     \* "stdin", "files", "mmap"
  size,     \* size[i]: units in input i
  pc,       \* "open" "read" "map" "print" "next" "done"
  i,        \* current input
  pos,      \* units absorbed by the current state
  lines,    \* printed
  named,    \* inputs named on standard error
  failed,   \* the program's flag
  exit,     \* -1 while running
  eintr,    \* interruptions so far
  script    \* environment history: per input a sequence of events
vars == <<mode, size, pc, i, pos, lines, named, failed, exit, eintr, script>>

N == Len(size)
Sizes(k) == [1..k -> 0..MaxSize]
Init ==
  /\ mode \in {"stdin", "files", "mmap"}
  /\ size \in UNION {Sizes(k) : k \in 1..(IF mode = "stdin" THEN 1 ELSE MaxInputs)}
  /\ pc = "open" /\ i = 1 /\ pos = 0 /\ lines = << >> /\ named = {} /\ failed = FALSE /\ exit = -1 /\ eintr = 0
  /\ script = [k \in 1..Len(size) |-> << >>]

Log(e) == script' = [script EXCEPT ![i] = Append(@, e)]
Fail == /\ named' = named \cup {i} /\ failed' = TRUE /\ pc' = "next" /\ UNCHANGED lines

Open ==
  /\ pc = "open" /\ UNCHANGED <<mode, size, i, exit, eintr>>
  /\ \/ /\ pos' = 0 /\ pc' = (IF mode = "mmap" THEN "map" ELSE "read")
        /\ UNCHANGED <<lines, named, failed, script>>
     \/ /\ mode # "stdin" /\ Log(<<"o", 13>>) /\ Fail /\ UNCHANGED pos
Read ==
  /\ pc = "read" /\ UNCHANGED <<mode, size, i, exit>>
  /\ \/ \E n \in 1..(size[i] - pos) :
          /\ pos' = pos + n /\ Log(<<"r", n>>) /\ UNCHANGED <<pc, lines, named, failed, eintr>>
     \/ /\ pos = size[i] /\ pc' = "print" /\ UNCHANGED <<pos, lines, named, failed, eintr, script>>
     \/ /\ eintr < MaxEintr /\ eintr' = eintr + 1 /\ Log(<<"i">>) /\ UNCHANGED <<pc, pos, lines, named, failed>>
     \/ /\ Log(<<"e", 5>>) /\ Fail /\ UNCHANGED <<pos, eintr>>
Map ==
  /\ pc = "map" /\ UNCHANGED <<mode, size, i, exit, eintr>>
  /\ \/ /\ size[i] > 0 /\ pos' = size[i] /\ pc' = "print" /\ UNCHANGED <<lines, named, failed, script>>
     \/ /\ size[i] = 0 /\ Fail /\ UNCHANGED <<pos, script>>          \* an empty mapping is refused
     \/ /\ size[i] > 0 /\ Log(<<"m", 12>>) /\ Fail /\ UNCHANGED pos
PrintLine ==
  /\ pc = "print" /\ lines' = Append(lines, <<i, pos>>) /\ pc' = "next"
  /\ UNCHANGED <<mode, size, i, pos, named, failed, exit, eintr, script>>
NextInput ==
  /\ pc = "next" /\ UNCHANGED <<mode, size, pos, lines, named, failed, eintr, script>>
  /\ IF i < N THEN i' = i + 1 /\ pc' = "open" /\ UNCHANGED exit
     ELSE pc' = "done" /\ exit' = (IF failed THEN 1 ELSE 0) /\ UNCHANGED i
Next == Open \/ Read \/ Map \/ PrintLine \/ NextInput
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
(* The property, from the environment's history alone *)
Faulty(evs) == \E k \in DOMAIN evs : evs[k][1] \in {"o", "e", "m"}
Outcome(k) == IF Faulty(script[k]) THEN "fail"
              ELSE IF mode = "mmap" /\ size[k] = 0 THEN "either" ELSE "digest"
LinesOf(k) == SelectSeq(lines, LAMBDA x : x[1] = k)

TypeOK == /\ pc \in {"open", "read", "map", "print", "next", "done"} /\ i \in 1..N /\ pos \in 0..MaxSize
          /\ named \subseteq 1..N /\ exit \in {-1, 0, 1}
(* never a digest of anything but a whole input *)
NoWrongDigest == \A k \in DOMAIN lines : lines[k][2] = size[lines[k][1]] /\ ~Faulty(script[lines[k][1]])
InOrder == \A k \in DOMAIN lines : k > 1 => lines[k-1][1] < lines[k][1]
AtEnd == pc = "done" =>
  /\ \A k \in 1..N : /\ Outcome(k) = "digest" => LinesOf(k) = <<<<k, size[k]>>>>
                     /\ Outcome(k) = "fail" => LinesOf(k) = << >> /\ k \in named
                     /\ LinesOf(k) = << >> <=> k \in named
  /\ exit = 0 <=> Len(lines) = N
Terminates == <>(pc = "done")

Emit == (Export /\ pc = "done") => PrintT("SCRIPT " \o ToJson([mode |-> mode, size |-> size, script |-> script,
                                                                 exit |-> exit, lines |-> lines]))
=============================================================================
