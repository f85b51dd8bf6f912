------------------------------- MODULE GenApi -------------------------------
(***************************************************************************)
(* Behaviours of Api.tla, generated by TLC and replayed into the crates.   *)
(*                                                                         *)
(* Digests are symbolic terms here, so that TLC explores the state machine *)
(* and not the compression function.  With a small universe of operations  *)
(* the breadth-first search enumerates EVERY history of Depth operations   *)
(* after a given start (each history is its own state); with a large one,  *)
(* `tlc -simulate` samples long histories.  Each is printed as the list of *)
(* calls to make, followed by observations of every object that exists:    *)
(* what the calls may observe is decided when the replay is judged         *)
(* (TraceApi.tla).                                                         *)
(***************************************************************************)
EXTENDS Api, Json

CONSTANTS Universe,    \* set of operations
          Starts,      \* set of sequences of operations to begin with
          Depth,       \* operations after the start
          Show        \* print the histories?

VARIABLES hist, todo
gvars == <<P, S, J, H, hist, todo>>

SymDig(v, prm, segs, base) == <<v, prm, segs, base>>
SymHash(op) ==
  IF ProducesHash(op) /\ ~Panics(op) /\ ~Unspecified(op) THEN HashOf(op)
  ELSE IF op[1] = "hfrom" THEN [val |-> <<"from", H[op[3]], op[4]>>]
  ELSE [val |-> << >>]

GInit == Init /\ hist = << >> /\ todo \in {<<s, Depth>> : s \in Starts}
GNext ==
  IF todo[1] # << >>
  THEN LET op == Head(todo[1]) IN
       /\ Assert(Enabled(op), <<"the start is not a behaviour", op>>)
       /\ Effect(op, SymHash(op))
       /\ hist' = Append(hist, op)
       /\ todo' = <<Tail(todo[1]), todo[2]>>
  ELSE
     \/ /\ todo[2] > 0
        /\ \E op \in Universe :
             /\ Enabled(op)
             /\ Effect(op, SymHash(op))
             /\ hist' = Append(hist, op)
             /\ todo' = <<todo[1], todo[2] - 1>>
     \/ /\ todo[2] = 0           \* one more step, so that a random walk prints one history
        /\ todo' = <<todo[1], -1>>
        /\ UNCHANGED <<P, S, J, H, hist>>
GSpec == GInit /\ [][GNext]_gvars

RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
Slots(f) == SetToSortSeq(DOMAIN f, LAMBDA a, b : a < b)
Each(f, F(_)) == LET k == Slots(f) IN Flat([i \in DOMAIN k |-> F(k[i])])
(* Look at everything there is: hash slots 400.. are free. *)
Closing ==
     Each(S, LAMBDA k : << <<"scnt", k>>, <<"sdbg", k>>, <<"sfin", k, 400 + k>> >>)
  \o Each(J, LAMBDA k : IF J[k].done THEN << <<"jdbg", k>>, <<"jhash", k, 420 + k>> >> ELSE << <<"jdbg", k>> >>)
  \o Each(P, LAMBDA k : << <<"pdbg", k>>, <<"phash", k, <<9, 0, 70>>, 440 + k>>, <<"hby", 440 + k>> >>)
  \o Each(H, LAMBDA k : << <<"hby", k>>, <<"hhex", k>> >>)
Done == todo[1] = << >> /\ todo[2] = -1
Emit == (Show /\ Done) => PrintT("GEN " \o ToJson(hist \o Closing))

------------------------------------------------------------------------------
(* Action properties of the abstract machine, over the same histories. *)
Touched(op) ==      \* the objects a call may change
  CASE op[1] \in {"pnew","pdef","pset"} -> {<<"P", op[2]>>}
    [] op[1] = "pcl" -> {<<"P", op[3]>>}
    [] op[1] = "pst" -> {<<"S", op[3]>>}
    [] op[1] \in {"snew","sdef","supd","swr","srep","sln","sbase"} -> {<<"S", op[2]>>}
    [] op[1] = "scl" -> {<<"S", op[3]>>}
    [] op[1] = "um" -> {<<"S", op[3][i][1]>> : i \in DOMAIN op[3]}
    [] op[1] \in {"jnew","jbase"} -> {<<"J", op[2]>>}
    [] op[1] = "jcl" -> {<<"J", op[3]>>}
    [] op[1] = "hm" -> {<<"J", op[3][i]>> : i \in DOMAIN op[3]}
    [] ProducesHash(op) -> {<<"H", HashSlot(op)>>}
    [] op[1] = "hcp" -> {<<"H", op[3]>>}
    [] op[1] = "hfrom" -> {<<"H", op[5]>>}
    [] OTHER -> {}
Same2(kind, f, g, t) == \A k \in DOMAIN f : <<kind, k>> \notin t => k \in DOMAIN g /\ g[k] = f[k]
(* C16, C04: a call changes only the objects it is about; observers none. *)
Frame == [][ hist' # hist =>
             LET op == hist'[Len(hist')] t == IF Panics(op) THEN {} ELSE Touched(op)
             IN Same2("P", P, P', t) /\ Same2("S", S, S', t) /\ Same2("J", J, J', t) /\ Same2("H", H, H', t) ]_gvars
(* C02: nothing but the bytes in order is remembered of a state's history. *)
SegLen(ss) == FoldFunction(LAMBDA g, n : n + g[3], 0, ss)
Streams == \A k \in DOMAIN S : SegLen(S[k].segs) = S[k].n
=============================================================================
