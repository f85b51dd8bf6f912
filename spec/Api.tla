-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The public API of blake2b_simd / blake2s_simd as a state machine.       *)
(*                                                                         *)
(* Objects live in numbered slots:                                         *)
(*   P - parameter builders   S - hashing states                           *)
(*   J - batch jobs           H - Hash values                              *)
(* One operation (`op`, a tuple whose first element is its name) is one    *)
(* public call.  Effect(op) is its transition; Allowed(op, r) says which   *)
(* observed results r the specification permits in the current state.      *)
(*                                                                         *)
(* Messages are symbolic: a state carries the sequence of segments it has  *)
(* absorbed.  How they were split, buffered or batched is not part of the  *)
(* abstract state - which is exactly the guarantee (C02, C03, C06).        *)
(***************************************************************************)
EXTENDS Blake2

CONSTANTS
  Dig(_,_,_,_),        \* Dig(v, prm, segs, base) : digest value (bytes, or a symbolic term)
  DebugBuild           \* TRUE iff debug assertions are compiled in

VARIABLES P, S, J, H
vars == <<P, S, J, H>>

Init == P = << >> /\ S = << >> /\ J = << >> /\ H = << >>

Put(f, k, x) == (k :> x) @@ f
Has(f, k) == k \in DOMAIN f

------------------------------------------------------------------------------
(* Legal parameter values (C09).  Numbers arrive as limb tuples, byte        *)
(* strings as segments.                                                      *)
LegalSet(v, field, x) ==
  CASE field = "hl"  -> LeI(x, OutB(v)) /\ ~LeI(x, 0)
    [] field = "ihl" -> LeI(x, OutB(v))
    [] field = "key" -> x[3] <= OutB(v)
    [] field \in {"salt","pers"} -> x[3] <= SaltB(v)
    [] field = "no"  -> Base(v) = "b" \/ x[4] = 0
    [] OTHER -> TRUE
SetPrm(p, field, x) ==
  CASE field = "hl"   -> [p EXCEPT !.hl = ToInt(x)]
    [] field = "ihl"  -> [p EXCEPT !.ihl = ToInt(x)]
    [] field = "key"  -> [p EXCEPT !.key = SegBytes(x)]
    [] field = "salt" -> [p EXCEPT !.salt = SegBytes(x)]
    [] field = "pers" -> [p EXCEPT !.pers = SegBytes(x)]
    [] field = "fo"   -> [p EXCEPT !.fo = ToInt(x)]
    [] field = "md"   -> [p EXCEPT !.md = ToInt(x)]
    [] field = "mll"  -> [p EXCEPT !.mll = SubSeq(x, 1, 2)]
    [] field = "no"   -> [p EXCEPT !.no = x]
    [] field = "nd"   -> [p EXCEPT !.nd = ToInt(x)]
    [] field = "ln"   -> [p EXCEPT !.ln = (x[1] = 1)]
(* The tree variants expose only these two setters. *)
FieldOf(v, field) == ~IsTree(v) \/ field \in {"hl", "key"}

NewState(v, prm) == [v |-> v, prm |-> prm, segs |-> << >>, n |-> 0, base |-> ZeroL(CntL(v))]
Absorbed(st, g) == IF g[3] = 0 THEN st
                   ELSE [st EXCEPT !.segs = Append(@, g), !.n = @ + g[3]]
HashVal(v, prm, segs, base) == [v |-> v, len |-> prm.hl, val |-> Dig(v, prm, segs, base)]
StHash(st) == HashVal(st.v, st.prm, st.segs, st.base)

(* count(): message bytes absorbed.  For the trees the base is per leaf.     *)
CountOf(st) == AddI(MulL(st.base, Fan(st.v)), st.n)

(* Byte-string mutations used to build slices/arrays to compare with.        *)
Mut(b, m) ==
  CASE m[1] = "id"   -> b
    [] m[1] = "pre"  -> SubSeq(b, 1, IF m[2] < Len(b) THEN m[2] ELSE Len(b))
    [] m[1] = "ext"  -> Append(b, m[2])
    [] m[1] = "flip" -> LET i == ((m[2] \div 8) % Len(b)) + 1
                        IN [b EXCEPT ![i] = @ ^^ (2^(m[2] % 8))]
    [] m[1] = "rot"  -> SubSeq(b, 2, Len(b)) \o <<b[1]>>
ToArr(v, b) == [i \in 1..OutB(v) |-> IF i <= Len(b) THEN b[i] ELSE 0]

------------------------------------------------------------------------------
(* Is the operation applicable (do its objects exist, types match)?          *)
Enabled(op) ==
  CASE op[1] \in {"pnew","pdef"}        -> TRUE
    [] op[1] = "pset"                   -> Has(P, op[2]) /\ FieldOf(P[op[2]].v, op[3])
    [] op[1] \in {"pcl","pst","phash","pdbg","fp","fs","jnew"} ->
         Has(P, IF op[1] = "jnew" THEN op[3] ELSE op[2])
         /\ (op[1] = "jnew" => ~IsTree(P[op[3]].v))
    [] op[1] \in {"snew","sdef","one","deg","max"}    -> TRUE
    [] op[1] \in {"supd","swr","sfl","scnt","sfin","scl","smv","sdbg","sbase"} -> Has(S, op[2])
    [] op[1] = "srep"                   -> /\ Has(S, op[2]) /\ op[4] > 0
                                           /\ op[5] \in {"m","v"} => ~IsTree(S[op[2]].v)
    [] op[1] = "bulk"                   -> ~IsTree(op[2]) /\ op[4] > 0
    [] op[1] = "sln"                    -> Has(S, op[2]) /\ ~IsTree(S[op[2]].v)
    [] op[1] = "um" -> /\ \A i \in DOMAIN op[3] : /\ Has(S, op[3][i][1])
                                                   /\ S[op[3][i][1]].v = op[2]
                       /\ \A i, k \in DOMAIN op[3] : i # k => op[3][i][1] # op[3][k][1]
    [] op[1] = "hm" -> /\ \A i \in DOMAIN op[3] : Has(J, op[3][i]) /\ J[op[3][i]].v = op[2]
                       /\ \A i, k \in DOMAIN op[3] : i # k => op[3][i] # op[3][k]
    [] op[1] \in {"jhash","jcl","jdbg","jbase"} -> Has(J, op[2])
    [] op[1] \in {"hby","hasref","harr","hhex","hdbg","hcp"} -> Has(H, op[2])
    [] op[1] \in {"heq","heqs","hfrom"} -> Has(H, op[2]) /\ Has(H, op[3]) /\ H[op[2]].v = H[op[3]].v
    [] OTHER -> FALSE

(* Does the call panic according to the specification? *)
Panics(op) ==
  CASE op[1] = "pset"  -> ~LegalSet(P[op[2]].v, op[3], op[4])
    [] op[1] = "jhash" -> DebugBuild /\ ~J[op[2]].done
    [] op[1] = "harr"  -> DebugBuild /\ H[op[2]].len # OutB(H[op[2]].v)
    [] OTHER -> FALSE

(* In release builds these two calls are merely unspecified when misused.    *)
Unspecified(op) ==
  \/ op[1] = "jhash" /\ ~DebugBuild /\ ~J[op[2]].done
  \/ op[1] = "harr"  /\ ~DebugBuild /\ H[op[2]].len # OutB(H[op[2]].v)

------------------------------------------------------------------------------
(* Transitions.  The Hash produced by an operation (if any) is passed in, so *)
(* that trace validation evaluates each digest once.                         *)
ProducesHash(op) == op[1] \in {"phash","one","sfin","jhash"}
HashOf(op) ==
  CASE op[1] = "phash" -> HashVal(P[op[2]].v, P[op[2]].prm, <<op[3]>>, ZeroL(CntL(P[op[2]].v)))
    [] op[1] = "one"   -> HashVal(op[2], DefaultPrm(op[2]), <<op[3]>>, ZeroL(CntL(op[2])))
    [] op[1] = "sfin"  -> StHash(S[op[2]])
    [] op[1] = "jhash" -> HashVal(J[op[2]].v, J[op[2]].prm, <<J[op[2]].seg>>, J[op[2]].base)
HashSlot(op) == CASE op[1] \in {"phash","one"} -> op[4] [] OTHER -> op[3]

RECURSIVE UpdMany(_,_,_)
UpdMany(st, ps, i) == IF i > Len(ps) THEN st
                      ELSE UpdMany(Put(st, ps[i][1], Absorbed(st[ps[i][1]], ps[i][2])), ps, i+1)
RECURSIVE RunMany(_,_,_)
RunMany(js, l, i) == IF i > Len(l) THEN js
                     ELSE RunMany(Put(js, l[i], [js[l[i]] EXCEPT !.done = TRUE]), l, i+1)

Stutter == UNCHANGED vars

Effect(op, hv) ==
  IF Panics(op) \/ Unspecified(op) THEN Stutter
  ELSE
  CASE op[1] \in {"pnew","pdef"} ->
         P' = Put(P, op[2], [v |-> op[3], prm |-> DefaultPrm(op[3])]) /\ UNCHANGED <<S,J,H>>
    [] op[1] = "pset" ->
         P' = [P EXCEPT ![op[2]].prm = SetPrm(@, op[3], op[4])] /\ UNCHANGED <<S,J,H>>
    [] op[1] = "pcl" -> P' = Put(P, op[3], P[op[2]]) /\ UNCHANGED <<S,J,H>>
    [] op[1] = "pst" -> S' = Put(S, op[3], NewState(P[op[2]].v, P[op[2]].prm)) /\ UNCHANGED <<P,J,H>>
    [] op[1] \in {"snew","sdef"} ->
         S' = Put(S, op[2], NewState(op[3], DefaultPrm(op[3]))) /\ UNCHANGED <<P,J,H>>
    \* srep: the segment arrives in op[4] calls (of the way op[5]); only the bytes matter
    [] op[1] \in {"supd","swr","srep"} ->
         S' = [S EXCEPT ![op[2]] = Absorbed(@, op[3])] /\ UNCHANGED <<P,J,H>>
    [] op[1] = "sln" -> S' = [S EXCEPT ![op[2]].prm.ln = (op[3] = 1)] /\ UNCHANGED <<P,J,H>>
    [] op[1] = "scl" -> S' = Put(S, op[3], S[op[2]]) /\ UNCHANGED <<P,J,H>>
    [] op[1] = "sbase" -> S' = [S EXCEPT ![op[2]].base = AddL(@, SubSeq(op[3], 1, Len(@)))] /\ UNCHANGED <<P,J,H>>
    [] op[1] = "um" -> S' = UpdMany(S, op[3], 1) /\ UNCHANGED <<P,J,H>>
    [] op[1] = "jnew" ->
         LET p == P[op[3]] IN
         J' = Put(J, op[2], [v |-> p.v, prm |-> p.prm, seg |-> op[4], base |-> ZeroL(CntL(p.v)),
                             done |-> (op[4][3] = 0 /\ Len(p.prm.key) > 0)])
         /\ UNCHANGED <<P,S,H>>
    [] op[1] = "jbase" -> J' = [J EXCEPT ![op[2]].base = AddL(@, SubSeq(op[3], 1, Len(@)))] /\ UNCHANGED <<P,S,H>>
    [] op[1] = "hm" -> J' = RunMany(J, op[3], 1) /\ UNCHANGED <<P,S,H>>
    [] op[1] = "jcl" -> J' = Put(J, op[3], J[op[2]]) /\ UNCHANGED <<P,S,H>>
    [] ProducesHash(op) -> H' = Put(H, HashSlot(op), hv) /\ UNCHANGED <<P,S,J>>
    [] op[1] = "hcp" -> H' = Put(H, op[3], H[op[2]]) /\ UNCHANGED <<P,S,J>>
    [] op[1] = "hfrom" ->            \* Hash::from([u8; OUTBYTES]) of mutated bytes into slot op[5]
         H' = Put(H, op[5], [v |-> H[op[3]].v, len |-> OutB(H[op[3]].v), val |-> hv.val])
         /\ UNCHANGED <<P,S,J>>
    [] OTHER -> Stutter     \* observers: pdbg sdbg jdbg sfl scnt smv fp hby hasref harr hhex hdbg heq heqs deg max,
                            \* and bulk: a batch of fresh objects nobody else sees

------------------------------------------------------------------------------
(* Abstract-state invariants *)
TypeOK ==
  /\ \A k \in DOMAIN P : P[k].v \in Variants /\ P[k].prm.hl \in 1..OutB(P[k].v)
                         /\ Len(P[k].prm.key) <= OutB(P[k].v)
                         /\ Len(P[k].prm.salt) <= SaltB(P[k].v) /\ Len(P[k].prm.pers) <= SaltB(P[k].v)
                         /\ P[k].prm.ihl \in 0..OutB(P[k].v)
  /\ \A k \in DOMAIN S : S[k].n >= 0
  /\ \A k \in DOMAIN H : H[k].len \in 1..OutB(H[k].v)
=============================================================================
