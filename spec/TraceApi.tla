------------------------------ MODULE TraceApi ------------------------------
(***************************************************************************)
(* Log validation: every recorded public call of the real crates must be *)
(* a step of Api.tla with the observed result.  The trace is linear, so    *)
(* TLC visits exactly one state per accepted line; Accepted compares the   *)
(* depth reached with the length of the trace.                             *)
(***************************************************************************)
EXTENDS Api, TLCExt, Json, IOUtils

VARIABLE l

TDebug == IOEnv.TDEBUG = "1"
TPlatform == IOEnv.TPLATFORM         \* implementation the build must select, or "any"
DegFor(v) == CASE TPlatform = "portable" -> 1
               [] TPlatform = "sse41" -> IF v = "b" THEN 2 ELSE 4
               [] TPlatform = "avx2"  -> IF v = "b" THEN 4 ELSE 8
               [] OTHER -> 0

TDig(v, prm, segs, base) == DigestT(v, prm, SegsBytes(segs), base)   \* Dig <- TDig, see TraceApi.cfg

Log == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<P, S, J, H, l>>

Hex == <<48,49,50,51,52,53,54,55,56,57,97,98,99,100,101,102>>
HexOf(b) == [i \in 1..(2*Len(b)) |-> LET x == b[(i+1) \div 2]
                                     IN IF i % 2 = 1 THEN Hex[(x \div 16)+1] ELSE Hex[(x % 16)+1]]

(* Public fields shown by Debug: each recognised field must be truthful.     *)
(* A field is <<name, kind, value>>, kind "n" (number, 8 limbs), "l" (byte    *)
(* list) or "b" (boolean, 0/1).  Fields printed in another form than the one *)
(* expected here are not judged, nor are fields the spec does not know.      *)
Num8(x) == x \o ZeroL(8 - Len(x))
PrmField(v, p, name) ==
  CASE name = "hash_length"       -> <<"n", IntL(p.hl, 8)>>
    [] name = "key_length"        -> <<"n", IntL(Len(p.key), 8)>>
    [] name = "salt"              -> <<"l", PadTo(p.salt, SaltB(v))>>
    [] name = "personal"          -> <<"l", PadTo(p.pers, SaltB(v))>>
    [] name = "fanout"            -> <<"n", IntL(p.fo, 8)>>
    [] name = "max_depth"         -> <<"n", IntL(p.md, 8)>>
    [] name = "max_leaf_length"   -> <<"n", Num8(p.mll)>>
    [] name = "node_offset"       -> <<"n", Num8(p.no)>>
    [] name = "node_depth"        -> <<"n", IntL(p.nd, 8)>>
    [] name = "inner_hash_length" -> <<"n", IntL(p.ihl, 8)>>
    [] name = "last_node"         -> <<"b", IF p.ln THEN 1 ELSE 0>>
    [] OTHER -> <<"?">>
Same(want, f) == want[1] = f[2] => want[2] = f[3]
PrmFieldOK(v, p, f) == Same(PrmField(v, p, f[1]), f)
StFieldOK(st, f) ==
  IF f[1] = "count" THEN Same(<<"n", Num8(CountOf(st))>>, f)
  ELSE PrmFieldOK(st.v, st.prm, f)
JobFieldOK(j, f) ==
  IF f[1] = "count" THEN TRUE         \* bytes the job starts at, an internal notion
  ELSE IF f[1] = "input_len" THEN Same(<<"n", IntL(j.seg[3], 8)>>, f)
  ELSE PrmFieldOK(j.v, j.prm, f)

(* r: the recorded result.  hv: the specification's hash for hash-producing calls *)
Match(op, r, hv) ==
  IF Unspecified(op) THEN TRUE
  ELSE IF Panics(op) THEN r.k = "panic" /\ r.t = r.t2
  ELSE
  CASE ProducesHash(op) -> r.k = "bytes" /\ r.b = hv.val
    [] op[1] = "scnt" -> r.k = "cnt" /\ r.n = Num8(CountOf(S[op[2]]))
    [] op[1] = "swr"  -> r.k = "num" /\ r.n = op[3][3]
    [] op[1] = "srep" -> r.k = "num" /\ r.n = op[3][3]
    \* how many of the batch came out differently than one at a time
    [] op[1] = "bulk" -> r.k = "num" /\ r.n = 0
    [] op[1] \in {"hby","hasref"} -> r.k = "bytes" /\ r.b = H[op[2]].val
    [] op[1] = "harr" -> r.k = "bytes" /\ r.b = H[op[2]].val
    [] op[1] \in {"hhex","hdbg"} -> r.k = "chars" /\ r.b = HexOf(H[op[2]].val)
    [] op[1] = "heq"  -> r.k = "bool" /\ r.v = (IF H[op[2]].val = H[op[3]].val THEN 1 ELSE 0)
    [] op[1] = "heqs" -> r.k = "bool" /\ r.v = (IF H[op[2]].val = Mut(H[op[3]].val, op[4]) THEN 1 ELSE 0)
    [] op[1] = "pdbg" -> r.k = "dbg" /\ r.t = r.t2
                         /\ \A i \in DOMAIN r.f : PrmFieldOK(P[op[2]].v, P[op[2]].prm, r.f[i])
    [] op[1] = "sdbg" -> r.k = "dbg" /\ r.t = r.t2
                         /\ \A i \in DOMAIN r.f : StFieldOK(S[op[2]], r.f[i])
    [] op[1] = "jdbg" -> r.k = "dbg" /\ r.t = r.t2
                         /\ \A i \in DOMAIN r.f : JobFieldOK(J[op[2]], r.f[i])
    [] op[1] = "max"  -> r.k = "num" /\ r.n >= 1
    [] op[1] = "deg"  -> r.k = "num" /\ r.n >= 1 /\ r.n <= r.max /\ (TPlatform # "any" => r.n = DegFor(op[2]))
    [] OTHER -> r.k = "ok"

HashArg(op) ==
  IF ProducesHash(op) /\ ~Panics(op) /\ ~Unspecified(op) THEN HashOf(op)
  ELSE IF op[1] = "hfrom" THEN [val |-> ToArr(H[op[3]].v, Mut(H[op[3]].val, op[4]))]
  ELSE [val |-> << >>]

Expl(op, hv) == [exp |-> hv.val, panics |-> Panics(op)]

TInit == Init /\ l = 1
Reset == P' = << >> /\ S' = << >> /\ J' = << >> /\ H' = << >>
Step ==
  /\ l <= Len(Log)
  /\ LET e == Log[l] op == e.o IN
       IF op[1] = "reset" THEN Reset
       ELSE IF ~Enabled(op) THEN PrintT(<<"NOTENABLED", l, op>>) /\ FALSE
       ELSE LET hv == TLCEval(HashArg(op)) IN
            IF Match(op, e.r, hv) THEN Effect(op, hv)
            ELSE PrintT(<<"REJECT", l, ToJson(op), ToJson(e.r), ToJson(Expl(op, hv))>>) /\ FALSE
  /\ l' = l + 1
TSpec == TInit /\ [][Step]_tvars
TypeInv == TypeOK
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
