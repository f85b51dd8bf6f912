------------------------------- MODULE Vectors -------------------------------
(* Validation of the executable standard itself: the vectors published with   *)
(* BLAKE2 (a selection of blake2-kat.json) and digests of another             *)
(* implementation (Python's hashlib) for arbitrary parameters, so that the    *)
(* specification which judges the code is not itself derived from it.         *)
EXTENDS Blake2, Json, IOUtils
Vecs == JsonDeserialize(IOEnv.KAT)
VARIABLE i
Prm(e) == IF "prm" \in DOMAIN e
          THEN [e.prm EXCEPT !.ln = (@ = 1)]
          ELSE [DefaultPrm(e.v) EXCEPT !.key = e.key]
Check(e) == LET d == Digest(e.v, Prm(e), e.msg)
            IN IF d = e.out THEN TRUE ELSE PrintT(<<"VECTOR MISMATCH", i, e.v, d>>) /\ FALSE
Init == i = 1
Next == i <= Len(Vecs) /\ Check(Vecs[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Vecs)
=============================================================================
