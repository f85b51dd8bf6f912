----------------------------- MODULE SerialTour -----------------------------
(* Every transition of SerialBuf, with a shortest way to it: the calls are  *)
(* replayed into the code with the block size scaled up (vf/models.py).     *)
EXTENDS SerialBuf, Sequences, TLC, Json
VARIABLE hist
tvars == <<vars, hist>>
TInit == Init /\ hist = << >>
TNext == \E n \in 0..(MaxFed - fed) :
           \/ Update(n) /\ hist' = Append(hist, <<"u", fed, n>>)
           \/ UpdateMany(n) /\ hist' = Append(hist, <<"m", fed, n>>)
TSpec == TInit /\ [][TNext]_tvars
Emit == PrintT("GEN " \o ToJson([k |-> keyed, h |-> hist', b |-> buflen', c |-> comp']))
=============================================================================
