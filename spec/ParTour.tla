------------------------------ MODULE ParTour ------------------------------
(* Every transition of ParBuf, with a shortest way to it (see SerialTour).  *)
EXTENDS ParBuf, Sequences, TLC, Json
VARIABLE hist
tvars == <<vars, hist>>
TInit == Init /\ hist = << >>
TNext == \E n \in 0..(MaxFed - fed) : Update(n) /\ hist' = Append(hist, <<"u", fed, n>>)
TSpec == TInit /\ [][TNext]_tvars
Emit == PrintT("GEN " \o ToJson([k |-> keyed, h |-> hist', b |-> buflen', c |-> comp']))
=============================================================================
