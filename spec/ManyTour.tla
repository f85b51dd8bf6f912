------------------------------ MODULE ManyTour ------------------------------
(* Every batch that ManySched runs to its end, to be run by the code too.   *)
EXTENDS ManySched, Json
Emit == Over => PrintT("GEN " \o ToJson([f |-> fin, l |-> len]))
=============================================================================
