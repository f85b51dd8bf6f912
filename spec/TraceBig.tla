------------------------------ MODULE TraceBig ------------------------------
(***************************************************************************)
(* Messages of more than 2^32 bytes.  Each line of the log is a digest     *)
(* (and count) the real code produced, together with a checkpoint of the   *)
(* standard's own computation a few blocks before the end: per node the    *)
(* chaining value h, the byte counter t and the pending bytes buf.  The    *)
(* spec continues every node across the 2^32 boundary to the end and       *)
(* compares the digests, and checks that the checkpointed counters add up  *)
(* to the message length.                                                  *)
(***************************************************************************)
EXTENDS Blake2, TLCExt, Json, IOUtils

VARIABLE l
Log == ndJsonDeserialize(IOEnv.TRACE)

ZC(e) == ZeroL(CntL(e.v))
NodeEnd(e, i, last) ==
  WordsToBytes(e.v, Absorb(e.v, e.nodes[i+1].h,
    TLCEval(e.nodes[i+1].buf \o (IF IsTree(e.v) THEN LeafMsg(e.v, e.tail, i, Fan(e.v)) ELSE e.tail)),
    0, e.nodes[i+1].t, last))
Expected(e) ==
  IF ~IsTree(e.v) THEN NodeEnd(e, 0, FALSE)
  ELSE LET RECURSIVE Cat(_)
           Cat(i) == IF i = Fan(e.v) THEN << >> ELSE NodeEnd(e, i, i = Fan(e.v)-1) \o Cat(i+1)
       IN NodeOut(e.v, TreePrm(e.v, [DefaultPrm(e.v) EXCEPT !.key = e.key], 0, 1, TRUE), FALSE, Cat(0), ZC(e))

(* sum of the nodes' counters and pending bytes, less the key blocks, plus the tail = length *)
RECURSIVE SumT(_,_)
SumT(e, i) == IF i > Len(e.nodes) THEN ZeroL(8)
              ELSE AddI(AddL(e.nodes[i].t \o ZeroL(8 - Len(e.nodes[i].t)), SumT(e, i+1)), Len(e.nodes[i].buf))
KeyBytes(e) == IF Len(e.key) = 0 THEN 0 ELSE BlkB(e.v) * Fan(e.v)
LengthOK(e) == AddI(SumT(e, 1), Len(e.tail)) = AddI(e.len \o ZeroL(4), KeyBytes(e))
(* count(), where the object has one *)
CountOK(e) == e.count = << >> \/ e.count = e.len \o ZeroL(4)

Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET e == Log[l] IN
           IF LengthOK(e) /\ Expected(e) = e.out /\ CountOK(e) THEN TRUE
           ELSE PrintT(<<"REJECT", l, e.v, LengthOK(e), CountOK(e), e.len, e.count, Expected(e)>>) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
