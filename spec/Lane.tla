-------------------------------- MODULE Lane --------------------------------
(***************************************************************************)
(* One job of a batch as seen from its lane (many::compress_many and the   *)
(* N-lane loops): whatever the other jobs are, however the scheduler picks *)
(* degrees, all that ever happens to a job is a sequence of runs, each of  *)
(* some number of rounds that does not exceed what the job itself has left. *)
(* ManySched.tla (LaneSteps) checks that the scheduler's turns are such     *)
(* runs; here the runs of one job are shown correct for inputs of any       *)
(* length and any number of rounds, by an invariant that Apalache proves    *)
(* inductive: the blocks given to the compression function are, one after   *)
(* another, those that hashing the job alone would give it, with the same   *)
(* counters and final flag, and no whole-block read leaves the input.       *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS
  \* @type: Int;
  B,
  \* @type: Int;
  Fan        \* 1: an independent job;  D: a leaf, whose blocks lie D blocks apart

VARIABLES
  \* @type: Int;
  len,       \* the job's input: from its first byte to the end of the batch's input
  \* @type: Int;
  start,     \* its counter at the beginning
  \* @type: Bool;
  fin,       \* finalize at the end of the input?
  \* @type: Int;
  off,       \* input consumed
  \* @type: Int;
  cnt,
  \* @type: Int;
  blocks,    \* blocks compressed so far
  \* @type: Bool;
  ok
lane == <<len, start, fin, off, cnt, blocks, ok>>
Pad == Fan * B
\* @type: (Int, Int) => Int;
MinI(a, b) == IF a < b THEN a ELSE b
\* @type: (Int, Int) => Int;
Sat(a, b) == IF a < b THEN 0 ELSE a - b
Rest == len - off
Down(n) == n - (n % Pad)
OwnRounds == Down(Sat(Rest, 1)) \div Pad

(* What hashing the job alone compresses: block k (from 0) of Total. *)
Total == IF len = 0 THEN 1 ELSE (len + Pad - 1) \div Pad
SizeOf(k) == MinI(B, Sat(len, k * Pad))
(* What a run of q+1 rounds from `off` on gives the compression function in round r. *)
RoundAt(q, r) == off + (IF r = q THEN MinI(r * Pad, Rest) ELSE r * Pad)
RoundSize(q, r) == IF r = q THEN MinI(B, Sat(Rest, q * Pad)) ELSE B
RoundCount(q, r) == cnt + r * B + RoundSize(q, r)
RoundFinal(q, r) == r = q /\ fin /\ Sat(Rest, MinI(q * Pad, Rest)) <= (IF RoundSize(q, q) = B THEN Pad ELSE B)
RoundOk(q, r) ==
  /\ RoundAt(q, r) = MinI((blocks + r) * Pad, len)
  /\ RoundSize(q, r) = SizeOf(blocks + r)
  /\ RoundCount(q, r) = start + (blocks + r) * B + SizeOf(blocks + r)
  /\ RoundFinal(q, r) = (fin /\ blocks + r = Total - 1)
  /\ RoundSize(q, r) > 0 => RoundAt(q, r) + RoundSize(q, r) <= len

Over == blocks = Total
(* A run of q+1 rounds; r is an arbitrary one of them. *)
Run(q, r) ==
  /\ q <= OwnRounds /\ r <= q
  /\ ok' = (ok /\ RoundOk(q, r))
  /\ off' = off + MinI(q * Pad + Pad, Rest)
  /\ cnt' = RoundCount(q, q)
  /\ blocks' = blocks + q + 1
  /\ UNCHANGED <<len, start, fin>>

Inputs == /\ len >= 0 /\ start >= 0
          /\ ~fin => len > 0 /\ len % B = 0
Init == /\ len \in Nat /\ start \in Nat /\ fin \in BOOLEAN /\ Inputs
        /\ off = 0 /\ cnt = start /\ blocks = 0 /\ ok = TRUE
Next == ~Over /\ \E q \in Nat, r \in Nat : Run(q, r)
Inv == /\ Inputs /\ ok
       /\ blocks >= 0 /\ blocks <= Total
       /\ off = MinI(blocks * Pad, len)
       /\ Over => off = len
       /\ cnt = start + (IF blocks = 0 THEN 0 ELSE (blocks - 1) * B + SizeOf(blocks - 1))
       /\ ~Over => (blocks = 0 \/ (off < len /\ cnt = start + blocks * B))
IndInit == /\ len \in Nat /\ start \in Nat /\ fin \in BOOLEAN
           /\ off \in Nat /\ cnt \in Nat /\ blocks \in Nat /\ ok = TRUE
           /\ Inv
ConstB == B = 128 /\ Fan = 1
ConstS == B = 64 /\ Fan = 1
ConstBp == B = 128 /\ Fan = 4
ConstSp == B = 64 /\ Fan = 8
=============================================================================
