------------------------------ MODULE ParBuf ------------------------------
(***************************************************************************)
(* The incremental BLAKE2bp/BLAKE2sp hasher as it is built: D leaves behind *)
(* one buffer of two stripes.  (A stripe is one block for every leaf.)     *)
(*                                                                         *)
(* Byte p of the stream (key stripe, if any, followed by the message)      *)
(* belongs to block p \div B of the stream, and that block to leaf         *)
(* (p \div B) % D.  What is to hold (C03, C07, C15): stripes are handed to *)
(* the leaves in order and aligned, no leaf is ever given its last block   *)
(* before finalize, nothing is dropped or read beyond the input, and at    *)
(* finalize each leaf that had any input finds its last block in the       *)
(* buffer.                                                                 *)
(*                                                                         *)
(* Unlike the serial hasher the state is not a function of the stream      *)
(* alone: the buffer may hold between (D-1) blocks + 1 byte and two        *)
(* stripes.  The digest still is, which is what AtFinalize says.           *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
  \* @type: Int;
  B,
  \* @type: Int;
  D,
  \* @type: Int;
  MaxFed

VARIABLES
  \* @type: Bool;
  keyed,
  \* @type: Int;
  fed,
  \* @type: Int;
  comp,          \* bytes of the stream compressed into the leaves
  \* @type: Int;
  cnt,           \* the counter field: bytes per leaf
  \* @type: Int;
  bufAt,
  \* @type: Int;
  buflen,
  \* @type: Bool;
  ok,
  \* @type: <<Int, Int, Int>>;
  last           \* buffered bytes and stream length before the call, bytes given
vars == <<keyed, fed, comp, cnt, bufAt, buflen, ok, last>>

Stripe == D * B
\* @type: (Int, Int) => Int;
MinI(a, b) == IF a < b THEN a ELSE b
\* @type: (Int, Int) => Int;
Sat(a, b) == IF a < b THEN 0 ELSE a - b

Init ==
  /\ keyed \in BOOLEAN
  /\ fed = IF keyed THEN Stripe ELSE 0
  /\ comp = 0 /\ cnt = 0 /\ bufAt = 0 /\ buflen = fed
  /\ ok = TRUE /\ last = <<0, 0, 0>>

(* compress_to_leaves on l bytes of the stream from a on, after c bytes were compressed; f bytes
   of the stream are known to exist.  Leaf i is handed the slice from a + i*B on and compresses
   every D-th block of it. *)
LeavesOk(a, l, c, f) ==
  l > 0 => /\ a = c                         \* in order
           /\ a % Stripe = 0                \* leaf i gets the blocks that are its own
           /\ l % Stripe = 0
           /\ a + l <= f
           /\ f - (a + l) > (D - 1) * B     \* more is known to follow for every leaf

(* the first part of update: complete the buffer *)
Take1(n) == IF buflen > 0 THEN MinI(2 * Stripe - buflen, n) ELSE 0
Rem1(n)  == n - Take1(n)
Full(n)  == buflen > 0 /\ Rem1(n) > 0
Both(n)  == Full(n) /\ Rem1(n) > (D - 1) * B
One(n)   == Full(n) /\ ~Both(n)
Flushed(n) == IF Both(n) THEN 2 * Stripe ELSE IF One(n) THEN Stripe ELSE 0
(* the buffer after it *)
Len1(n)  == IF Both(n) THEN 0 ELSE IF One(n) THEN Stripe ELSE buflen + Take1(n)
At1(n)   == IF One(n) THEN bufAt + Stripe ELSE bufAt

Update(n) ==
  LET a1   == fed + Take1(n)
      b0   == Sat(Rem1(n), (D - 1) * B + 1)
      bulk == b0 - (b0 % Stripe)
      a2   == a1 + bulk
      r    == Rem1(n) - bulk
      tk   == MinI(2 * Stripe - Len1(n), r)
  IN /\ ok' = /\ ok
              /\ Take1(n) > 0 => bufAt + buflen = fed               \* appended in order
              /\ Full(n) => /\ buflen + Take1(n) = 2 * Stripe       \* stale bytes are not compressed
                            /\ LeavesOk(bufAt, Flushed(n), comp, fed + n)
              /\ bulk > 0 => Len1(n) = 0                            \* nothing is overtaken
              /\ LeavesOk(a1, bulk, comp + Flushed(n), fed + n)
              /\ (tk > 0 /\ Len1(n) > 0) => At1(n) + Len1(n) = a2
              /\ tk = r
     /\ comp' = comp + Flushed(n) + bulk
     /\ cnt' = cnt + (Flushed(n) \div D) + (bulk \div D)
     /\ buflen' = Len1(n) + tk
     /\ bufAt' = IF Len1(n) = 0 THEN a2 ELSE At1(n)
     /\ fed' = fed + n
     /\ last' = <<buflen, fed, n>>
     /\ UNCHANGED keyed

Next == \E n \in 0..(MaxFed - fed) : Update(n)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
TypeInv == /\ fed >= 0 /\ comp >= 0 /\ cnt >= 0 /\ bufAt >= 0 /\ buflen \in 0..(2 * Stripe)
           /\ keyed => fed >= Stripe
Buffered == /\ comp + buflen = fed
            /\ comp % Stripe = 0
            /\ buflen > 0 => bufAt = comp
            /\ fed > 0 => buflen > 0
(* finalize: leaf i compresses the rest of the buffer from its own first block on, and finalizes
   with the last of these blocks - or with an empty one if it never had any input *)
AtFinalize == \A i \in 0..(D-1) :
  LET rest == Sat(buflen, i * B) IN
  IF fed > i * B THEN rest > 0 ELSE rest = 0 /\ comp = 0
Counted == /\ cnt * D = comp
           /\ cnt * D + buflen = fed
Inv == TypeInv /\ ok /\ Buffered /\ AtFinalize /\ Counted

IndInit ==
  /\ keyed \in BOOLEAN /\ ok = TRUE /\ last = <<0, 0, 0>>
  /\ fed \in Nat /\ comp \in Nat /\ cnt \in Nat /\ bufAt \in Nat /\ buflen \in Nat
  /\ Inv
IndNext == \E n \in Nat : Update(n)
ConstBp == B = 128 /\ D = 4 /\ MaxFed = 0
ConstSp == B = 64 /\ D = 8 /\ MaxFed = 0
View == <<keyed, fed, comp, cnt, bufAt, buflen, ok>>
=============================================================================
