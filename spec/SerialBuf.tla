----------------------------- MODULE SerialBuf -----------------------------
(***************************************************************************)
(* The incremental BLAKE2b/BLAKE2s hasher as it is built: a one-block      *)
(* buffer in front of a compression loop.                                  *)
(*                                                                         *)
(* The byte stream of a state is its key block (if any) followed by its    *)
(* message; a byte is identified by its position in that stream.  `fed` is *)
(* the abstract state - how much of the stream was given - and everything  *)
(* else is the implementation's bookkeeping.  Each action is one public    *)
(* call, with the same case distinctions as the code: State::update,       *)
(* io::Write::write, many::update_many.                                    *)
(*                                                                         *)
(* What is to hold (C02, C06, C07, C15): the bytes handed to the           *)
(* compression function are the stream, in order, without gap or overlap,  *)
(* in whole blocks, never including the last byte given so far (so that    *)
(* finalize always has a real last block), and the state after a call is a *)
(* function of the number of bytes given, not of how they were cut up.     *)
(*                                                                         *)
(* TLC explores all histories for a real block size up to MaxFed bytes;    *)
(* Apalache shows Inv inductive for calls and streams of any length.       *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
  \* @type: Int;
  B,                 \* block size
  \* @type: Int;
  MaxFed             \* bound of the explored streams (TLC only)

VARIABLES
  \* @type: Bool;
  keyed,
  \* @type: Int;
  fed,               \* bytes of the stream given so far
  \* @type: Int;
  comp,              \* bytes compressed so far (all as non-final blocks)
  \* @type: Int;
  cnt,               \* the state's counter field
  \* @type: Int;
  bufAt,             \* stream position of the first byte of the buffer
  \* @type: Int;
  buflen,
  \* @type: Bool;
  ok,                \* every step so far was a legal one
  \* @type: <<Int, Int, Str>>;
  last               \* the call that led here: (bytes given before, length, kind)

vars == <<keyed, fed, comp, cnt, bufAt, buflen, ok, last>>
\* @type: (Int, Int) => Int;
MinI(a, b) == IF a < b THEN a ELSE b
\* @type: (Int, Int) => Int;
Sat(a, b) == IF a < b THEN 0 ELSE a - b

Init ==
  /\ keyed \in BOOLEAN
  /\ fed = IF keyed THEN B ELSE 0
  /\ comp = 0 /\ cnt = 0 /\ bufAt = 0
  /\ buflen = fed
  /\ ok = TRUE
  /\ last = <<0, 0, "new">>

(* compress_buffer_if_possible and fill_buf; the input starts at `fed` *)
Take1(n) == IF buflen > 0 THEN MinI(B - buflen, n) ELSE 0
Rem1(n) == n - Take1(n)
Flush(n) == buflen > 0 /\ Rem1(n) > 0
Comp1(n) == comp + (IF Flush(n) THEN B ELSE 0)
Cnt1(n)  == cnt + (IF Flush(n) THEN B ELSE 0)
Buf1(n)  == IF Flush(n) THEN 0 ELSE buflen + Take1(n)
(* the buffer must be full, contiguous with what was compressed, and more must follow *)
FlushOk(n) == Flush(n) => /\ buflen + Take1(n) = B
                          /\ bufAt = comp
                          /\ comp + B < fed + n
(* bytes [a, a+l) of the stream are compressed as whole non-final blocks after c bytes were *)
RunOk(c, a, l, n) == l > 0 => /\ a = c /\ l % B = 0 /\ a + l < fed + n
(* bytes [a, a+l) are appended to a buffer that holds b bytes starting at stream position s *)
FillOk(s, b, a, l) == l > 0 => /\ b + l <= B /\ (b > 0 => s + b = a)

Update(n) ==
  LET a1  == fed + Take1(n)                         \* where the rest of the input starts
      e0  == Sat(Rem1(n), 1)
      e   == e0 - (e0 % B)                            \* compressed straight from the input
      r   == Rem1(n) - e                            \* buffered
      tk  == MinI(B - Buf1(n), r)
  IN /\ ok' = /\ ok
              /\ FillOk(bufAt, buflen, fed, Take1(n))
              /\ FlushOk(n)
              /\ RunOk(Comp1(n), a1, e, n)
              /\ FillOk(IF Buf1(n) = 0 THEN a1 + e ELSE bufAt, Buf1(n), a1 + e, tk)
              /\ tk = r                             \* nothing is dropped
     /\ comp' = Comp1(n) + e
     /\ cnt' = Cnt1(n) + e
     /\ buflen' = Buf1(n) + tk
     /\ bufAt' = IF Buf1(n) = 0 THEN a1 + e ELSE bufAt
     /\ fed' = fed + n
     /\ last' = <<fed, n, "update">>
     /\ UNCHANGED keyed

UpdateMany(n) ==
  LET a1 == fed + Take1(n)
      lb == (Rem1(n) - 1) - ((Rem1(n) - 1) % B)       \* start of the last block of the rest
      r  == Rem1(n) - lb
  IN /\ last' = <<fed, n, "many">>
     /\ fed' = fed + n
     /\ UNCHANGED keyed
     /\ IF Rem1(n) = 0
        THEN /\ ok' = (ok /\ FillOk(bufAt, buflen, fed, Take1(n)) /\ FlushOk(n))
             /\ comp' = Comp1(n) /\ cnt' = Cnt1(n) /\ buflen' = Buf1(n) /\ UNCHANGED bufAt
        ELSE /\ ok' = /\ ok
                      /\ FillOk(bufAt, buflen, fed, Take1(n))
                      /\ FlushOk(n)
                      /\ Buf1(n) = 0                \* overwriting the buffer loses nothing
                      /\ r <= B
                      /\ RunOk(Comp1(n), a1, lb, n)
             /\ comp' = Comp1(n) + lb
             /\ cnt' = Cnt1(n) + lb
             /\ buflen' = r
             /\ bufAt' = a1 + lb

Next == \E n \in 0..(MaxFed - fed) : Update(n) \/ UpdateMany(n)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
TypeInv == /\ fed >= 0 /\ comp >= 0 /\ cnt >= 0 /\ buflen \in 0..B /\ bufAt >= 0
           /\ keyed => fed >= B
(* The state is a function of the stream: C02, C06 *)
Canonical ==
  /\ buflen = (IF fed = 0 THEN 0 ELSE ((fed - 1) % B) + 1)
  /\ comp = fed - buflen
  /\ comp % B = 0
  /\ buflen > 0 => bufAt = comp
(* count(): C07 *)
Counted == cnt = comp /\ (IF keyed THEN cnt + buflen - B ELSE cnt + buflen) = (IF keyed THEN fed - B ELSE fed)
Inv == TypeInv /\ ok /\ Canonical /\ Counted

(* Apalache: one step of any length from any state that satisfies Inv *)
IndInit ==
  /\ keyed \in BOOLEAN
  /\ ok = TRUE
  /\ last = <<0, 0, "new">>
  /\ fed \in Nat /\ comp \in Nat /\ cnt \in Nat /\ bufAt \in Nat /\ buflen \in Nat
  /\ Inv
IndNext == \E n \in Nat : Update(n) \/ UpdateMany(n)
ConstB128 == B = 128 /\ MaxFed = 0
ConstB64 == B = 64 /\ MaxFed = 0
View == <<keyed, fed, comp, cnt, bufAt, buflen, ok>>
=============================================================================
