------------------------------- MODULE Blake2 -------------------------------
(***************************************************************************)
(* The BLAKE2 standard as an executable specification: RFC 7693 for the    *)
(* compression function and sequential hashing, the BLAKE2 paper (sections *)
(* 2.5-2.10) for the parameter block, tree nodes and BLAKE2bp/BLAKE2sp.    *)
(*                                                                         *)
(* Variants: "b", "s" (sequential), "bp", "sp" (parallel trees).           *)
(***************************************************************************)
EXTENDS Words, TLC, SequencesExt

Variants == {"b", "s", "bp", "sp"}
Base(v)  == IF v \in {"b","bp"} THEN "b" ELSE "s"
IsTree(v) == v \in {"bp","sp"}
Fan(v)   == CASE v = "bp" -> 4 [] v = "sp" -> 8 [] OTHER -> 1
LimbsOf(v) == IF Base(v) = "b" THEN 4 ELSE 2            \* limbs per word
OutB(v)  == IF Base(v) = "b" THEN 64 ELSE 32            \* max digest = max key
BlkB(v)  == 2 * OutB(v)                                 \* block bytes
SaltB(v) == OutB(v) \div 4                              \* salt = personalization
CntL(v)  == 2 * LimbsOf(v)                              \* limbs of the byte counter

IVb == << <<51464,62396,58983,27145>>, <<42811,33994,44677,47975>>,
          <<63531,65172,62322,15470>>, <<14065,24349,62778,42319>>,
          <<33489,44518,21119,20750>>, <<27679,11070,26764,39685>>,
          <<48491,64321,55723,8067>>,  <<8569,4990,52505,23520>> >>
IVs == << <<58983,27145>>, <<44677,47975>>, <<62322,15470>>, <<62778,42319>>,
          <<21119,20750>>, <<26764,39685>>, <<55723,8067>>,  <<52505,23520>> >>
IV(v) == IF Base(v) = "b" THEN IVb ELSE IVs

Sigma == <<
  << 0, 1, 2, 3, 4, 5, 6, 7, 8, 9,10,11,12,13,14,15>>,
  <<14,10, 4, 8, 9,15,13, 6, 1,12, 0, 2,11, 7, 5, 3>>,
  <<11, 8,12, 0, 5, 2,15,13,10,14, 3, 6, 7, 1, 9, 4>>,
  << 7, 9, 3, 1,13,12,11,14, 2, 6, 5,10, 4, 0,15, 8>>,
  << 9, 0, 5, 7, 2, 4,10,15,14, 1,11,12, 6, 8, 3,13>>,
  << 2,12, 6,10, 0,11, 8, 3, 4,13, 7, 5,15,14, 1, 9>>,
  <<12, 5, 1,15,14,13, 4,10, 0, 7, 6, 3, 9, 2, 8,11>>,
  <<13,11, 7,14,12, 1, 3, 9, 5, 0,15, 4, 8, 6, 2,10>>,
  << 6,15,14, 9,11, 3, 0, 8,12, 2,13, 7, 1, 4,10, 5>>,
  <<10, 2, 8, 4, 7, 6, 1, 5,15,11, 9,14, 3,12,13, 0>> >>

------------------------------------------------------------------------------
(* Mixing functions *)
Gb(v,a,b,c,d,x,y) ==
  LET a1 == Add43(v[a],v[b],x)
      d1 == Rot32_4(Xor4(v[d],a1))
      c1 == Add4(v[c],d1)
      b1 == Rot24_4(Xor4(v[b],c1))
      a2 == Add43(a1,b1,y)
      d2 == Rot16_4(Xor4(d1,a2))
      c2 == Add4(c1,d2)
      b2 == Rot63_4(Xor4(b1,c2))
  IN [v EXCEPT ![a]=a2, ![b]=b2, ![c]=c2, ![d]=d2]
Gs(v,a,b,c,d,x,y) ==
  LET a1 == Add23(v[a],v[b],x)
      d1 == Rot16_2(Xor2(v[d],a1))
      c1 == Add2(v[c],d1)
      b1 == Rot12_2(Xor2(v[b],c1))
      a2 == Add23(a1,b1,y)
      d2 == Rot8_2(Xor2(d1,a2))
      c2 == Add2(c1,d2)
      b2 == Rot7_2(Xor2(b1,c2))
  IN [v EXCEPT ![a]=a2, ![b]=b2, ![c]=c2, ![d]=d2]

RoundB(v,m,s) ==
 LET v1 == Gb(v, 1,5, 9,13,m[s[1]+1], m[s[2]+1])
     v2 == Gb(v1,2,6,10,14,m[s[3]+1], m[s[4]+1])
     v3 == Gb(v2,3,7,11,15,m[s[5]+1], m[s[6]+1])
     v4 == Gb(v3,4,8,12,16,m[s[7]+1], m[s[8]+1])
     v5 == Gb(v4,1,6,11,16,m[s[9]+1], m[s[10]+1])
     v6 == Gb(v5,2,7,12,13,m[s[11]+1],m[s[12]+1])
     v7 == Gb(v6,3,8, 9,14,m[s[13]+1],m[s[14]+1])
 IN TLCEval(Gb(v7,4,5,10,15,m[s[15]+1],m[s[16]+1]))
RoundS(v,m,s) ==
 LET v1 == Gs(v, 1,5, 9,13,m[s[1]+1], m[s[2]+1])
     v2 == Gs(v1,2,6,10,14,m[s[3]+1], m[s[4]+1])
     v3 == Gs(v2,3,7,11,15,m[s[5]+1], m[s[6]+1])
     v4 == Gs(v3,4,8,12,16,m[s[7]+1], m[s[8]+1])
     v5 == Gs(v4,1,6,11,16,m[s[9]+1], m[s[10]+1])
     v6 == Gs(v5,2,7,12,13,m[s[11]+1],m[s[12]+1])
     v7 == Gs(v6,3,8, 9,14,m[s[13]+1],m[s[14]+1])
 IN TLCEval(Gs(v7,4,5,10,15,m[s[15]+1],m[s[16]+1]))

RECURSIVE RoundsB(_,_,_)
RoundsB(v,m,r) == IF r = 12 THEN v ELSE RoundsB(RoundB(v,m,Sigma[(r % 10)+1]),m,r+1)
RECURSIVE RoundsS(_,_,_)
RoundsS(v,m,r) == IF r = 10 THEN v ELSE RoundsS(RoundS(v,m,Sigma[(r % 10)+1]),m,r+1)

(* F: h (8 words), m (16 words), t (counter limbs), final flag, last-node flag *)
OnesL(k) == [i \in 1..k |-> 65535]
Compress(var, h, m, t, f0, f1) ==
  IF Base(var) = "b" THEN
    LET v0 == h \o << IVb[1], IVb[2], IVb[3], IVb[4],
                      Xor4(IVb[5], SubSeq(t,1,4)), Xor4(IVb[6], SubSeq(t,5,8)),
                      IF f0 THEN Xor4(IVb[7], OnesL(4)) ELSE IVb[7],
                      IF f1 THEN Xor4(IVb[8], OnesL(4)) ELSE IVb[8] >>
        v == TLCEval(RoundsB(v0, m, 0))
    IN TLCEval([i \in 1..8 |-> Xor4(h[i], Xor4(v[i], v[i+8]))])
  ELSE
    LET v0 == h \o << IVs[1], IVs[2], IVs[3], IVs[4],
                      Xor2(IVs[5], SubSeq(t,1,2)), Xor2(IVs[6], SubSeq(t,3,4)),
                      IF f0 THEN Xor2(IVs[7], OnesL(2)) ELSE IVs[7],
                      IF f1 THEN Xor2(IVs[8], OnesL(2)) ELSE IVs[8] >>
        v == TLCEval(RoundsS(v0, m, 0))
    IN TLCEval([i \in 1..8 |-> Xor2(h[i], Xor2(v[i], v[i+8]))])

------------------------------------------------------------------------------
(* Bytes and words (little-endian) *)
WordAt(v, bytes, w) ==        \* the w-th word (0-based) of a byte sequence
  IF LimbsOf(v) = 4
  THEN LET o == 8*w IN <<bytes[o+1]+256*bytes[o+2], bytes[o+3]+256*bytes[o+4],
                         bytes[o+5]+256*bytes[o+6], bytes[o+7]+256*bytes[o+8]>>
  ELSE LET o == 4*w IN <<bytes[o+1]+256*bytes[o+2], bytes[o+3]+256*bytes[o+4]>>
WordsToBytes(v, h) ==         \* all eight words, full width
  LET k == LimbsOf(v)
      limb(j) == h[(j \div k) + 1][(j % k) + 1]          \* j 0-based limb index
  IN TLCEval([i \in 1..OutB(v) |-> IF i % 2 = 1 THEN limb((i-1) \div 2) % 256
                                                ELSE limb((i-1) \div 2) \div 256])
LimbBytes(a) == [i \in 1..(2*Len(a)) |-> IF i % 2 = 1 THEN a[(i+1) \div 2] % 256
                                                     ELSE a[i \div 2] \div 256]
Zeros(n) == [i \in 1..n |-> 0]
PadTo(b, n) == b \o Zeros(n - Len(b))

(* One block of a byte sequence: bytes p+1 .. p+BlkB, zero padded, as 16 words; p is a multiple of BlkB *)
BlockWords(v, bytes, p) ==
  LET blk == TLCEval(IF p + BlkB(v) <= Len(bytes) THEN bytes ELSE PadTo(SubSeq(bytes, p+1, Len(bytes)), BlkB(v)))
      w0 == IF p + BlkB(v) <= Len(bytes) THEN p \div (2 * LimbsOf(v)) ELSE 0
  IN TLCEval([w \in 1..16 |-> WordAt(v, blk, w0 + w-1)])

------------------------------------------------------------------------------
(* Parameters.  A parameter record:                                          *)
(*   hl, kl, fo, md, nd, ihl : 0..255 ; key, salt, pers : byte sequences     *)
(*   mll : 2 limbs ; no : 4 limbs ; ln : BOOLEAN (last node)                 *)
DefaultPrm(v) ==
  [hl |-> OutB(v), key |-> << >>, salt |-> << >>, pers |-> << >>,
   fo |-> 1, md |-> 1, mll |-> <<0,0>>, no |-> <<0,0,0,0>>, nd |-> 0, ihl |-> 0,
   ln |-> FALSE]

ParamBlock(v, p) ==
  IF Base(v) = "b" THEN
    <<p.hl, Len(p.key), p.fo, p.md>> \o LimbBytes(p.mll) \o LimbBytes(p.no)
      \o <<p.nd, p.ihl>> \o Zeros(14) \o PadTo(p.salt,16) \o PadTo(p.pers,16)
  ELSE
    <<p.hl, Len(p.key), p.fo, p.md>> \o LimbBytes(p.mll) \o LimbBytes(SubSeq(p.no,1,3))
      \o <<p.nd, p.ihl>> \o PadTo(p.salt,8) \o PadTo(p.pers,8)

H0(v, p) ==
  LET pb == ParamBlock(v, p)
  IN TLCEval(IF Base(v) = "b" THEN [i \in 1..8 |-> Xor4(IVb[i], WordAt(v, pb, i-1))]
                              ELSE [i \in 1..8 |-> Xor2(IVs[i], WordAt(v, pb, i-1))])

(* Sequential hashing of `data` (which already includes the key block) from  *)
(* chaining value h; `t0` is the byte counter before the first block.        *)
Absorb(v, h, data, p, t0, ln) ==
  LET rest == Len(data) - p
      full == IF rest <= BlkB(v) THEN 0 ELSE (rest - 1) \div BlkB(v)     \* blocks before the last
      at(k) == p + k * BlkB(v)
      mid == FoldLeft(LAMBDA c, k : Compress(v, c, BlockWords(v, data, at(k-1)), AddI(t0, at(k)), FALSE, FALSE),
                      h, [k \in 1..full |-> k])
  IN Compress(v, mid, BlockWords(v, data, at(full)), AddI(t0, p + rest), TRUE, ln)

KeyBlock(v, p) == IF Len(p.key) = 0 THEN << >> ELSE PadTo(p.key, BlkB(v))

(* Full-width output of one node *)
NodeOut(v, p, withKey, msg, t0) ==
  WordsToBytes(v, Absorb(v, H0(v, p), TLCEval((IF withKey THEN KeyBlock(v, p) ELSE << >>) \o msg),
                         0, t0, p.ln))

(* The blocks of msg dealt to leaf i (0-based) of an n-leaf parallel tree *)
LeafMsg(v, msg, i, n) ==
  LET nb == (Len(msg) + BlkB(v) - 1) \div BlkB(v)        \* number of blocks
      RECURSIVE Deal(_)
      Deal(b) == IF b >= nb THEN << >>
                 ELSE SubSeq(msg, b*BlkB(v)+1,
                             IF (b+1)*BlkB(v) < Len(msg) THEN (b+1)*BlkB(v) ELSE Len(msg))
                      \o Deal(b+n)
  IN Deal(i)

TreePrm(v, p, off, depth, last) ==
  [DefaultPrm(v) EXCEPT !.hl = p.hl, !.key = p.key, !.fo = Fan(v), !.md = 2,
     !.no = IntL(off, 4), !.nd = depth, !.ihl = OutB(v), !.ln = last]

LeafOut(v, p, msg, i, t0) ==
  NodeOut(v, TreePrm(v, p, i, 0, i = Fan(v)-1), TRUE, LeafMsg(v, msg, i, Fan(v)), t0)

TreeDigest(v, p, msg, t0) ==
  LET RECURSIVE Cat(_)
      Cat(i) == IF i = Fan(v) THEN << >> ELSE LeafOut(v, p, msg, i, t0) \o Cat(i+1)
      root == NodeOut(v, TreePrm(v, p, 0, 1, TRUE), FALSE, Cat(0), ZeroL(CntL(v)))
  IN SubSeq(root, 1, p.hl)

(* The digest of a byte sequence under any variant.  t0 is zero except in    *)
(* the counter checks (C07), where it stands for "t0 bytes were compressed   *)
(* before" (per leaf for the trees).                                         *)
DigestT(v, p, msg, t0) ==
  IF IsTree(v) THEN TreeDigest(v, p, msg, t0)
  ELSE SubSeq(NodeOut(v, p, TRUE, msg, t0), 1, p.hl)
Digest(v, p, msg) == DigestT(v, p, msg, ZeroL(CntL(v)))

------------------------------------------------------------------------------
(* Message bytes.  A segment <<seed, off, len>> denotes bytes off..off+len-1 *)
(* of the infinite stream number `seed`; the harness uses the same formula.  *)
(* Stream 100000*(p+1) + s is stream s with its byte p changed: kin.         *)
PlainByte(seed, i) ==
  IF seed = 0 THEN 0 ELSE IF seed = 1 THEN 255
  ELSE ((i % 251) * (2*seed + 1) + (i \div 251) * 7 + (i \div 64) * 13 + seed * 31) % 256
StreamByte(seed, i) ==
  IF seed < 100000 THEN PlainByte(seed, i)
  ELSE LET b == PlainByte(seed % 100000, i) IN IF i = (seed \div 100000) - 1 THEN (b + 1) % 256 ELSE b
SegBytes(g) == TLCEval([i \in 1..g[3] |-> StreamByte(g[1], g[2] + i - 1)])
RECURSIVE SegsBytes(_)
SegsBytes(gs) == IF gs = << >> THEN << >> ELSE SegBytes(Head(gs)) \o SegsBytes(Tail(gs))
=============================================================================
