------------------------------- MODULE CliOpt -------------------------------
(***************************************************************************)
(* What a command line of `blake2` means (C13, C14).                       *)
(* A command line is a list of items <<name, raw>>, raw being the bytes of *)
(* the value as typed (<< >> for flags), plus a list of inputs.            *)
(***************************************************************************)
EXTENDS Blake2

Flags   == {"b", "s", "p", "mmap", "last-node"}
Numbers == {"length", "fanout", "max-depth", "max-leaf-length", "node-offset", "node-depth", "inner-hash-length"}
Hexes   == {"key", "salt", "personal"}
TreeOpts == (Numbers \ {"length"}) \cup {"salt", "personal", "last-node"}  \* not available with -p

HasItem(it, n) == \E i \in DOMAIN it : it[i][1] = n
VariantOf(it) == IF HasItem(it, "s") THEN (IF HasItem(it, "p") THEN "sp" ELSE "s")
                                     ELSE (IF HasItem(it, "p") THEN "bp" ELSE "b")

(* decimal: eight limbs, so that nothing the checks type can wrap *)
IsDigit(c) == c \in 48..57
AllDigits(r) == Len(r) > 0 /\ \A i \in DOMAIN r : IsDigit(r[i])
RECURSIVE DecFrom(_,_,_)
DecFrom(r, i, acc) == IF i > Len(r) THEN acc ELSE DecFrom(r, i+1, AddI(MulL(acc, 10), r[i] - 48))
Dec(r) == DecFrom(r, 1, ZeroL(8))
Plus(r) == Len(r) > 1 /\ r[1] = 43
Digits(r) == IF Plus(r) THEN Tail(r) ELSE r
IsNum(r) == AllDigits(Digits(r))
(* notations on which the property takes no position: accepted (with the obvious meaning) or refused *)
OddNum(r) == Plus(r) \/ (Len(r) > 1 /\ r[1] = 48)

IsHexC(c) == c \in 48..57 \/ c \in 97..102 \/ c \in 65..70
Nib(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE c - 55
IsHex(r) == Len(r) % 2 = 0 /\ \A i \in DOMAIN r : IsHexC(r[i])
HexBytes(r) == TLCEval([i \in 1..(Len(r) \div 2) |-> 16 * Nib(r[2*i-1]) + Nib(r[2*i])])
OddHex(r) == Len(r) = 0 \/ \E i \in DOMAIN r : r[i] \in 65..70

Bits(x, k) == \A i \in (k+1)..8 : x[i] = 0        \* fits k limbs

(* Is this one value well formed and in range for the variant? *)
ValueOK(v, n, r) ==
  CASE n \in Flags -> TRUE
    [] n \in Numbers ->
         IsNum(r) /\ LET x == Dec(Digits(r)) IN
           (CASE n = "length" -> LeI(x, OutB(v)) /\ ~LeI(x, 0)
              [] n = "inner-hash-length" -> LeI(x, OutB(v))
              [] n \in {"fanout", "max-depth", "node-depth"} -> LeI(x, 255)
              [] n = "max-leaf-length" -> Bits(x, 2)
              [] n = "node-offset" -> Bits(x, IF Base(v) = "b" THEN 4 ELSE 3))
    [] n = "key" -> IsHex(r) /\ Len(r) \div 2 <= OutB(v)
    [] n \in {"salt", "personal"} -> IsHex(r) /\ Len(r) \div 2 <= SaltB(v)
    [] OTHER -> FALSE                              \* unknown flag

Bad(it, nin) ==
  \/ HasItem(it, "b") /\ HasItem(it, "s")
  \/ HasItem(it, "p") /\ \E i \in DOMAIN it : it[i][1] \in TreeOpts
  \/ \E i \in DOMAIN it : ~ValueOK(VariantOf(it), it[i][1], it[i][2])
  \/ nin = 0 /\ HasItem(it, "mmap")
Grey(it) ==
  \/ \E i, k \in DOMAIN it : i # k /\ it[i][1] = it[k][1]
  \/ \E i \in DOMAIN it : it[i][1] \in Numbers /\ OddNum(it[i][2])
  \/ \E i \in DOMAIN it : it[i][1] \in Hexes /\ OddHex(it[i][2])
  \* two ways to say what the default says anyway are no contradiction
Verdict(it, nin) == IF Bad(it, nin) THEN "bad" ELSE IF Grey(it) THEN "grey" ELSE "ok"

ApplyItem(p, it) ==
  LET n == it[1]  r == it[2]  x == Dec(Digits(r)) IN
  CASE n = "length" -> [p EXCEPT !.hl = ToInt(x)]
    [] n = "inner-hash-length" -> [p EXCEPT !.ihl = ToInt(x)]
    [] n = "fanout" -> [p EXCEPT !.fo = ToInt(x)]
    [] n = "max-depth" -> [p EXCEPT !.md = ToInt(x)]
    [] n = "node-depth" -> [p EXCEPT !.nd = ToInt(x)]
    [] n = "max-leaf-length" -> [p EXCEPT !.mll = SubSeq(x, 1, 2)]
    [] n = "node-offset" -> [p EXCEPT !.no = SubSeq(x, 1, 4)]
    [] n = "key" -> [p EXCEPT !.key = HexBytes(r)]
    [] n = "salt" -> [p EXCEPT !.salt = HexBytes(r)]
    [] n = "personal" -> [p EXCEPT !.pers = HexBytes(r)]
    [] n = "last-node" -> [p EXCEPT !.ln = TRUE]
    [] OTHER -> p
RECURSIVE ApplyFrom(_,_,_)
ApplyFrom(p, it, i) == IF i > Len(it) THEN p ELSE ApplyFrom(ApplyItem(p, it[i]), it, i+1)
PrmOf(it) == ApplyFrom(DefaultPrm(VariantOf(it)), it, 1)
=============================================================================
