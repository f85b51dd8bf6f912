------------------------------ MODULE GenSets ------------------------------
(***************************************************************************)
(* The universes of operations that GenApi enumerates.                     *)
(***************************************************************************)
EXTENDS GenApi

N(x) == IntL(x, 4)
G(seed, len) == <<seed, 0, len>>
SetHl(p, n)   == <<"pset", p, "hl", N(n)>>
SetKey(p, n)  == <<"pset", p, "key", G(3, n)>>
Row(v) == Fan(v) * BlkB(v)

(* One state and its clone: every history of calls on them (C02, C03, C04, C07). *)
SerialStarts(v) ==
  { << <<"pnew", 0, v>>, <<"pst", 0, 0>> >>,
    << <<"pnew", 0, v>>, SetKey(0, 5), SetHl(0, 20), <<"pst", 0, 0>> >> }
SerialOps(v) ==
  { <<"supd", 0, G(11, 1)>>, <<"supd", 0, G(12, BlkB(v) - 1)>>, <<"supd", 0, G(13, BlkB(v))>>,
    <<"supd", 0, G(14, 2 * Row(v) + 1)>>, <<"swr", 0, G(15, Row(v))>>, <<"supd", 1, G(16, 3)>>,
    <<"sfin", 0, 0>>, <<"scl", 0, 1>>, <<"scl", 1, 0>>, <<"sfin", 1, 1>> }
  \cup (IF IsTree(v) THEN {<<"supd", 0, G(17, Row(v) - BlkB(v) + 1)>>}
        ELSE {<<"sln", 0, 1>>, <<"sln", 1, 0>>})
SerialB == SerialOps("b")   SerialBs == SerialStarts("b")
SerialS == SerialOps("s")   SerialSs == SerialStarts("s")
SerialBp == SerialOps("bp") SerialBps == SerialStarts("bp")
SerialSp == SerialOps("sp") SerialSps == SerialStarts("sp")

(* Jobs and batches of them in every order, repeated and cloned (C05). *)
ManyStarts(v) ==
  { << <<"pnew", 0, v>>, <<"pnew", 1, v>>, SetKey(1, 7),
       <<"jnew", 0, 0, G(21, BlkB(v) + 1)>>, <<"jnew", 1, 1, G(22, 2 * BlkB(v))>>, <<"jnew", 2, 0, G(23, 0)>> >>,
    << <<"pnew", 0, v>>, <<"pnew", 1, v>>, SetKey(1, OutB(v)), SetHl(1, 9), <<"pset", 1, "ln", N(1)>>,
       <<"jnew", 0, 1, G(21, 5 * BlkB(v))>>, <<"jnew", 1, 0, G(22, 1)>>, <<"jnew", 2, 1, G(23, 0)>> >> }
ManyOps(v) ==
  { <<"jcl", 0, 1>>, <<"jcl", 1, 0>>, <<"jcl", 2, 3>>, <<"jnew", 0, 1, G(24, 3 * BlkB(v))>>,
    <<"jnew", 3, 1, G(25, BlkB(v))>>, <<"jhash", 0, 0>>, <<"jhash", 3, 1>> }
  \cup { <<"hm", v, l>> : l \in { <<0>>, <<0,1>>, <<1,0>>, <<2,0,1>>, <<1,2,0,3>>, <<3,0>>, << >> } }
ManyB == ManyOps("b") ManyBs == ManyStarts("b")
ManyS == ManyOps("s") ManySs == ManyStarts("s")

(* Several states updated together and alone (C06). *)
UManyStarts(v) ==
  { << <<"pnew", 0, v>>, <<"pnew", 1, v>>, SetKey(1, 7), <<"pst", 0, 0>>, <<"pst", 1, 1>>, <<"pst", 0, 2>>, <<"pst", 1, 3>>, <<"pst", 0, 4>>,
       <<"supd", 2, G(30, BlkB(v) - 1)>>, <<"supd", 3, G(31, BlkB(v))>> >> }
UManyOps(v) ==
  { <<"um", v, << <<0, G(32, 1)>>, <<1, G(33, 1)>> >> >>,
    <<"um", v, << <<1, G(34, 2 * BlkB(v) + 1)>>, <<0, G(35, 2 * BlkB(v))>> >> >>,
    <<"um", v, << <<2, G(36, BlkB(v))>>, <<3, G(37, 0)>>, <<0, G(38, BlkB(v) + 1)>> >> >>,
    <<"um", v, << <<0, G(39, 3 * BlkB(v))>>, <<1, G(40, BlkB(v))>>, <<2, G(41, 3 * BlkB(v))>>, <<3, G(42, 4 * BlkB(v) + 2)>>, <<4, G(43, 5)>> >> >>,
    <<"um", v, << <<4, G(44, BlkB(v) + 2)>> >> >>,
    <<"supd", 0, G(45, BlkB(v))>>, <<"supd", 2, G(46, 1)>>, <<"scl", 0, 3>>, <<"sfin", 1, 1>>, <<"sln", 0, 1>> }
UManyB == UManyOps("b") UManyBs == UManyStarts("b")
UManyS == UManyOps("s") UManySs == UManyStarts("s")

(* Builders: every order of setting, overriding, cloning and using (C08, C09). *)
ParamStarts(v) == { << <<"pnew", 0, v>> >> }
ParamOps(v) ==
  { SetKey(0, 5), <<"pset", 0, "key", G(4, OutB(v))>>, SetKey(0, 0), SetKey(0, OutB(v) + 1),
    SetHl(0, 7), SetHl(0, 0), SetHl(0, 256 + 7),
    <<"pset", 0, "salt", G(5, 3)>>, <<"pset", 0, "salt", G(6, SaltB(v))>>, <<"pset", 0, "salt", G(6, SaltB(v) + 1)>>,
    <<"pset", 0, "pers", G(7, 2)>>, <<"pset", 0, "pers", G(8, SaltB(v))>>,
    <<"pset", 0, "fo", N(0)>>, <<"pset", 0, "no", N(300)>>, <<"pset", 0, "nd", N(2)>>, <<"pset", 0, "ihl", N(20)>>,
    <<"pset", 0, "ihl", N(OutB(v) + 1)>>, <<"pset", 0, "ln", N(1)>>, <<"pset", 0, "ln", N(0)>>,
    <<"pst", 0, 0>>, <<"pcl", 0, 1>>, <<"pcl", 1, 0>> }
ParamB == ParamOps("b") ParamBs == ParamStarts("b")
ParamS == ParamOps("s") ParamSs == ParamStarts("s")
ParamTreeOps(v) ==
  { SetKey(0, 5), <<"pset", 0, "key", G(4, OutB(v))>>, SetKey(0, 0), SetKey(0, OutB(v) + 1),
    SetHl(0, 7), SetHl(0, 0), SetHl(0, OutB(v)), SetHl(0, OutB(v) + 1),
    <<"pst", 0, 0>>, <<"supd", 0, G(10, Row(v) + 1)>>, <<"pcl", 0, 1>>, <<"pcl", 1, 0>> }
ParamBp == ParamTreeOps("bp") ParamBps == ParamStarts("bp")
ParamSp == ParamTreeOps("sp") ParamSps == ParamStarts("sp")

(* Hash values (C11, C12). *)
HashStarts(v) ==
  { << <<"pnew", 0, v>>, <<"phash", 0, G(50, 3), 0>>, SetHl(0, 5), <<"phash", 0, G(50, 3), 1>> >> }
HashOps(v) ==
  { <<"hcp", 0, 1>>, <<"hcp", 1, 0>>, <<"heq", 0, 1>>, <<"heq", 1, 0>>, <<"phash", 0, G(51, 9), 0>>,
    <<"hfrom", 0, 1, <<"id", 0>>, 0>>, <<"hfrom", 0, 1, <<"flip", 9>>, 1>>, <<"hfrom", 0, 0, <<"rot", 0>>, 1>>,
    <<"harr", 0>>, <<"harr", 1>>, <<"hhex", 1>>, <<"hdbg", 0>>, <<"hasref", 1>>,
    <<"heqs", 0, 1, <<"id", 0>>>>, <<"heqs", 1, 0, <<"pre", 5>>>>, <<"heqs", 1, 1, <<"ext", 0>>>> }
HashB == HashOps("b") HashBs == HashStarts("b")
HashS == HashOps("s") HashSs == HashStarts("s")

(* Everything together, for random long histories (tlc -simulate). *)
MixStarts == { << <<"pnew", 0, "b">>, <<"pst", 0, 0>>, <<"pnew", 1, "s">>, <<"pst", 1, 1>> >>,
               << <<"pnew", 0, "bp">>, <<"pst", 0, 0>>, <<"pnew", 1, "sp">>, <<"pst", 1, 1>> >> }
Both(F(_)) == F("b") \cup F("s")
MixOps ==
  Both(ManyOps) \cup Both(UManyOps) \cup Both(HashOps) \cup Both(ParamOps)
  \cup UNION {SerialOps(v) : v \in Variants}
  \cup {<<"pnew", p, v>> : p \in 0..1, v \in Variants}
  \cup {<<"pst", p, s>> : p \in 0..1, s \in 0..4}
  \cup {<<"phash", p, G(60 + p, 200 * p + 11), p>> : p \in 0..1}
  \cup {<<"one", v, G(63, 130), h>> : v \in Variants, h \in 0..1}
  \cup {<<"snew", 4, v>> : v \in Variants}
Mix == MixOps
Mixs == MixStarts
=============================================================================
