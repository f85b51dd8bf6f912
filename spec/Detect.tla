------------------------------- MODULE Detect -------------------------------
(***************************************************************************)
(* Selection of an implementation (C10).  A machine is a set of CPU        *)
(* features plus whether the operating system saves the YMM registers; a   *)
(* build is std or no_std with a set of features promised at compile time. *)
(* Boot picks any machine that can run the build; Select picks, for each   *)
(* crate, an implementation; Run executes the instruction classes of what  *)
(* was selected.  Safe says no unsupported instruction is ever executed    *)
(* and the reported degree describes what runs.                            *)
(*                                                                         *)
(* The same predicate RowOK judges rows measured on the real crates by     *)
(* single-stepping under emulated CPUs (env ROWS, see harness/src/cpu.rs). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Feat == <<"ssse3", "sse4.1", "avx", "avx2">>          \* each implies the ones before it
UpTo(k) == {Feat[i] : i \in 1..k}
Machines == {[f |-> UpTo(k), ymm |-> y] : k \in 0..4, y \in BOOLEAN}
Builds == {[std |-> s, ct |-> c] : s \in BOOLEAN, c \in {{}, UpTo(2), UpTo(4)}}

(* What the machine can execute: AVX needs the OS *)
Usable(m) == IF m.ymm THEN m.f ELSE m.f \ {"avx", "avx2"}
CanRun(b, m) == b.ct \subseteq Usable(m)

Impls == {"portable", "sse41", "avx2"}
Needs(i) == CASE i = "portable" -> {} [] i = "sse41" -> UpTo(2) [] i = "avx2" -> UpTo(4)
Supported(i, b, m) == Needs(i) \subseteq Usable(m)
(* What a build is able to find out: compile-time promises, or detection with std *)
Known(b, m) == b.ct \cup (IF b.std THEN Usable(m) ELSE {})
Pick(b, m) == IF Needs("avx2") \subseteq Known(b, m) THEN "avx2"
              ELSE IF Needs("sse41") \subseteq Known(b, m) THEN "sse41" ELSE "portable"

Degree(c, i) == CASE i = "portable" -> 1
                  [] i = "sse41" -> IF c = "b" THEN 2 ELSE 4
                  [] i = "avx2" -> IF c = "b" THEN 4 ELSE 8
MaxDegree(c) == IF c = "b" THEN 4 ELSE 8
(* instruction classes an implementation may execute, besides compile-time ones *)
Classes(i) == CASE i = "portable" -> {} [] i = "sse41" -> {"ssse3", "sse4.1"}
                [] i = "avx2" -> {"ssse3", "sse4.1", "avx2"}

VARIABLES pc, mach, bld, sel, ran
vars == <<pc, mach, bld, sel, ran>>
Init == pc = "off" /\ mach = [f |-> {}, ymm |-> FALSE] /\ bld = [std |-> FALSE, ct |-> {}] /\ sel = << >> /\ ran = {}
Boot == pc = "off" /\ \E b \in Builds, m \in Machines :
          CanRun(b, m) /\ pc' = "on" /\ mach' = m /\ bld' = b /\ UNCHANGED <<sel, ran>>
Select == pc = "on" /\ pc' = "ready" /\ sel' = Pick(bld, mach) /\ UNCHANGED <<mach, bld, ran>>
Run == pc = "ready" /\ ran' = Classes(sel) \cup bld.ct /\ UNCHANGED <<pc, mach, bld, sel>>
Next == Boot \/ Select \/ Run
Spec == Init /\ [][Next]_vars

Safe == /\ ran \subseteq Usable(mach)
        /\ pc = "ready" => Supported(sel, bld, mach)
        /\ pc = "ready" => \A c \in {"b","s"} : Degree(c, sel) \in 1..MaxDegree(c)
(* Different implementations have different degrees: the degree names the implementation *)
DegreeInjective == \A c \in {"b","s"}, i, k \in Impls : Degree(c, i) = Degree(c, k) => i = k

------------------------------------------------------------------------------
(* Measured rows: [std, ct, f (features), ymm, deg |-> <<b,s>>, max, parts]  *)
(* parts: <<name, crate, lanes?, vex, sse41, ssse3, sse42>> counts           *)
Rows == ndJsonDeserialize(IOEnv.ROWS)
Range(s) == {s[i] : i \in DOMAIN s}
ImplsOfDegree(c, d) == {i \in Impls : Degree(c, i) = d}
Mach(r) == [f |-> Range(r.f), ymm |-> r.ymm = 1]
Bld(r)  == [std |-> r.std = 1, ct |-> Range(r.ct)]
DegOK(r, c, d) == /\ d \in 1..MaxDegree(c)
                  /\ \E i \in ImplsOfDegree(c, d) : Supported(i, Bld(r), Mach(r))
(* classes seen in one part *)
Seen(p) == (IF p.vex > 0 THEN {"avx2"} ELSE {}) \cup (IF p.sse41 > 0 THEN {"sse4.1"} ELSE {})
             \cup (IF p.ssse3 > 0 THEN {"ssse3"} ELSE {})
(* nothing the machine lacks is executed; VEX encodings need AVX at least *)
PartSafe(r, p) == /\ "ssse3" \in Seen(p) => "ssse3" \in Usable(Mach(r))
                  /\ "sse4.1" \in Seen(p) => "sse4.1" \in Usable(Mach(r))
                  /\ "avx2" \in Seen(p) => "avx" \in Usable(Mach(r))
(* with no compile-time features, batches run what the degree says *)
PartMatches(r, p) ==
  LET d == IF p.crate = "b" THEN r.deg[1] ELSE r.deg[2]
      i == CHOOSE x \in ImplsOfDegree(p.crate, d) : TRUE
  IN (r.ct = << >> /\ p.lanes = 1) =>
       CASE i = "portable" -> "avx2" \notin Seen(p) /\ "sse4.1" \notin Seen(p)
         [] i = "sse41" -> "avx2" \notin Seen(p)
         [] i = "avx2" -> "avx2" \in Seen(p)
RowBad(r) ==
  IF ~DegOK(r, "b", r.deg[1]) THEN <<"degree", "b", r.deg[1]>>
  ELSE IF ~DegOK(r, "s", r.deg[2]) THEN <<"degree", "s", r.deg[2]>>
  ELSE IF \E i \in DOMAIN r.parts : ~PartSafe(r, r.parts[i])
       THEN <<"unsupported instructions", r.parts[CHOOSE i \in DOMAIN r.parts : ~PartSafe(r, r.parts[i])]>>
  ELSE IF \E i \in DOMAIN r.parts : ~PartMatches(r, r.parts[i])
       THEN <<"degree does not match what runs", r.parts[CHOOSE i \in DOMAIN r.parts : ~PartMatches(r, r.parts[i])]>>
  ELSE << >>
RowsOK == /\ TLCGet("stats").diameter > 0
          /\ \A k \in DOMAIN Rows :
               RowBad(Rows[k]) = << >> \/ (PrintT(<<"REJECT", k, Rows[k].name, RowBad(Rows[k])>>) /\ FALSE)
ASSUME DegreeInjective
=============================================================================
