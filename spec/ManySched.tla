----------------------------- MODULE ManySched -----------------------------
(***************************************************************************)
(* The batch scheduler behind hash_many, update_many and the tree hashes   *)
(* (many::compress_many) and the N-lane compression loops it drives.       *)
(*                                                                         *)
(* Jobs arrive from an iterator.  For each degree the hardware offers, in  *)
(* descending order, a working set is filled to that degree, the lanes run *)
(* in lock step until the shortest one is used up, and jobs with nothing   *)
(* left are removed; when the iterator cannot fill the set any more, the   *)
(* next smaller degree takes over, and the rest runs one job at a time.    *)
(*                                                                         *)
(* A job is its input length; `done[j]` is the sequence of blocks that the *)
(* compression function was given for it: (offset, bytes, counter, final). *)
(* What is to hold (C05, C06, C03, C15): for any lengths, any batch size   *)
(* and any degrees, when the batch is over every job was given exactly the *)
(* blocks that hashing it alone would give it, in order, final flag        *)
(* included; a whole-block read never goes beyond the job's input; each    *)
(* job is worked on by one lane at a time; and the batch terminates.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  B,           \* block size
  Fan,         \* 1: the jobs are independent (Stride::Serial); D: the leaves of a tree (Stride::Parallel)
  Degrees,     \* descending, for example <<4, 2>>
  MaxJobs,     \* batches of up to this many jobs
  Lengths,     \* input lengths that jobs may have
  Starts       \* counters that jobs may start from

VARIABLES
  len, start,  \* the batch: input length and initial counter of each job
  fin,         \* finalize at the end of the input?  (hash_many: yes; update_many: no)
  done, off,   \* per job: blocks compressed; input consumed
  cnt,         \* per job: counter
  nextJob,     \* the iterator
  vec,         \* the working set
  level,       \* index into Degrees; Len(Degrees)+1: one at a time; +2: over
  ok
vars == <<len, start, fin, done, off, cnt, nextJob, vec, level, ok>>

Pad == Fan * B
MinI(a, b) == IF a < b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Sat(a, b) == IF a < b THEN 0 ELSE a - b

(* What hashing a job alone compresses. *)
Expected(l, c, f) ==
  LET n == IF l = 0 THEN 1 ELSE (l + Pad - 1) \div Pad
  IN [k \in 1..n |-> LET o == (k - 1) * Pad
                         sz == MinI(B, Sat(l, o))
                     IN <<o, sz, c + (k - 1) * B + sz, f /\ k = n>>]


Init ==
  /\ fin \in BOOLEAN
  /\ IF Fan = 1
     THEN \E n \in 0..MaxJobs : len \in [1..n -> IF fin THEN Lengths
                                                  ELSE {l \in Lengths : l > 0 /\ l % B = 0}]
     ELSE \E total \in (IF fin THEN Lengths ELSE {l \in Lengths : l > 0 /\ l % Pad = 0}) :
            len = [i \in 1..Fan |-> Sat(total, (i - 1) * B)]
  /\ start \in [DOMAIN len -> Starts]
  /\ done = [i \in DOMAIN len |-> << >>]
  /\ off = [i \in DOMAIN len |-> 0]
  /\ cnt = start
  /\ nextJob = 1 /\ vec = << >> /\ level = 1 /\ ok = TRUE

Rest(j) == len[j] - off[j]
(* final_block: the block at `o` of what is left of job j *)
FinSize(j, o) == MinI(B, Sat(Rest(j), o))
FinFlag(j, o) == Sat(Rest(j), MinI(o, Rest(j))) <= (IF FinSize(j, o) = B THEN Pad ELSE B)

(* One lane loop over the jobs of `lanes`: rounds 0, Pad, ... , fo *)
LaneBlocks(j, fo) ==
  [r \in 1..((fo \div Pad) + 1) |->
     LET o == (r - 1) * Pad IN
     IF o = fo
     THEN <<off[j] + MinI(o, Rest(j)), FinSize(j, o), cnt[j] + (fo \div Pad) * B + FinSize(j, o), fin /\ FinFlag(j, o)>>
     ELSE <<off[j] + o, B, cnt[j] + r * B, FALSE>>]
(* whole-block reads of the non-final rounds stay inside the input *)
ReadsOk(j, fo) == fo = 0 \/ (fo - Pad) + B <= Rest(j)
Ran(lanes, fo) ==
  /\ done' = [j \in DOMAIN len |-> IF j \in lanes THEN done[j] \o LaneBlocks(j, fo) ELSE done[j]]
  /\ off' = [j \in DOMAIN len |-> IF j \in lanes THEN off[j] + MinI(fo + Pad, Rest(j)) ELSE off[j]]
  /\ cnt' = [j \in DOMAIN len |-> IF j \in lanes
               THEN cnt[j] + (fo \div Pad) * B + FinSize(j, fo) ELSE cnt[j]]
  /\ ok' = (ok /\ \A j \in lanes : ReadsOk(j, fo))

Range(s) == {s[i] : i \in DOMAIN s}
Filled(d) == LET take == MinI(d - Len(vec), Len(len) - nextJob + 1)
             IN [v |-> vec \o [i \in 1..take |-> nextJob + i - 1], n |-> nextJob + take]

(* One turn of the loop for the degree Degrees[level]: fill, run, evict. *)
Turn ==
  /\ level <= Len(Degrees)
  /\ LET d == Degrees[level]
         f == IF Len(vec) < d THEN Filled(d) ELSE [v |-> vec, n |-> nextJob]
     IN /\ nextJob' = f.n
        /\ IF Len(f.v) < d
           THEN /\ vec' = f.v /\ level' = level + 1
                /\ UNCHANGED <<done, off, cnt, ok>>
           ELSE LET lanes == {f.v[i] : i \in 1..d}
                    ml == SetMin({Rest(j) : j \in lanes})
                    fo == Sat(ml, 1) - (Sat(ml, 1) % Pad)
                IN /\ Ran(lanes, fo)
                   /\ vec' = SelectSeq(f.v, LAMBDA j : ~(j \in lanes /\ len[j] = off'[j]))
                   /\ UNCHANGED level
  /\ UNCHANGED <<len, start, fin>>

(* The rest, one at a time: first the working set, then the iterator. *)
Single ==
  /\ level = Len(Degrees) + 1
  /\ IF vec # << >> \/ nextJob <= Len(len)
     THEN LET j == IF vec # << >> THEN vec[1] ELSE nextJob
              fo == Sat(Rest(j), 1) - (Sat(Rest(j), 1) % Pad)
          IN /\ Ran({j}, fo)
             /\ vec' = IF vec # << >> THEN Tail(vec) ELSE vec
             /\ nextJob' = IF vec # << >> THEN nextJob ELSE nextJob + 1
             /\ UNCHANGED level
     ELSE level' = level + 1 /\ UNCHANGED <<done, off, cnt, nextJob, vec, ok>>
  /\ UNCHANGED <<len, start, fin>>

Over == level = Len(Degrees) + 2
Next == Turn \/ Single
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
(* The working set holds distinct jobs that have not been used up after running *)
WorkingSet ==
  /\ \A i, k \in DOMAIN vec : i # k => vec[i] # vec[k]
  /\ \A i \in DOMAIN vec : vec[i] < nextJob
  /\ Len(vec) <= (IF Degrees = << >> THEN 0 ELSE Degrees[1])
(* What was compressed so far is a prefix of what is expected *)
Prefix == \A j \in DOMAIN len :
            LET e == Expected(len[j], start[j], fin) IN
            /\ Len(done[j]) <= Len(e)
            /\ \A k \in DOMAIN done[j] : done[j][k] = e[k]
Complete == Over => \A j \in DOMAIN len : done[j] = Expected(len[j], start[j], fin)
                                          /\ off[j] = len[j]
                                          /\ (Fan = 1 => cnt[j] = start[j] + len[j])
Inv == ok /\ WorkingSet /\ Prefix /\ Complete
(* What a turn does to a job is a run of its lane: Lane.tla shows runs correct for any length *)
Job(j) == INSTANCE Lane WITH len <- len[j], start <- start[j], off <- off[j], cnt <- cnt[j], blocks <- Len(done[j])
LaneSteps == [][\A j \in DOMAIN len :
                  UNCHANGED <<done[j], off[j], cnt[j]>>
                  \/ (~Job(j)!Over /\ \E q \in 0..Job(j)!OwnRounds : Job(j)!Run(q, q))]_vars
Terminates == <>Over
Deg42 == <<4, 2>>
Deg2 == <<2>>
Deg84 == <<8, 4>>
Deg4 == <<4>>
UpTo40 == 0..40
UpTo70 == 0..70
Deg1 == << >>
=============================================================================
