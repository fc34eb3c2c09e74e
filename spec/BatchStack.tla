----------------------------- MODULE BatchStack -----------------------------
(* Batched stacking under a memory limit (property C04).
   sc: n frames, mb MiB of memory, w*h pixels per frame (4 bytes each), procs
   threads at most, dark/flat loaded or not (0/1), kinds[i] in ok/nil/fail,
   real = 1: every batch is the mean of its frames, 0: batch k delivers a given
   image; failbatch: number of the batch that fails (0 none).                 *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES sc, sizes, used, cur, done
bvars == <<sc, sizes, used, cur, done>>

RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN f[i] + SumOver(S \ {i}, f)
Sum(s) == SumOver(DOMAIN s, s)
CeilDiv(a, b) == (a + b - 1) \div b
Abs(x) == IF x < 0 THEN -x ELSE x

Avail(s) == (s.mb * 1048576) \div (4 * s.w * s.h)
(* the largest batch the memory limit leaves with t threads and nb batches *)
Limit(s, t, nb) == Avail(s) - t - s.dark - s.flat - (IF nb > 1 THEN 2 ELSE 0)
(* a processing path exists: the least demanding number of threads is one *)
Feasible(s) == LET b == Avail(s) - 1 - s.dark - s.flat IN
               b >= 2 /\ (CeilDiv(s.n, b) > 1 => b - 2 >= 2)

(* test images: value of frame i, of the given result of batch k, at pixel p *)
Val(i, p)  == (i * 37 + p * 11) % 101
BVal(k, p) == (k * 53 + p * 29) % 97
Exp(i)  == 1 + (i % 5)
BExp(k) == 10 + k

(* inputs may be looked at before the batches start (memory estimate) *)
PreLoad(i) == /\ ~done /\ sizes = << >> /\ UNCHANGED bvars
CurDone == IF sizes = << >> THEN TRUE ELSE Cardinality(cur) = sizes[Len(sizes)]
Batch(size) == /\ ~done /\ CurDone /\ size >= 1
               /\ sizes' = Append(sizes, size) /\ cur' = {}
               /\ UNCHANGED <<sc, used, done>>
Load(i) == /\ ~done /\ sizes # << >> /\ i \in 1..sc.n /\ ~used[i]
           /\ Cardinality(cur) < sizes[Len(sizes)]
           /\ used' = [used EXCEPT ![i] = TRUE] /\ cur' = cur \cup {i}
           /\ UNCHANGED <<sc, sizes, done>>

OkFrames == {i \in 1..sc.n : sc.kinds[i] = "ok"}
(* the combined image: pixel r1000/1000, within rounding *)
PixelOk(p, r1000) ==
   LET nb == Len(sizes)
       total == IF sc.real = 1 THEN SumOver(OkFrames, [i \in OkFrames |-> Val(i, p)])
                ELSE IF nb = 1 THEN BVal(1, p)
                ELSE Sum([k \in 1..nb |-> sizes[k] * BVal(k, p)])
       cnt == IF sc.real = 1 THEN Cardinality(OkFrames) ELSE IF nb = 1 THEN 1 ELSE sc.n
   IN Abs(r1000 * cnt - 1000 * total) <= cnt + (total \div 50)
(* weighting by the number of assigned frames equals the mean over all frames
   when no frame was skipped, or when there is only one batch *)
PixelsKnown == sc.real = 0 \/ Len(sizes) = 1 \/ Cardinality(OkFrames) = sc.n
ExpOk(x) == x = IF sc.real = 1 THEN SumOver(OkFrames, [i \in OkFrames |-> Exp(i)])
                ELSE Sum([k \in 1..Len(sizes) |-> BExp(k)])
ResultOk(t, x, px) ==
   /\ Len(sizes) >= 1 /\ CurDone
   /\ \A i \in 1..sc.n : used[i]
   /\ t \in 1..sc.procs
   /\ \A k \in 1..Len(sizes) : sizes[k] <= Limit(sc, t, Len(sizes))
   /\ sc.failbatch \notin 1..Len(sizes)
   /\ \A i \in 1..sc.n : sc.kinds[i] # "fail"
   /\ ExpOk(x)
   /\ PixelsKnown => \A q \in 1..Len(px) : PixelOk(px[q][1], px[q][2])
ErrorOk == \/ sizes = << >> /\ (~Feasible(sc) \/ sc.kinds[1] = "fail" \/ OkFrames = {}
                               \/ \E i \in 1..sc.n : sc.kinds[i] = "fail" /\ \A j \in 1..(i - 1) : sc.kinds[j] = "nil")
           \/ sc.failbatch \in 1..Len(sizes)
           \/ \E i \in 1..sc.n : used[i] /\ sc.kinds[i] = "fail"
           \/ sc.real = 1 /\ cur # {} /\ \A i \in cur : sc.kinds[i] = "nil"
Result(err, t, x, px) == /\ ~done /\ done' = TRUE
                         /\ IF err = 1 THEN ErrorOk ELSE ResultOk(t, x, px)
                         /\ UNCHANGED <<sc, sizes, used, cur>>
Once == \A i \in cur : used[i]
Sizes == Sum(sizes) <= sc.n \/ ~CurDone \/ done
=============================================================================
