---------------------------- MODULE BatchStackMC ----------------------------
(* The partitioning algorithm (thread and batch size search, evening out) run on
   every small problem; the batches receive the frames in every possible way
   (small n). Its outcome must satisfy BatchStack's Result relation, i.e. the
   specification is implementable and the weighted mean of batch means equals
   the overall mean. Also prints the problems for replay on the real code.     *)
EXTENDS BatchStack, TLC, Json
CONSTANTS MaxN, MaxAvail, MaxProcs, Assign, Emit
VARIABLES pc, plan
mvars == <<bvars, pc, plan>>
Scens == [n : 1..MaxN, av : 0..MaxAvail, procs : 1..MaxProcs, dark : {0, 1}, flat : {0, 1}]
(* one MiB of memory, frames of 1 MiB/av; av = 0: frames too large *)
Mk(s) == [n |-> s.n, mb |-> 1, w |-> IF s.av = 0 THEN 262145 ELSE 262144 \div s.av, h |-> 1,
          procs |-> s.procs, dark |-> s.dark, flat |-> s.flat, kinds |-> [i \in 1..s.n |-> "ok"],
          real |-> 1, failbatch |-> 0]
(* search as the implementation does: most threads first *)
RECURSIVE Search(_, _)
Search(s, t) ==
  IF t < 1 THEN <<0, 0, 0>> ELSE
  LET b0 == Avail(s) - t - s.dark - s.flat IN
  IF b0 < 2 THEN Search(s, t - 1) ELSE
  LET nb0 == CeilDiv(s.n, b0)
      b1  == IF nb0 > 1 THEN b0 - 2 ELSE b0 IN
  IF b1 < 2 \/ b1 < t THEN Search(s, t - 1) ELSE
  LET nb1 == CeilDiv(s.n, b1) IN <<t, nb1, CeilDiv(s.n, nb1)>>   \* evened out
Init == /\ \E s \in Scens : sc = Mk(s)
        /\ sizes = << >> /\ used = [i \in 1..sc.n |-> FALSE] /\ cur = {} /\ done = FALSE
        /\ pc = "plan" /\ plan = <<0, 0, 0>>
Size(k) == IF k * plan[3] > sc.n THEN sc.n - (k - 1) * plan[3] ELSE plan[3]
Next == \/ /\ pc = "plan" /\ plan' = Search(sc, sc.procs)
           /\ pc' = (IF plan'[1] = 0 THEN "refuse" ELSE "batch")
           /\ UNCHANGED bvars
        \/ /\ pc = "batch" /\ Len(sizes) < plan[2] /\ CurDone
           /\ Batch(Size(Len(sizes) + 1)) /\ UNCHANGED <<pc, plan>>
        \/ /\ pc = "batch" /\ ~CurDone /\ UNCHANGED <<pc, plan>>
           /\ IF Assign THEN \E i \in 1..sc.n : (\A j \in cur : i > j) /\ Load(i)
              ELSE LET i == CHOOSE i \in 1..sc.n : ~used[i] IN Load(i)
        \/ /\ pc = "batch" /\ CurDone /\ Len(sizes) = plan[2] /\ pc' = "done" /\ UNCHANGED <<bvars, plan>>
Spec == Init /\ [][Next]_mvars
RefuseOk == pc = "refuse" => ErrorOk
(* exact batch means, weighted by batch size: here the sums are exact *)
DoneOk == pc = "done" => ResultOk(plan[1], SumOver(OkFrames, [i \in OkFrames |-> Exp(i)]), << >>)
NonEmpty == pc = "batch" /\ CurDone /\ Len(sizes) < plan[2] => Size(Len(sizes) + 1) >= 1
EmitScen == (Emit /\ pc = "plan") => PrintT("SCEN" \o ToJson([n |-> sc.n, mb |-> 1, w |-> sc.w, h |-> 1,
               procs |-> sc.procs, dark |-> sc.dark, flat |-> sc.flat]))
=============================================================================
