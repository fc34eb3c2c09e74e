---------------------------- MODULE OrderStatMC ----------------------------
(* Quickselect and quicksort as state machines: partition with the middle pivot (one index step per
   transition), narrowing for selection, recursion by a stack for sorting. Checked for all arrays up
   to the bound that no index leaves the part under work, nothing is lost, and the results are right.  *)
EXTENDS OrderStat, Json, TLC
CONSTANTS MaxN, MaxV, WideN, WideV, Emit
VARIABLES a, a0, k0, mode, lo, hi, k, l, r, pivot, pc, todo
vars == <<a, a0, k0, mode, lo, hi, k, l, r, pivot, pc, todo>>
Arrays == UNION {[1..n -> 1..MaxV] : n \in 1..MaxN} \cup [1..WideN -> 1..WideV]
Enter(x, y) == /\ lo' = x /\ hi' = y /\ pivot' = a'[(x + y) \div 2] /\ l' = x - 1 /\ r' = y + 1
Init == /\ a0 \in Arrays /\ a = a0 /\ mode \in {"select", "sort"}
        /\ k0 \in (IF mode = "select" THEN 1..Len(a0) ELSE {0}) /\ k = k0
        /\ lo = 1 /\ hi = Len(a0) /\ todo = << >>
        /\ pivot = a0[(1 + Len(a0)) \div 2] /\ l = 0 /\ r = Len(a0) + 1
        /\ pc = IF Len(a0) = 1 THEN "done" ELSE "left"
\* one transition per comparison
Left == /\ pc = "left" /\ l' = l + 1 /\ pc' = (IF a[l + 1] >= pivot THEN "right" ELSE "left")
        /\ UNCHANGED <<a, a0, k0, mode, lo, hi, k, r, pivot, todo>>
Right == /\ pc = "right" /\ r' = r - 1 /\ pc' = (IF a[r - 1] <= pivot THEN "meet" ELSE "right")
         /\ UNCHANGED <<a, a0, k0, mode, lo, hi, k, l, pivot, todo>>
Meet == /\ pc = "meet"
        /\ IF l >= r THEN pc' = "split" /\ a' = a ELSE pc' = "left" /\ a' = [a EXCEPT ![l] = a[r], ![r] = a[l]]
        /\ UNCHANGED <<a0, k0, mode, lo, hi, k, l, r, pivot, todo>>
Go(x, y) == IF x < y THEN Enter(x, y) /\ pc' = "left" ELSE lo' = x /\ hi' = y /\ pc' = "pop" /\ UNCHANGED <<l, r, pivot>>
Split == /\ pc = "split" /\ a' = a /\ UNCHANGED <<a0, k0, mode>>
         /\ IF mode = "select"
            THEN /\ todo' = todo
                 /\ LET off == r - lo + 1 IN
                    IF k <= off THEN k' = k /\ Go(lo, r) ELSE k' = k - off /\ Go(r + 1, hi)
            ELSE /\ k' = k /\ todo' = Append(todo, <<r + 1, hi>>) /\ Go(lo, r)
Pop == /\ pc = "pop" /\ UNCHANGED <<a0, k0, mode, k>> /\ a' = a
       /\ IF mode = "select" \/ todo = << >> THEN pc' = "done" /\ UNCHANGED <<lo, hi, l, r, pivot, todo>>
          ELSE todo' = SubSeq(todo, 1, Len(todo) - 1) /\ Go(todo[Len(todo)][1], todo[Len(todo)][2])
Next == Left \/ Right \/ Meet \/ Split \/ Pop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InBounds == (pc \notin {"done", "pop"}) => (l <= hi /\ r >= lo /\ (pc = "left" => l + 1 <= hi) /\ (pc = "right" => r - 1 >= lo))
NothingLost == IsPerm(a, a0)
PartitionOk == (pc = "split") => /\ r >= lo /\ r < hi                      \* both sides shrink
                                 /\ \A i \in lo..r : a[i] <= pivot
                                 /\ \A i \in (r + 1)..hi : a[i] >= pivot
Result == (pc = "done") => IF mode = "select" THEN a[lo] = Kth(a0, k0) ELSE a = Sorted(a0)
\* for the median of an even number: everything before position k is not larger
MedianLower == (pc = "done" /\ mode = "select") => \A i \in 1..(k0 - 1) : a[i] <= a[lo]
Terminates == <>(pc = "done")
\* zero-one principle: a min/max network that selects the median of all inputs of zeros and ones selects it for every input
ASSUME Network == \A b \in [1..9 -> {0, 1}] : Run(b, 1) = Kth(b, 5)
Emitted == (Emit /\ pc \in {"left", "done"} /\ a = a0 /\ l <= 0 /\ todo = << >> /\ mode = "select" /\ k = k0 /\ k0 = 1)
           => PrintT("SCEN" \o ToJson(a0))
=============================================================================
