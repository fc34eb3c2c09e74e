---------------------------- MODULE PixelStackMC ----------------------------
(* The clipping loop as an algorithm on unsorted parallel arrays (values and
   weights, rejection by swapping with the last element) for every small set of
   samples. Invariants: values and weights stay paired, the survivors are those
   the specification derives from the sorted samples, and lie in the range.    *)
EXTENDS PixelStack, TLC, Json
CONSTANTS Values, NMax, Sig, Emit
VARIABLES v, arr, j, lim, phase, mode
vars == <<v, arr, j, lim, phase, mode>>
Hdr(n) == [mode |-> mode, n |-> n, wk |-> 1, wv |-> [i \in 1..n |-> i], sl |-> Sig, sh |-> Sig, fill |-> 7]
Pairs == [i \in 1..Len(v) |-> <<v[i], i>>]
Valid0 == SelectSeq(Pairs, LAMBDA p : p[1] # NaN)
(* bounds at the start of a pass, for the current array *)
Bounds(a) == LET s == SortSeq(a, LAMBDA x, y : x[1] < y[1])
                 lo == SigmaStatus(Vals(s), Sig, 1)  hi == SigmaStatus(Vals(s), Sig, -1)
             IN {s[k][1] : k \in {q \in 1..Len(s) : lo[q] = 1 \/ hi[q] = 1}}
Init == /\ \E n \in 1..NMax : v \in [1..n -> Values \cup {NaN}]
        /\ mode \in {2} /\ arr = Valid0 /\ j = 1 /\ phase = "bounds" /\ lim = {}
Step == \/ /\ phase = "bounds" /\ arr = << >> /\ phase' = "done" /\ UNCHANGED <<v, arr, j, lim, mode>>
        \/ /\ phase = "bounds" /\ arr # << >> /\ lim' = Bounds(arr) /\ j' = 1
           /\ phase' = (IF lim' = {} THEN "done" ELSE "pass")
           /\ UNCHANGED <<v, arr, mode>>
        \/ /\ phase = "pass" /\ j <= Len(arr)
           /\ IF arr[j][1] \in lim
              THEN /\ arr' = SubSeq([arr EXCEPT ![j] = arr[Len(arr)]], 1, Len(arr) - 1) /\ j' = j
              ELSE arr' = arr /\ j' = j + 1
           /\ UNCHANGED <<v, lim, phase, mode>>
        \/ /\ phase = "pass" /\ j > Len(arr)
           /\ phase' = (IF Len(arr) <= 1 THEN "done" ELSE "bounds")
           /\ UNCHANGED <<v, arr, j, lim, mode>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Paired == \A k \in 1..Len(arr) : arr[k][1] = v[arr[k][2]]
Sorted(a) == SortSeq(a, LAMBDA x, y : x[1] < y[1])
Same == (phase = "done" /\ Len(Valid0) > 0) =>
          \E t \in Survive(Sorted(Valid0), Hdr(Len(v)), 2) :
             Len(t) = Len(arr) /\ Vals(t) = Vals(Sorted(arr))
NonEmpty == (phase = "done" /\ Len(Valid0) > 0) => Len(arr) >= 1
(* every mode keeps at least one sample, within the range *)
Ranges == phase = "done" /\ Len(Valid0) > 0 =>
   \A m \in {2, 3, 4, 5} : \A t \in Outcomes(Sorted(Valid0), [Hdr(Len(v)) EXCEPT !.mode = m]) :
      Len(t) >= 1 /\ \A k \in 1..Len(t) : \E i \in 1..Len(v) : v[i] = t[k][1]
Ends == <>(phase = "done")
EmitCol == (Emit /\ phase = "done") => PrintT("COL" \o ToJson([v |-> v]))
=============================================================================
