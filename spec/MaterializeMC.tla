--------------------------- MODULE MaterializeMC ---------------------------
(* Exhaustive exploration of Materialize, and generator of schedules: at every
   terminal state one line SCHED{json} with the finishing order is printed; the
   harness replays these against the real executor.                           *)
EXTENDS Materialize, TLC, Json
CONSTANTS MaxN, MaxLim, KindSet, Emit
VARIABLE hist
vars == <<mvars, hist>>
Init == \E nn \in 0..MaxN, ll \in 1..MaxLim, ff \in BOOLEAN :
          \E kk \in [1..nn -> KindSet] : CallWith(nn, ll, kk, ff) /\ hist = << >>
Next == \/ \E i \in 1..n : Start(i) /\ UNCHANGED hist
        \/ \E i \in 1..n : Finish(i) /\ hist' = IF Emit THEN Append(hist, i) ELSE hist
        \/ Return /\ UNCHANGED hist
           /\ (Emit => PrintT("SCHED" \o ToJson([n |-> n, lim |-> lim,
                    forget |-> IF forget THEN 1 ELSE 0,
                    kinds |-> [i \in 1..n |-> kind[i]], order |-> hist])))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(ret)
=============================================================================
