------------------------------ MODULE OpSeqMC ------------------------------
EXTENDS OpSeq, TLC, Json
CONSTANTS MaxN, MaxK, MaxShape
VARIABLES shape, ord
vars == <<svars, shape, ord>>
B == {"pass", "fail", "drop"}
Init == \E nn \in 0..MaxN, kk \in 0..MaxK, sh \in 0..MaxShape :
          \E bb \in [1..(kk + 1) -> [1..nn -> B]] : Setup(nn, kk, bb) /\ shape = sh /\ ord = << >>
Next == \/ Build(BuildOk, N) /\ UNCHANGED <<shape, ord>>
        \/ \E i \in 1..N : Demand(i) /\ ord' = Append(ord, i) /\ UNCHANGED shape
           /\ (\A j \in 1..N : ph[j] \in {"idle", "out"})       \* generated demands are sequential
        \/ \E i \in 1..N : Apply(i, Len(hist[i]), hist[i]) /\ UNCHANGED <<shape, ord>>
        \/ \E i \in 1..N : Result(i, Outcome(i), i, hist[i], Len(hist[i]) - 1) /\ UNCHANGED <<shape, ord>>
Terminal == built = "error" \/ (built = "yes" /\ \A i \in 1..N : ph[i] = "out")
Emit == Terminal => PrintT("PROG" \o ToJson([n |-> N, k |-> K, shape |-> shape, order |-> ord, conc |-> 0,
                        beh |-> [k \in 1..(K + 1) |-> [i \in 1..N |-> beh[k][i]]]]))
Spec == Init /\ [][Next]_vars
=============================================================================
