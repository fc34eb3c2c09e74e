------------------------------- MODULE OpSeq -------------------------------
(* Lazy composition of processing steps (property C02).
   K steps (the leaves of the sequence in listed order), N frames. beh[k][i] is
   what step k does to frame i: "pass", "fail" or "drop"; step 0 is the input.
   hist[i] is the list of steps that have processed frame i in this demand.   *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES N, K, beh, built, ph, hist
(* ph[i]: "idle" not demanded; "run"; "fail"; "drop"; "out" delivered *)
svars == <<N, K, beh, built, ph, hist>>

Setup(nn, kk, bb) == /\ N = nn /\ K = kk /\ beh = bb /\ built = "no"
                     /\ ph = [i \in 1..nn |-> "idle"] /\ hist = [i \in 1..nn |-> << >>]

(* a per-frame step without inputs is an error; the empty sequence is not *)
BuildOk == N > 0 \/ K = 0
Build(ok, m) == /\ built = "no" /\ ok = BuildOk /\ (ok => m = N)
                /\ built' = (IF ok THEN "yes" ELSE "error")
                /\ UNCHANGED <<N, K, beh, ph, hist>>
Demand(i) == /\ built = "yes" /\ i \in 1..N /\ ph[i] = "idle"
             /\ ph' = [ph EXCEPT ![i] = "run"]
             /\ UNCHANGED <<N, K, beh, built, hist>>
(* step k (0 = input) processes frame i, receiving what the previous one gave *)
Apply(i, k, in) ==
    /\ i \in 1..N /\ ph[i] = "run" /\ k = Len(hist[i]) /\ k <= K
    /\ in = hist[i]
    /\ hist' = [hist EXCEPT ![i] = Append(@, k)]
    /\ ph' = [ph EXCEPT ![i] = CASE beh[k + 1][i] = "pass" -> "run"
                                 [] beh[k + 1][i] = "fail" -> "fail"
                                 [] OTHER -> "drop"]
    /\ UNCHANGED <<N, K, beh, built>>
(* what the consumer of output i gets: the frame, nothing, or the step's error *)
Outcome(i) == CASE ph[i] = "run" /\ Len(hist[i]) = K + 1 -> "frame"
                [] ph[i] = "fail" -> "error"
                [] ph[i] = "drop" -> "nil"
                [] OTHER -> "none"
Result(i, kind, owner, in, errk) ==
    /\ i \in 1..N /\ kind = Outcome(i) /\ kind # "none"
    /\ (kind = "frame" => in = hist[i] /\ owner = i)
    /\ (kind = "error" => errk = Len(hist[i]) - 1 /\ owner = i)
    /\ ph' = [ph EXCEPT ![i] = "out"]
    /\ UNCHANGED <<N, K, beh, built, hist>>
SNext == \/ Build(BuildOk, N)
         \/ \E i \in 1..N : \/ Demand(i) \/ Apply(i, Len(hist[i]), hist[i])
                            \/ Result(i, Outcome(i), i, hist[i], Len(hist[i]) - 1)
----------------------------------------------------------------------------
Lazy     == \A i \in 1..N : ph[i] = "idle" => hist[i] = << >>
InOrder  == \A i \in 1..N : \A k \in 1..Len(hist[i]) : hist[i][k] = k - 1
StopsAt  == \A i \in 1..N : \A k \in 1..Len(hist[i]) :
               k < Len(hist[i]) => beh[k][i] = "pass"
Full     == \A i \in 1..N : ph[i] = "out" =>
               (Len(hist[i]) = K + 1 \/ beh[Len(hist[i])][i] # "pass")
SInv == Lazy /\ InOrder /\ StopsAt /\ Full
=============================================================================
