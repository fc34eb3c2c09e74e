----------------------------- MODULE CosmeticMC -----------------------------
(* Correction of a mosaic frame colour by colour in any order, and of a mono frame pixel by pixel. *)
EXTENDS Cosmetic, Json
CONSTANTS Width, Height, MaxHot, Emit
VARIABLES d0, cur, cfa, k, todo, pc
vars == <<d0, cur, cfa, k, todo, pc>>
N == Width * Height
P(c) == [w |-> Width, h |-> Height, ch |-> c, cfa |-> cfa, lo |-> k[1], hi |-> k[2]]
Base(i) == 10 + (IF (i % 5) = 0 THEN 1 ELSE 0)
Hots == {s \in SUBSET (1..N) : Cardinality(s) <= MaxHot}
Frames == UNION {{[i \in 1..N |-> IF i \in s THEN f[i] ELSE Base(i)] : f \in [s -> {0, 30}]} : s \in Hots}
Init == /\ d0 \in Frames \cup {[i \in 1..N |-> 7]} /\ cur = [i \in 1..N |-> 2 * d0[i]] /\ cfa \in Layouts /\ k \in {<<2, 2>>, <<6, 4>>, <<2, 6>>}
        /\ pc = "start" /\ todo = {}
StartMono == /\ pc = "start" /\ pc' = "mono" /\ todo' = 1..N /\ UNCHANGED <<d0, cur, cfa, k>>
StartMosaic == /\ pc = "start" /\ pc' = "mosaic" /\ todo' = Channels /\ UNCHANGED <<d0, cur, cfa, k>>
Half(c) == [i \in 1..N |-> c[i] \div 2]
Step1 == /\ pc = "mono" /\ todo # {} /\ UNCHANGED <<d0, cfa, k, pc>>
         /\ LET i == Min(todo) p == P("") D == Deltas(d0, p) o == Outlier(D, Spread(D), p, i) r == Repair(d0, cur, p, i) IN
            /\ todo' = todo \ {i}
            /\ \/ o # "yes" /\ cur' = cur
               \/ o # "no" /\ cur' = [cur EXCEPT ![i] = r]
\* medians of an even number of sites may be halves; further colours are judged on the original frame, which is the same
Step2 == /\ pc = "mosaic" /\ todo # {} /\ UNCHANGED <<d0, cfa, k, pc>>
         /\ \E c \in todo : /\ todo' = todo \ {c}
              /\ LET p == P(c) D == Deltas(d0, p) S == TLCEval(Spread(D)) IN
                 cur' = TLCEval([i \in 1..N |-> IF i \in DOMAIN D /\ Outlier(D, S, p, i) = "yes" THEN MedAt(d0, p, i) ELSE cur[i]])
Next == StartMono \/ StartMosaic \/ Step1 \/ Step2
Spec == Init /\ [][Next]_vars
Done == todo = {} /\ pc # "start"
MonoOk == (Done /\ pc = "mono") => Judge(d0, P(""), cur) = ""
\* hoods stay within the frame and the colour; correcting one colour reads and writes only that colour
Hoods == (pc = "mosaic") => \A c \in Channels : \A i \in Sites(P(c)) : /\ i \in Hood(P(c), i) /\ Cardinality(Hood(P(c), i)) <= 9
            /\ \A j \in Hood(P(c), i) : j \in 1..N /\ Site(P(c), j)
Others == (pc = "mosaic") => \A c \in todo : \A i \in Sites(P(c)) : cur[i] = 2 * d0[i]
Unchanged == (\A i \in 1..N : d0[i] = d0[1]) => \A i \in 1..N : cur[i] = 2 * d0[i]
\* a correction never leaves the range of the frame
Bounded == \A i \in 1..N : cur[i] <= 2 * Max({d0[j] : j \in 1..N}) /\ cur[i] >= 2 * Min({d0[j] : j \in 1..N})
\* wider limits correct fewer pixels
Wider == (pc = "start" /\ k = <<2, 2>>) => \A c \in Channels \cup {""} : LET p == P(c) D == Deltas(d0, p) S == TLCEval(Spread(D)) IN
            \A i \in DOMAIN D : Outlier(D, S, [p EXCEPT !.lo = 6, !.hi = 6], i) = "yes" => Outlier(D, S, p, i) = "yes"
\* whatever the order of the colours, the result is the same
Confluent == (Done /\ pc = "mosaic") => \A c \in Channels : Judge(d0, P(c), [i \in 1..N |-> IF Site(P(c), i) THEN cur[i] ELSE 2 * d0[i]]) = ""
Emitted == (Emit /\ pc = "start" /\ cfa = <<"R","G","G","B">>) => PrintT("SCEN" \o ToJson([w |-> Width, h |-> Height, d |-> d0, lo |-> k[1], hi |-> k[2]]))
=============================================================================
