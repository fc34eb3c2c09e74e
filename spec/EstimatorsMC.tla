---------------------------- MODULE EstimatorsMC -----------------------------
(* Small sets of pixels, one pixel at a time: the laws of the estimators, and scenarios. *)
EXTENDS Estimators, Json
CONSTANTS Most, Values, Emit
VARIABLE q
Init == q = <<>>
Next == Len(q) < Most /\ \E v \in Values : q' = Append(q, v)
Spec == Init /\ [][Next]_q
Least == CHOOSE x \in {q[i] : i \in DOMAIN q} : \A i \in DOMAIN q : x <= q[i]
Great == CHOOSE x \in {q[i] : i \in DOMAIN q} : \A i \in DOMAIN q : x >= q[i]
Varied == q # <<>> /\ Least < Great
Moved == [i \in DOMAIN q |-> q[i] + 1000]
Grown == [i \in DOMAIN q |-> q[i] * 3]
Mirror == [i \in DOMAIN q |-> Least + Great - q[i]]
NB == 9
HP(s, a, b) == HistPeak(s, NB, a, b)
\* every pixel is in a bin; moving or stretching the pixels changes nothing about the bins
Counted == Varied => LET h == Bins(q, NB, Least, Great) IN Total([k \in 1..NB |-> h[k - 1]]) = Len(q)
Follows == Varied => /\ HP(Moved, Least + 1000, Great + 1000) = HP(q, Least, Great)
                     /\ HP(Grown, 3 * Least, 3 * Great) = HP(q, Least, Great)
\* the peak is a bin which no inner bin outdoes, and the width is that of a whole number of bins on either side
Highest == (Varied /\ HP(q, Least, Great).clear) => LET h == Bins(q, NB, Least, Great)  p == HP(q, Least, Great) IN
             /\ \A k \in 1..(NB - 2) : h[k] <= h[p.p]
             /\ p.w % 2 = 1 /\ p.w <= 2 * p.p + 1
\* the iteration ends at a pixel between the extremes, and follows the pixels
KS(s) == KSigma(Sorted(s), 0)
Between == q # <<>> => KS(q).m \in Least..Great /\ KS(q).d >= 0 /\ KS(q).d <= 200 * (Great - Least)
FollowsK == q # <<>> => KS(Moved).m = KS(q).m + 1000 /\ KS(Moved).d = KS(q).d
GrowsK == (q # <<>> /\ KS(q).ok /\ KS(Grown).ok) => KS(Grown).m = 3 * KS(q).m /\ Abs(KS(Grown).d - 3 * KS(q).d) <= 20 + KS(q).d \div 30
\* pixels of which more than half are alike have no spread
Alike == q # <<>> => ((\E v \in Values : 2 * Cardinality({i \in DOMAIN q : q[i] = v}) > Len(q) + 1) => KS(q).d = 0)
\* an odd set has a median, its MAD and Qn satisfy their bounds, and nothing far from them does
Odd == (q # <<>> /\ Len(q) % 2 = 1) =>
         LET m == Upper(Sorted(q)) IN Median(q, 10, 10 * m, 49, 51) /\ Mad(q, 10, 10 * m, (7415 * MedianAbs(q, m)) \div 1000)
Far == q # <<>> => ~Median(q, 10, 10 * Great + 30, 49, 51) /\ ~Median(q, 10, 10 * Least - 30, 49, 51)
Emitted == (Emit /\ q # <<>>) => PrintT("SCEN" \o ToJson([q |-> q]))
==============================================================================
