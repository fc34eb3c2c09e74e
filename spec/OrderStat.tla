----------------------------- MODULE OrderStat -----------------------------
(* Order statistics (property C17): what selection, sorting, medians, the median networks and the
   3x3 median filter have to return. Values are ranks (integers); arrays are sequences.               *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE TLC
Sorted(a) == SortSeq(a, LAMBDA x, y : x < y)
Count(a, v) == Cardinality({i \in 1..Len(a) : a[i] = v})
Elems(a) == {a[i] : i \in 1..Len(a)}
IsPerm(a, b) == Len(a) = Len(b) /\ Sorted(a) = Sorted(b)
Kth(a, k) == Sorted(a)[k]
\* twice the median: the middle element, or the mean of the two middle ones
Med2(a) == LET s == Sorted(a) n == Len(a) IN
           IF n % 2 = 1 THEN 2 * s[(n + 1) \div 2] ELSE s[n \div 2] + s[n \div 2 + 1]
Quartile(a) == Kth(a, (Len(a) \div 4) + 1)
(* partition at the middle element: all up to r are <= pivot, all after are >= pivot, both parts non-empty *)
PartOk(a, b, r) == LET p == a[(Len(a) + 1) \div 2] IN
   /\ IsPerm(a, b) /\ r \in 1..(Len(a) - 1)
   /\ \A i \in 1..r : b[i] <= p
   /\ \A i \in (r + 1)..Len(b) : b[i] >= p
(* images are sequences in row order, w columns *)
Border(i, w, n) == LET x == (i - 1) % w y == (i - 1) \div w IN x = 0 \/ x = w - 1 \/ y = 0 \/ y = (n \div w) - 1
Around(d, i, w) == << d[i-w-1], d[i-w], d[i-w+1], d[i-1], d[i], d[i+1], d[i+w-1], d[i+w], d[i+w+1] >>
Filter(d, w) == [i \in 1..Len(d) |-> IF Border(i, w, Len(d)) THEN d[i] ELSE Kth(Around(d, i, w), 5)]
\* the neighbourhood selected by a mask of index offsets, as far as it lies within the data
Gather(d, i, mask) == LET m == SelectSeq(mask, LAMBDA o : i + o >= 1 /\ i + o <= Len(d)) IN [j \in 1..Len(m) |-> d[i + m[j]]]
\* masks: offsets of all positions within the radius (in tenths), row by row
Mask(w, rad10) == LET R == rad10 \div 10
                      n == 2 * R + 1
                      all == [j \in 1..(n * n) |-> <<((j - 1) % n) - R, ((j - 1) \div n) - R>>]
                      in == SelectSeq(all, LAMBDA p : 100 * (p[1] * p[1] + p[2] * p[2]) <= rad10 * rad10)
                  IN [j \in 1..Len(in) |-> in[j][2] * w + in[j][1]]
(* the selection network for the median of nine: s swap, m keep the smaller in the first, x keep the larger in the second *)
Net == << <<"s",1,2>>, <<"s",4,5>>, <<"s",7,8>>, <<"s",2,3>>, <<"s",5,6>>, <<"s",8,9>>, <<"s",1,2>>, <<"s",4,5>>, <<"s",7,8>>,
          <<"x",1,4>>, <<"x",4,7>>, <<"s",2,5>>, <<"m",5,8>>, <<"x",2,5>>, <<"m",6,9>>, <<"m",3,6>>, <<"s",3,5>>, <<"m",5,7>>, <<"x",3,5>> >>
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x < y THEN y ELSE x
Gate(a, g) == CASE g[1] = "s" -> [a EXCEPT ![g[2]] = Min2(a[g[2]], a[g[3]]), ![g[3]] = Max2(a[g[2]], a[g[3]])]
                [] g[1] = "m" -> [a EXCEPT ![g[2]] = Min2(a[g[2]], a[g[3]])]
                [] g[1] = "x" -> [a EXCEPT ![g[3]] = Max2(a[g[2]], a[g[3]])]
RECURSIVE Run(_, _)
Run(a, i) == IF i > Len(Net) THEN a[5] ELSE Run(Gate(a, Net[i]), i + 1)
=============================================================================
