------------------------------ MODULE StarFind ------------------------------
(* Star detection as a function of the image and the settings, in integer arithmetic (property C18).
   An image is a sequence d of integers in row order (NaN is a missing pixel), indices from 0.
   Settings, a record p: w, h  size;  L background location;  D bright threshold above L;
     r search radius;  io inner to outer brightness ratio;  bp bad pixel threshold (0: off).
   Positions are in thousandths of a pixel. Where rounding or an unspecified order of equal masses
   decides, the answer is marked ambiguous (amb) and only the catalogue conditions are required.        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, OrderStat, TLC
NaN == 999999999
V(d, i) == IF d[i + 1] = NaN THEN -1000000 ELSE d[i + 1]
Col(p, i) == i % p.w
Row(p, i) == i \div p.w
RECURSIVE Isq(_, _, _)
Isq(n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Isq(n, m, hi) ELSE Isq(n, lo, m - 1)
\* thousandths of the square root
Root == TLCEval([q \in 0..128 |-> Isq(q * 1000000, 0, 12000)])
Abs(x) == IF x < 0 THEN -x ELSE x
Square(r) == {<<x, y>> : x \in -r..r, y \in -r..r}
InImage(p, i, o) == Col(p, i) + o[1] \in 0..(p.w - 1) /\ Row(p, i) + o[2] \in 0..(p.h - 1)
At(p, i, o) == i + o[1] + (o[2] * p.w)
\* ---- step 1: bright pixels; within a row only the brightest of a group within the radius
RECURSIVE Bright(_, _, _, _)
Bright(d, p, i, acc) ==
   IF i = p.w * p.h THEN acc
   ELSE IF V(d, i) <= p.L + p.D THEN Bright(d, p, i + 1, acc)
   ELSE LET o == IF acc = << >> THEN -1 ELSE acc[Len(acc)] IN
        IF o # -1 /\ Row(p, o) = Row(p, i) /\ Col(p, o) >= Col(p, i) - p.r
        THEN Bright(d, p, i + 1, IF V(d, o) >= V(d, i) THEN acc ELSE [acc EXCEPT ![Len(acc)] = i])
        ELSE Bright(d, p, i + 1, Append(acc, i))
\* ---- step 2: single bad pixels differ too much from the median around them (neighbours by index)
Good(d, p, i) == p.bp = 0 \/ LET diff2 == (2 * V(d, i)) - Med2(Gather(d, i + 1, Mask(p.w, 15))) IN Abs(diff2) < 2 * p.bp
\* ---- step 3: brightest first, none within the radius of a kept one. A candidate is a record with i, x, y, m
Close(p, a, b) == LET dx == a.x - b.x  dy == a.y - b.y IN
   IF Abs(dx) > 1000 * (p.r + 1) \/ Abs(dy) > 1000 * (p.r + 1) THEN "no"
   ELSE LET q == (dx * dx) + (dy * dy)  lim == ((p.r * p.r) * 1000000) + 500000 IN
        IF q < lim - 20000 THEN "yes" ELSE IF q > lim + 20000 THEN "no" ELSE "amb"
ByMass(s) == SortSeq(s, LAMBDA a, b : a.m > b.m)
RECURSIVE Thin(_, _, _)
Thin(p, s, kept) ==
   IF s = << >> THEN kept
   ELSE Thin(p, Tail(s), IF \E k \in 1..Len(kept) : Close(p, Head(s), kept[k]) = "yes" THEN kept ELSE Append(kept, Head(s)))
ThinAmb(p, s) == \E a, b \in 1..Len(s) : a < b /\ LET c == Close(p, s[a], s[b]) IN c = "amb" \/ (s[a].m = s[b].m /\ c = "yes")
\* ---- step 4: centre of mass above half the threshold; masses in halves
W2(d, p, i) == LET v == (2 * V(d, i)) - ((2 * p.L) + p.D) IN IF v > 0 THEN v ELSE 0
Com(d, p, i) == LET S == {o \in Square(p.r) : InImage(p, i, o)} IN
   [m |-> MapThenSumSet(LAMBDA o : W2(d, p, At(p, i, o)), S),
    mx |-> MapThenSumSet(LAMBDA o : o[1] * W2(d, p, At(p, i, o)), S),
    my |-> MapThenSumSet(LAMBDA o : o[2] * W2(d, p, At(p, i, o)), S)]
Nearest(a, m) == ((2 * a) + m) \div (2 * m)       \* floor(a/m + 1/2)
RECURSIVE Centre(_, _, _, _)
Centre(d, p, s, n) ==
   IF n = 10 THEN s
   ELSE LET c == Com(d, p, s.i)  m == IF c.m = 0 THEN 1 ELSE c.m
            x == (1000 * Col(p, s.i)) + ((1000 * c.mx) \div m)   y == (1000 * Row(p, s.i)) + ((1000 * c.my) \div m)
            t == [i |-> s.i + Nearest(c.mx, m) + (p.w * Nearest(c.my, m)), x |-> x, y |-> y, m |-> c.m,
                  amb |-> s.amb \/ c.m = 0 \/ LET dx == Abs(x - s.x)  dy == Abs(y - s.y) IN dx <= 14 /\ dy <= 14 /\ (dx * dx) + (dy * dy) \in 60..140]
            dx == Abs(x - s.x)  dy == Abs(y - s.y)
        IN IF dx <= 10 /\ dy <= 10 /\ (dx * dx) + (dy * dy) <= 100 THEN t ELSE Centre(d, p, t, n + 1)
\* ---- step 5: flux, half-flux radius, plausibility
W1(d, p, i) == LET v == V(d, i) - p.L IN IF v > 0 THEN v ELSE 0
Disc(q, r) == {o \in Square(r) : (o[1] * o[1]) + (o[2] * o[2]) <= q}
Flux(d, p, i, S) == MapThenSumSet(LAMBDA o : IF InImage(p, i, o) THEN W1(d, p, At(p, i, o)) ELSE 0, S)
Moment(d, p, i, S) == MapThenSumSet(LAMBDA o : IF InImage(p, i, o) THEN Root[(o[1] * o[1]) + (o[2] * o[2])] * W1(d, p, At(p, i, o)) ELSE 0, S)
Whole == {q \in 0..128 : \E k \in 0..12 : k * k = q}
CeilDiv(a, b) == (a + b - 1) \div b
Half(d, p, s) ==
   LET S == Disc(p.r * p.r, p.r)
       m == Flux(d, p, s.i, S)   mo == Moment(d, p, s.i, S)
       exact == \A o \in S : (o[1] * o[1]) + (o[2] * o[2]) \in Whole \/ ~InImage(p, s.i, o) \/ W1(d, p, At(p, s.i, o)) = 0
       h == IF m = 0 THEN 0 ELSE mo \div m                    \* thousandths
       k == mo \div 1000                                      \* exact moment, if exact
       q == IF m = 0 THEN 0 ELSE IF exact THEN CeilDiv(k * k, m * m) ELSE CeilDiv(h * h, 1000000)
       R == CeilDiv(h, 1000) + 1
       I == Disc(q, R)
       im == Flux(d, p, s.i, I)   om == m - im
       ip == Cardinality(I)   op == Cardinality(S) - ip
   IN [i |-> s.i, x |-> s.x, y |-> s.y, mass |-> m, hfr |-> h,
       ok |-> h <= 1000 * p.r /\ im * op > p.io * om * ip,
       amb |-> s.amb \/ m = 0 \/ (~exact /\ ((h * h) % 1000000 < 12000 \/ (h * h) % 1000000 > 988000)) \/ (~exact /\ Abs(h - (1000 * p.r)) < 3)]
Map(f(_), s) == TLCEval([j \in 1..Len(s) |-> f(s[j])])
Detect(d, p) ==
   LET b == SelectSeq(Bright(d, p, 0, << >>), LAMBDA i : Good(d, p, i))
       c0 == Map(LAMBDA i : [i |-> i, x |-> 1000 * Col(p, i), y |-> 1000 * Row(p, i), m |-> V(d, i), amb |-> FALSE], b)
       c1 == Thin(p, ByMass(c0), << >>)
       c2 == Map(LAMBDA s : Centre(d, p, s, 0), c1)
       c3 == Thin(p, ByMass(c2), << >>)
       c4 == Map(LAMBDA s : Half(d, p, s), c3)
       c5 == SelectSeq(c4, LAMBDA s : s.ok)
   IN [stars |-> c5, amb |-> ThinAmb(p, c0) \/ (\E j \in 1..Len(c2) : c2[j].amb) \/ ThinAmb(p, c2) \/ (\E j \in 1..Len(c4) : c4[j].amb)]
\* ---- what every catalogue satisfies: "" or what is wrong. Stars: i, x, y, mass, hfr, v (value of pixel i)
RECURSIVE FirstBad(_, _)
FirstBad(ws, j) == IF j > Len(ws) THEN "" ELSE IF ws[j] # "" THEN ws[j] ELSE FirstBad(ws, j + 1)
\* the star lies at the centre of mass of the window around pixel j
CentredOn(d, p, s, j) == LET c == Com(d, p, j) IN
   /\ c.m > 0 /\ Abs((1000 * Col(p, j)) + ((1000 * c.mx) \div c.m) - s.x) <= 3 /\ Abs((1000 * Row(p, j)) + ((1000 * c.my) \div c.m) - s.y) <= 3
Star(d, p, s) ==
   IF s.i \notin 0..((p.w * p.h) - 1) \/ s.x < 0 \/ s.x > 1000 * (p.w - 1) \/ s.y < 0 \/ s.y > 1000 * (p.h - 1) THEN "star outside of the image"
   ELSE IF Abs(s.x - (1000 * Col(p, s.i))) > 502 \/ Abs(s.y - (1000 * Row(p, s.i))) > 502 THEN "star away from its pixel"
   ELSE IF s.v # d[s.i + 1] THEN "value is not that of the pixel"
   ELSE IF ~(CentredOn(d, p, s, s.i) \/ (\E o \in Square(1) : InImage(p, s.i, o) /\ CentredOn(d, p, s, At(p, s.i, o)))
             \/ (\E o \in Square(p.r) : InImage(p, s.i, o) /\ CentredOn(d, p, s, At(p, s.i, o))))
        THEN "star not at a centre of mass"
   ELSE LET S == Disc(p.r * p.r, p.r) m == Flux(d, p, s.i, S) IN
        IF m <= 0 \/ Abs(s.mass - m) > 1 THEN "wrong mass"
        ELSE IF Abs(s.hfr - (Moment(d, p, s.i, S) \div m)) > 3 \/ s.hfr < 0 \/ s.hfr > (1000 * p.r) + 1 THEN "wrong half-flux radius" ELSE ""
Catalogue(d, p, ss) ==
   IF \E j \in 1..(Len(ss) - 1) : ss[j].mass < ss[j + 1].mass THEN "not by decreasing mass"
   ELSE IF \E a, b \in 1..Len(ss) : a < b /\ Close(p, ss[a], ss[b]) = "yes" THEN "stars closer than the radius"
   ELSE FirstBad([j \in 1..Len(ss) |-> Star(d, p, ss[j])], 1)
Exact(d, p, ss) ==
   LET r == Detect(d, p) IN
   IF r.amb THEN ""
   ELSE IF {ss[j].i : j \in 1..Len(ss)} # {r.stars[j].i : j \in 1..Len(r.stars)} \/ Len(ss) # Len(r.stars) THEN "wrong set of stars"
   ELSE IF \A a \in 1..Len(ss), b \in 1..Len(ss) : ss[a].i = r.stars[b].i => Abs(ss[a].x - r.stars[b].x) <= 3 /\ Abs(ss[a].y - r.stars[b].y) <= 3 THEN ""
   ELSE "star at the wrong position"
=============================================================================
