------------------------------ MODULE Resample ------------------------------
(* Frames resampled through affine transformations, in exact integer arithmetic.
   A transformation is a record of numerators A..F over the denominator S:
      x' = (A x + B y + C)/S     y' = (D x + E y + F)/S
   The source position of a target pixel is a pair of numerators over Det.          *)
EXTENDS Integers, Sequences, FiniteSets
NaN == 999999999
RawDet(t) == t.A * t.E - t.B * t.D
Sgn(t) == IF RawDet(t) < 0 THEN -1 ELSE 1
Det(t) == Sgn(t) * RawDet(t)
PosX(t, x, y) == Sgn(t) * (t.E * (t.S * x - t.C) - t.B * (t.S * y - t.F))
PosY(t, x, y) == Sgn(t) * (t.A * (t.S * y - t.F) - t.D * (t.S * x - t.C))
Inside(t, w, h, x, y) == /\ PosX(t, x, y) >= 0 /\ PosX(t, x, y) <= (w - 1) * Det(t)
                         /\ PosY(t, x, y) >= 0 /\ PosY(t, x, y) <= (h - 1) * Det(t)
\* value of a source pixel (d: samples row by row, off: start of the plane)
Px(d, w, off, x, y) == d[off + x + (y * w) + 1]
\* the up to four pixels with a weight: <<value, weight>>, the weights add up to Det^2
Corners(d, w, off, t, x, y) ==
   LET N == Det(t)
       xl == PosX(t, x, y) \div N   rx == PosX(t, x, y) % N
       yl == PosY(t, x, y) \div N   ry == PosY(t, x, y) % N
   IN {<<Px(d, w, off, xl + i, yl + j), (IF i = 1 THEN rx ELSE N - rx) * (IF j = 1 THEN ry ELSE N - ry), i, j>> :
         i \in (IF rx = 0 THEN {0} ELSE {0, 1}), j \in (IF ry = 0 THEN {0} ELSE {0, 1})}
RECURSIVE SumOf(_)
SumOf(c) == IF c = {} THEN 0 ELSE LET e == CHOOSE e \in c : TRUE IN (e[1] * e[2]) + SumOf(c \ {e})
\* interpolated value times Det^2, NaN if a pixel with weight is missing
Bilinear(d, w, off, t, x, y) ==
   LET c == Corners(d, w, off, t, x, y) IN IF \E e \in c : e[1] = NaN THEN NaN ELSE SumOf(c)
\* exactly on the edge, exactly on a pixel column or row: where rounding may decide
OnEdge(t, w, h, x, y) == PosX(t, x, y) \in {0, (w - 1) * Det(t)} \/ PosY(t, x, y) \in {0, (h - 1) * Det(t)}
OnGrid(t, x, y) == PosX(t, x, y) % Det(t) = 0 \/ PosY(t, x, y) % Det(t) = 0
=============================================================================
