-------------------------------- MODULE Mosaic ------------------------------
(* Colour filter mosaics (properties C15, C19): which colour a sensor site has, what debayering makes
   of one colour, and block binning. Frames are sequences in row order, positions 0-based. A layout is
   the name as a sequence of four letters, read off the first 2x2 block row by row.                    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
Layouts == {<<"R","G","G","B">>, <<"G","R","B","G">>, <<"G","B","R","G">>, <<"B","G","G","R">>}
Channels == {"R", "G", "B"}
At(d, w, x, y) == d[y * w + x + 1]
Colour(cfa, x, y) == cfa[1 + ((x + 2) % 2) + 2 * ((y + 2) % 2)]
\* first column/row containing red: the output starts there and has even size
RedX(cfa) == CHOOSE x \in 0..1 : \E y \in 0..1 : Colour(cfa, x, y) = "R"
RedY(cfa) == CHOOSE y \in 0..1 : \E x \in 0..1 : Colour(cfa, x, y) = "R"
Even(n) == n - (n % 2)
OutW(cfa, w) == IF w <= RedX(cfa) THEN 0 ELSE Even(w - RedX(cfa))
OutH(cfa, h) == IF h <= RedY(cfa) THEN 0 ELSE Even(h - RedY(cfa))
Cross == {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>}
Diag == {<<1, 1>>, <<1, -1>>, <<-1, 1>>, <<-1, -1>>}
\* nearest sites of a colour on the unbounded mosaic
Nearest(cfa, ch, x, y) ==
   IF Colour(cfa, x, y) = ch THEN {<<x, y>>}
   ELSE LET near(D) == {<<x + o[1], y + o[2]>> : o \in {o \in D : Colour(cfa, x + o[1], y + o[2]) = ch}}
        IN IF near(Cross) # {} THEN near(Cross) ELSE near(Diag)
Inside(w, h, p) == p[1] \in 0..(w - 1) /\ p[2] \in 0..(h - 1)
Within(w, h, S) == {p \in S : Inside(w, h, p)}
Sum(d, w, S) == MapThenSumSet(LAMBDA p : At(d, w, p[1], p[2]), S)
MinOf(d, w, S) == Min({At(d, w, p[1], p[2]) : p \in S})
MaxOf(d, w, S) == Max({At(d, w, p[1], p[2]) : p \in S})
Abs(n) == IF n < 0 THEN -n ELSE n
(* v100: the value produced at frame position (x,y), in hundredths. With all nearest sites in the frame
   it is their mean; at the border a weighted mean of those in the frame.                              *)
Allowed(d, w, h, cfa, ch, x, y, v100) ==
   LET N == Nearest(cfa, ch, x, y) F == Within(w, h, N) IN
   /\ F # {}
   /\ IF F = N THEN Abs((v100 * Cardinality(N)) - (100 * Sum(d, w, N))) <= Cardinality(N)
      ELSE v100 >= (100 * MinOf(d, w, F)) - 1 /\ v100 <= (100 * MaxOf(d, w, F)) + 1
Debayered(d, w, h, cfa, ch, ow, oh, out) ==
   IF ow # OutW(cfa, w) \/ oh # OutH(cfa, h) \/ Len(out) # ow * oh THEN "wrong size"
   ELSE LET bad == {i \in 0..((ow * oh) - 1) : ~Allowed(d, w, h, cfa, ch, RedX(cfa) + (i % ow), RedY(cfa) + (i \div ow), out[i + 1])}
        IN IF bad = {} THEN "" ELSE "wrong value at output pixel " \o ToString(Min(bad))
(* Binning by n in x and y, each plane of a multi-channel image for itself. *)
Block(n, w, h, x, y, z) == {z * w * h + (y * n + j) * w + (x * n + i) + 1 : i \in 0..(n - 1), j \in 0..(n - 1)}
Binned(d, w, h, planes, n, ow, oh, oplanes, out) ==
   IF ow # w \div n \/ oh # h \div n \/ oplanes # planes \/ Len(out) # ow * oh * planes THEN "wrong size"
   ELSE LET bad == {q \in 0..(Len(out) - 1) :
                      LET x == q % ow y == (q \div ow) % oh z == q \div (ow * oh)
                          s == MapThenSumSet(LAMBDA j : d[j], Block(n, w, h, x, y, z))
                      IN Abs((out[q + 1] * n * n) - (100 * s)) > n * n}
        IN IF bad = {} THEN "" ELSE "wrong value at binned pixel " \o ToString(Min(bad))
=============================================================================
