------------------------------- MODULE MosaicMC -----------------------------
(* A frame is written sample by sample through the filter mosaic from a scene with one brightness per
   colour plus arbitrary extra light on one site; then each channel is reconstructed.                  *)
EXTENDS Mosaic, Json
CONSTANTS MaxSize, Emit
VARIABLES cfa, w, h, d, pos, hot
vars == <<cfa, w, h, d, pos, hot>>
Scene == [R |-> 10, G |-> 20, B |-> 40]
Init == /\ cfa \in Layouts /\ w \in 1..MaxSize /\ h \in 1..MaxSize /\ d = << >> /\ pos = 0
        /\ hot \in 0..(w * h)
Next == /\ pos < w * h /\ pos' = pos + 1 /\ UNCHANGED <<cfa, w, h, hot>>
        /\ d' = Append(d, Scene[Colour(cfa, pos % w, pos \div w)] + (IF pos + 1 = hot THEN 8 ELSE 0))
Spec == Init /\ [][Next]_vars
Done == pos = w * h
ow == OutW(cfa, w)
oh == OutH(cfa, h)
Out == {<<RedX(cfa) + x, RedY(cfa) + y>> : x \in 0..(ow - 1), y \in 0..(oh - 1)}
Hot == <<(hot - 1) % w, (hot - 1) \div w>>
\* each 2x2 block has one red, two green, one blue site, wherever it starts
Blocks == \A x \in 0..1 : \A y \in 0..1 :
   LET n(c) == Cardinality({p \in {<<x,y>>, <<x+1,y>>, <<x,y+1>>, <<x+1,y+1>>} : Colour(cfa, p[1], p[2]) = c}) IN n("R") = 1 /\ n("G") = 2 /\ n("B") = 1
\* the trimmed output starts with red and ends with blue; trimming loses at most a row/column per side
Trim == (Done /\ ow > 0 /\ oh > 0) => /\ Colour(cfa, RedX(cfa), RedY(cfa)) = "R" /\ Colour(cfa, RedX(cfa) + ow - 1, RedY(cfa) + oh - 1) = "B"
                /\ RedX(cfa) + ow <= w /\ RedX(cfa) + ow >= w - 1 /\ RedY(cfa) + oh <= h /\ RedY(cfa) + oh >= h - 1
\* every output position has a site of every colour at hand, so trimming suffices
Covered == Done => \A p \in Out : \A c \in Channels : Within(w, h, Nearest(cfa, c, p[1], p[2])) # {}
\* nearest sites have the requested colour, and are 1, 2 or 4
Pure == Done => \A p \in Out : \A c \in Channels : LET N == Nearest(cfa, c, p[1], p[2]) IN
           Cardinality(N) \in {1, 2, 4} /\ \A q \in N : Colour(cfa, q[1], q[2]) = c
\* a scene of constant colour comes back constant in each channel; extra light on one site stays in its channel and near it
V(c, p) == LET F == Within(w, h, Nearest(cfa, c, p[1], p[2])) IN (100 * Sum(d, w, F)) \div Cardinality(F)
Local == Done => \A p \in Out : \A c \in Channels :
   IF hot # 0 /\ Colour(cfa, Hot[1], Hot[2]) = c /\ Abs(p[1] - Hot[1]) <= 1 /\ Abs(p[2] - Hot[2]) <= 1
   THEN V(c, p) >= 100 * Scene[c] /\ Allowed(d, w, h, cfa, c, p[1], p[2], V(c, p))
   ELSE V(c, p) = 100 * Scene[c] /\ Allowed(d, w, h, cfa, c, p[1], p[2], V(c, p)) /\ ~Allowed(d, w, h, cfa, c, p[1], p[2], V(c, p) + 900)
\* colour of a site, after reflecting the mosaic at the diagonal
Flip == [i \in 1..4 |-> <<cfa[1], cfa[3], cfa[2], cfa[4]>>[i]]
Symmetric == Flip \in Layouts /\ \A p \in Out : \A c \in Channels :
   {<<q[2], q[1]>> : q \in Nearest(cfa, c, p[1], p[2])} = Nearest(Flip, c, p[2], p[1])
\* binning: blocks are disjoint and cover everything but the remainder
BinCover == Done => \A n \in 1..MaxSize : LET bw == w \div n bh == h \div n IN
   /\ Cardinality(UNION {Block(n, w, h, x, y, 0) : x \in 0..(bw - 1), y \in 0..(bh - 1)}) = bw * bh * n * n
   /\ \A x \in 0..(bw - 1) : \A y \in 0..(bh - 1) : \A j \in Block(n, w, h, x, y, 0) : j \in 1..(w * h)
\* binning twice by 2 is binning once by 4
BinTwice == Done => \A x \in 0..((w \div 4) - 1) : \A y \in 0..((h \div 4) - 1) :
   Block(4, w, h, x, y, 0) = UNION {Block(2, w, h, (2 * x) + i, (2 * y) + j, 0) : i \in 0..1, j \in 0..1}
Emitted == (Emit /\ Done /\ hot # 0) => PrintT("SCEN" \o ToJson([cfa |-> cfa, w |-> w, h |-> h, d |-> d]))
=============================================================================
