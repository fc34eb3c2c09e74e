---------------------------- MODULE BackgroundMC ----------------------------
(* Small frames of three kinds, with a star, a hot pixel, every grid and clipping: the laws a background
   obeys, and the scenarios for the real code. *)
EXTENDS Background, Json
CONSTANTS Sizes, Grids, Clips, Radii, Emit
VARIABLES w, h, base, star, hot, grid, clip
vars == <<w, h, base, star, hot, grid, clip>>
Kinds == {"flat", "across", "down"}
Value(k, x, y) == CASE k = "flat" -> 50 [] k = "across" -> 40 + 8 * x [] OTHER -> 60 - 8 * y
Spots == {<<0, 0>>, <<3, 3>>, <<2, 1>>}
Init == w \in Sizes /\ h \in Sizes /\ base \in Kinds /\ grid = -1 /\ clip = 0 /\ star = <<>> /\ hot = <<>>
Next == IF grid = -1
        THEN /\ grid' = 0
             /\ star' \in {<<>>} \cup {<<[x |-> 2 * s[1] + 1, y |-> 2 * s[2], r |-> r]>> : s \in Spots, r \in Radii}
             /\ hot' \in {<<>>} \cup Spots
             /\ UNCHANGED <<w, h, base, clip>>
        ELSE grid = 0 /\ grid' \in Grids /\ clip' \in Clips /\ UNCHANGED <<w, h, base, star, hot>>
Spec == Init /\ [][Next]_vars
Data(a, b) == TLCEval([i \in 1..(w * h) |-> LET x == (i - 1) % w y == (i - 1) \div w IN
                  IF hot = <<x, y>> THEN a ELSE Value(base, x, y) + b])
Opts == [grid |-> grid, clip |-> clip, sigma |-> 6, stars |-> star]
D == Data(900, 0)
All == {Value(base, x, y) : x \in 0..(w - 1), y \in 0..(h - 1)}
Free == {<<x, y>> \in (0..(w - 1)) \X (0..(h - 1)) : ~Masked(star, x, y)}
NX == Cells(w, grid)
NY == Cells(h, grid)
\* the grid covers every pixel exactly once
Cover == grid <= 0 \/ (Start(w, NX, 0) = 0 /\ Start(w, NX, NX) = w /\ \A i \in 0..(NX - 1) : Start(w, NX, i) <= Start(w, NX, i + 1))
\* a flat frame is its own background
Flat == grid <= 0 \/ ((base = "flat" /\ hot = <<>>) => LET b == Render(D, w, h, Opts) IN \A i \in DOMAIN b : b[i] = IF Free = {} THEN 0 ELSE 50000)
\* smoothed cells are within the values of the frame away from stars
Within == grid <= 0 \/ (LET g == Grid(D, w, h, Opts) IN Free # {} => \A i \in DOMAIN g :
            \E p, q \in Free : D[p[2] * w + p[1] + 1] * 1000 <= g[i] + 100 /\ g[i] <= D[q[2] * w + q[1] + 1] * 1000 + 100)
\* pixels under stars do not matter
Blind == grid <= 0 \/ ((hot # <<>> /\ Masked(star, hot[1], hot[2])) => Grid(D, w, h, Opts) = Grid(Data(1, 0), w, h, Opts))
\* a brighter frame has a brighter background by as much
Shift == grid <= 0 \/ (hot = <<>> => LET g == Grid(D, w, h, Opts) g2 == Grid(Data(0, 7), w, h, Opts) IN \A i \in DOMAIN g : g2[i] - g[i] = IF Free = {} THEN 0 ELSE 7000)
\* one hot pixel among many does not matter to a flat frame
Robust == grid <= 0 \/ ((base = "flat" /\ (w \div NX) * (h \div NY) >= 3 /\ star = <<>> /\ clip = 0) => LET g == Grid(D, w, h, Opts) IN \A i \in DOMAIN g : g[i] = 50000)
\* the scenarios
Emitted == IF Emit /\ grid > 0 THEN PrintT("SCEN" \o ToJson([w |-> w, h |-> h, data |-> D, stars |-> star, grid |-> grid, clip |-> clip])) ELSE TRUE
=============================================================================
