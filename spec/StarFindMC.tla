----------------------------- MODULE StarFindMC -----------------------------
(* The detector step by step, on sparse small images; stars of equal mass are taken in any order. *)
EXTENDS StarFind, Json
CONSTANTS Width, Height, MaxLit, Emit
VARIABLES d, p, pc, todo, kept, hist
vars == <<d, p, pc, todo, kept, hist>>
N == Width * Height
Sets == {s \in SUBSET (0..(N - 1)) : Cardinality(s) <= MaxLit}
Images == UNION {{[i \in 1..N |-> IF (i - 1) \in s THEN f[i - 1] ELSE 1] : f \in [s -> {4, 7, 12}]} : s \in Sets}
P(r, io, bp) == [w |-> Width, h |-> Height, L |-> 1, D |-> 4, r |-> r, io |-> io, bp |-> bp]
Init == /\ d \in Images /\ p \in {P(1, 1, 0), P(2, 1, 0), P(1, 1, 8)} /\ pc = "scan" /\ todo = << >> /\ kept = << >> /\ hist = << >>
Cand(i) == [i |-> i, x |-> 1000 * Col(p, i), y |-> 1000 * Row(p, i), m |-> V(d, i), amb |-> FALSE]
Scan == /\ pc = "scan" /\ pc' = "thin1" /\ UNCHANGED <<d, p, kept, hist>>
        /\ todo' = Map(Cand, SelectSeq(Bright(d, p, 0, << >>), LAMBDA i : Good(d, p, i)))
\* the brightest of the remaining ones, any of them
Brightest == {j \in 1..Len(todo) : \A k \in 1..Len(todo) : todo[k].m <= todo[j].m}
Drop(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Pick == /\ pc \in {"thin1", "thin2"} /\ todo # << >> /\ UNCHANGED <<d, p, pc, hist>>
        /\ \E j \in Brightest : /\ todo' = Drop(todo, j)
                                /\ kept' = (IF \E k \in 1..Len(kept) : Close(p, todo[j], kept[k]) # "no" THEN kept ELSE Append(kept, todo[j]))
Shift == /\ pc = "thin1" /\ todo = << >> /\ pc' = "thin2" /\ UNCHANGED <<d, p>> /\ hist' = kept
         /\ todo' = Map(LAMBDA s : Centre(d, p, s, 0), kept) /\ kept' = << >>
Measure == /\ pc = "thin2" /\ todo = << >> /\ pc' = "done" /\ UNCHANGED <<d, p, hist, todo>>
           /\ kept' = SelectSeq(Map(LAMBDA s : Half(d, p, s), kept), LAMBDA s : s.ok)
Next == Scan \/ Pick \/ Shift \/ Measure
Spec == Init /\ [][Next]_vars
Apart == \A a, b \in 1..Len(kept) : a # b => Close(p, kept[a], kept[b]) = "no"
Inside == \A s \in {kept[j] : j \in 1..Len(kept)} \cup {todo[j] : j \in 1..Len(todo)} :
             s.i \in 0..(N - 1) /\ s.x \in 0..(1000 * (p.w - 1)) /\ s.y \in 0..(1000 * (p.h - 1))
Lit == {i \in 0..(N - 1) : V(d, i) > 5}
Final == SortSeq(Map(LAMBDA s : [i |-> s.i, x |-> s.x, y |-> s.y, mass |-> s.mass, hfr |-> s.hfr, v |-> d[s.i + 1]], kept), LAMBDA a, b : a.mass > b.mass)
CatalogueOk == (pc = "done") => Catalogue(d, p, Final) = ""
FlatNone == (pc = "done" /\ Lit = {}) => kept = << >>
OnlyOne == (pc = "done" /\ p.bp = 0 /\ \E i \in Lit : \A j \in 0..(N - 1) : j # i => V(d, j) = 1) =>
              Len(kept) = 1 /\ kept[1].hfr = 0 /\ kept[1].i \in Lit /\ kept[1].x = 1000 * Col(p, kept[1].i)
\* a lone bright pixel is a bad pixel
BadGone == (pc = "done" /\ p.bp > 0 /\ \E i \in Lit : V(d, i) = 12 /\ \A j \in 0..(N - 1) : j # i => V(d, j) = 1) => kept = << >>
\* every bright pixel has a candidate nearby (before centring)
NoneMissed == (pc = "thin2" /\ p.bp = 0) => \A i \in Lit : \E j \in 1..Len(hist) : Abs(hist[j].x - (1000 * Col(p, i))) <= 2000 * p.r /\ Abs(hist[j].y - (1000 * Row(p, i))) <= 1000 * p.r + 500
\* where no order or rounding decides, the steps compute the function
Functional == (pc = "done") => LET r == Detect(d, p) IN r.amb \/ {kept[j] : j \in 1..Len(kept)} = {r.stars[j] : j \in 1..Len(r.stars)}
Emitted == (Emit /\ pc = "scan") => PrintT("SCEN" \o ToJson([d |-> d, p |-> p]))
=============================================================================
