---------------------------- MODULE StatsCacheMC -----------------------------
(* Design: a frame owns pixels and a lazily filled cache of statistics in three groups. A
   processing step either replaces the pixels (and must drop the cache) or maps them affinely (and
   must map the cached values along, swapping the ends for a negative factor). Another frame may be
   matched to a snapshot of the statistics of a reference frame taken earlier. TLC enumerates all
   histories of steps and queries up to a length; the histories drive the conformance harness. *)
EXTENDS StatsCache, Json
CONSTANTS Values, Offsets, MaxLen, Emit
Factors == {2, -1}
Frames == {1, 2}
Groups == {"mmm", "sd", "loc"}      \* noise is handled like sd
VARIABLES pix, have, cache, snap, hist
vars == <<pix, have, cache, snap, hist>>
Px == [1..3 -> Values]
Truth(p) == [mmm |-> <<MinOf(p), Sum(p), MaxOf(p)>>, sd |-> FoldSum(LAMBDA i : Abs((3 * p[i]) - Sum(p)), 1, 3),
             loc |-> MedianOdd(p)]
NoCache == [mmm |-> <<0, 0, 0>>, sd |-> 0, loc |-> 0]
Init == /\ pix = [f \in Frames |-> IF f = 1 THEN <<0, 1, 2>> ELSE <<1, 0, 0>>]
        /\ have = [f \in Frames |-> {}]
        /\ cache = [f \in Frames |-> NoCache]
        /\ snap = << >>
        /\ hist = << >>
Step(e) == Len(hist) < MaxLen /\ hist' = Append(hist, e)
Query(f, g) == /\ Step([k |-> "q", f |-> f, g |-> g, a |-> 0, b |-> 0])
               /\ cache' = [cache EXCEPT ![f][g] = IF g \in have[f] THEN @ ELSE Truth(pix[f])[g]]
               /\ have' = [have EXCEPT ![f] = @ \cup {g}]
               /\ UNCHANGED <<pix, snap>>
Replace(f) == /\ Step([k |-> "r", f |-> f, g |-> "", a |-> 0, b |-> 0])
              /\ \E p \in {<<2, 0, 0>>, <<1, 2, 1>>} : pix' = [pix EXCEPT ![f] = p]
              /\ have' = [have EXCEPT ![f] = {}]
              /\ UNCHANGED <<cache, snap>>
Map(p, a, b) == [i \in 1..3 |-> (a * p[i]) + b]
MapCache(c, a, b) == [mmm |-> IF a < 0 THEN <<(a * c.mmm[3]) + b, (a * c.mmm[2]) + (3 * b), (a * c.mmm[1]) + b>>
                              ELSE <<(a * c.mmm[1]) + b, (a * c.mmm[2]) + (3 * b), (a * c.mmm[3]) + b>>,
                      sd |-> Abs(a) * c.sd, loc |-> (a * c.loc) + b]
Affine(f, a, b) == /\ Step([k |-> "a", f |-> f, g |-> "", a |-> a, b |-> b])
                   /\ \A i \in 1..3 : Abs(pix[f][i]) < 1000
                   /\ pix' = [pix EXCEPT ![f] = Map(@, a, b)]
                   /\ cache' = [cache EXCEPT ![f] = MapCache(@, a, b)]
                   /\ UNCHANGED <<have, snap>>
\* choose frame 1 as histogram reference: its location as of now
Select == /\ snap = << >> /\ Step([k |-> "s", f |-> 1, g |-> "", a |-> 0, b |-> 0])
          /\ snap' = <<Truth(pix[1]).loc, Truth(pix[1]).loc>>
          /\ cache' = [cache EXCEPT ![1].loc = Truth(pix[1]).loc]
          /\ have' = [have EXCEPT ![1] = @ \cup {"loc"}]
          /\ UNCHANGED pix
\* match by shifting (the code multiplies; the cache law is the same affine one)
Match(f) == /\ snap # << >> /\ Step([k |-> "m", f |-> f, g |-> "", a |-> 0, b |-> 0])
            /\ LET b == snap[1] - MedianOdd(pix[f]) IN
               /\ pix' = [pix EXCEPT ![f] = Map(@, 1, b)]
               /\ cache' = [cache EXCEPT ![f] = [MapCache(@, 1, b) EXCEPT !.loc = MedianOdd(pix[f]) + b]]
               /\ have' = [have EXCEPT ![f] = @ \cup {"loc"}]
               /\ UNCHANGED snap
Next == \/ \E f \in Frames, g \in Groups : Query(f, g)
        \/ \E f \in Frames : Replace(f) \/ Match(f)
        \/ \E f \in Frames, a \in Factors, b \in Offsets : Affine(f, a, b)
        \/ Select
Spec == Init /\ [][Next]_vars
\* every value that would be reported from the cache is the one of the current pixels
Fresh == \A f \in Frames : \A g \in have[f] : cache[f][g] = Truth(pix[f])[g]
SnapStable == snap = << >> \/ snap[1] = snap[2]
\* after matching, the location is that of the reference when it was selected
Matched == (Len(hist) > 0 /\ hist[Len(hist)].k = "m") => MedianOdd(pix[hist[Len(hist)].f]) = snap[1]
EmitHist == Emit /\ Len(hist) = MaxLen => PrintT("HIST" \o ToJson([h |-> hist]))
=============================================================================
