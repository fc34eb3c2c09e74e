------------------------------ MODULE ColourMC -----------------------------
(* Inputs materialise in any order; the combination starts when all have; its luminance waits in the context
   until it is applied. Several combinations share a context.                                          *)
EXTENDS Colour, Json
CONSTANTS Combos, Emit
VARIABLES ins, got, pc, lum, img, hist
vars == <<ins, got, pc, lum, img, hist>>
F(st, w, h, p, n) == [st |-> st, w |-> w, h |-> h, p |-> p, ex |-> 10 * n, d |-> [k \in 1..(w * h * p) |-> (7 * k * n + 100 * n) % 1000], id |-> n]
Kinds == {<<"ok", 2, 2, 1>>, <<"skip", 2, 2, 1>>, <<"fail", 2, 2, 1>>, <<"ok", 4, 1, 1>>, <<"ok", 2, 1, 3>>}
Lists == UNION {[1..n -> Kinds] : n \in 0..5}
\* all lists with at most two entries out of the ordinary
Some == {s \in Lists : Cardinality({i \in DOMAIN s : s[i] # <<"ok", 2, 2, 1>>}) <= (IF Combos > 1 THEN 1 ELSE 2)} \cup {[i \in 1..n |-> <<"ok", 2, 1, 3>>] : n \in 3..4}
None == [st |-> "none"]
Init == ins = << >> /\ got = {} /\ pc = "idle" /\ lum = None /\ img = None /\ hist = << >>
Begin == /\ pc = "idle" /\ Len(hist) < Combos
         /\ \E s \in Some : ins' = [i \in DOMAIN s |-> F(s[i][1], s[i][2], s[i][3], s[i][4], i + 5 * Len(hist))]
         /\ pc' = "gather" /\ got' = {} /\ img' = None /\ UNCHANGED <<lum, hist>>
Gather == /\ pc = "gather" /\ \E i \in DOMAIN ins \ got : got' = got \cup {i}
          /\ UNCHANGED <<ins, pc, lum, img, hist>>
Combine == /\ pc = "gather" /\ (got = DOMAIN ins \/ Len(ins) \notin {3, 4})
           /\ IF Bad(ins) # "" THEN img' = [st |-> "error", why |-> Bad(ins)] /\ UNCHANGED lum
              ELSE /\ img' = [st |-> "ok", ch |-> <<Plane(ins, 1), Plane(ins, 2), Plane(ins, 3)>>, ex |-> Expose(ins), w |-> ins[1].w, h |-> ins[1].h]
                   /\ lum' = IF Len(ins) = 4 THEN ins[4] ELSE None
           /\ pc' = "combined" /\ UNCHANGED <<ins, got, hist>>
\* applying the luminance is optional, and without one it changes nothing
Light == /\ pc = "combined" /\ img.st = "ok"
         /\ img' = IF lum = None THEN img ELSE [img EXCEPT !.ch[3] = [k \in DOMAIN lum.d |-> Lum(Normal(lum.d[k], Lo({lum}), Hi({lum})))], !.ex = @ + lum.ex]
         /\ lum' = None /\ pc' = "lit" /\ UNCHANGED <<ins, got, hist>>
Finish == /\ pc \in {"combined", "lit"} /\ hist' = Append(hist, [ins |-> ins, lit |-> pc = "lit"]) /\ pc' = "idle" /\ UNCHANGED <<ins, got, lum, img>>
Next == Begin \/ Gather \/ Combine \/ Light \/ Finish
Spec == Init /\ [][Next]_vars
Made == pc \in {"combined", "lit"}
Total == Made => ((img.st = "ok") <=> (Bad(ins) = ""))
Placed == (pc = "combined" /\ img.st = "ok") => \A c \in 1..3 : PlaneLaw(ins[c].d, img.ch[c], Lo(Common(ins)), Hi(Common(ins)))
Colours == (pc = "lit") => \A c \in 1..2 : PlaneLaw(ins[c].d, img.ch[c], Lo(Common(ins)), Hi(Common(ins)))
Lit == (pc = "lit" /\ Len(ins) = 4) => (LumPlane(ins[4].d, img.ch[3], Lo({ins[4]}), Hi({ins[4]})) /\ img.ex = ins[1].ex + ins[2].ex + ins[3].ex + ins[4].ex)
\* the luminance of an earlier combination never reaches this one
NotStale == (pc = "lit" /\ Len(ins) = 3) => \A c \in 1..3 : PlaneLaw(ins[c].d, img.ch[c], Lo(Common(ins)), Hi(Common(ins)))
Span == (Made /\ img.st = "ok") =>
   LET vals == UNION {{img.ch[c][k] : k \in DOMAIN img.ch[c]} : c \in 1..3} IN
   vals \subseteq 0..S /\ ((pc = "combined") => {0, S} \subseteq vals)
Brief(f) == [st |-> f.st, w |-> f.w, h |-> f.h, p |-> f.p, ex |-> f.ex, d |-> f.d]
Emitted == (Emit /\ pc = "idle" /\ Len(hist) = Combos) => PrintT("SCEN" \o ToJson([j \in 1..Len(hist) |-> [lit |-> hist[j].lit, ins |-> [i \in DOMAIN hist[j].ins |-> Brief(hist[j].ins[i])]]]))
=============================================================================
