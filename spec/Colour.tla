------------------------------- MODULE Colour ------------------------------
(* Combination of frames into a colour image (property C14).
   A frame is [st, w, h, p, ex, d]: st "ok", "skip" (dropped upstream) or "fail", size w x h with p planes,
   exposure ex and pixel data d (integers). *)
EXTENDS Tone

Ok(f) == f.st = "ok"
Shape(f) == <<f.w, f.h, f.p>>
\* why the inputs cannot be combined, "" if they can
Bad(ins) ==
   IF Len(ins) \notin {3, 4} THEN "wrong number of inputs"
   ELSE IF \E i \in DOMAIN ins : ins[i].st = "fail" THEN "an input failed"
   ELSE IF \E i \in DOMAIN ins : ins[i].st = "skip" THEN "an input was skipped"
   ELSE IF \E i \in DOMAIN ins : Shape(ins[i]) # Shape(ins[1]) THEN "inputs differ in size"
   ELSE IF ins[1].p # 1 THEN "inputs are no mono frames"
   ELSE ""
SetMin(X) == CHOOSE x \in X : \A y \in X : x <= y
SetMax(X) == CHOOSE x \in X : \A y \in X : x >= y
Lo(fs) == SetMin(UNION {{f.d[k] : k \in DOMAIN f.d} : f \in fs})
Hi(fs) == SetMax(UNION {{f.d[k] : k \in DOMAIN f.d} : f \in fs})
Common(ins) == {ins[1], ins[2], ins[3]}
Expose(ins) == ins[1].ex + ins[2].ex + ins[3].ex
\* plane c (1..3) of the result, at the same position, in units of 1/S
Plane(ins, c) == [k \in DOMAIN ins[c].d |-> Normal(ins[c].d[k], Lo(Common(ins)), Hi(Common(ins)))]
PlaneLaw(d, y, lo, hi) == /\ Len(d) = Len(y)
                          /\ \A k \in DOMAIN d : IF lo = hi THEN y[k] \in 0..S /\ y[k] = y[1] ELSE NormLaw(d[k], y[k], lo, hi, 0)
\* lightness t of grey level v, both in units of 1/S; the lightness curve is steep near black
LumLaw(v, t) == /\ t \in 0..S
                /\ Abs(LumToGrey(t) - v) <= 6
LumPlane(d, t, lo, hi) == /\ Len(d) = Len(t)
                          /\ (lo # hi) => \A k \in DOMAIN d : LumLaw(Normal(d[k], lo, hi), t[k])
                          /\ (lo = hi) => \A k \in DOMAIN d : t[k] = t[1] /\ t[k] \in 0..S
                          /\ \A j, k \in DOMAIN d : d[j] <= d[k] => t[j] <= t[k]
=============================================================================
