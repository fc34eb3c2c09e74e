------------------------------- MODULE ToneMC ------------------------------
(* A frame's tone curve under sequences of operators, each placed by the settings and, where it asks for
   them, by the location and spread the curve has given the frame so far.                              *)
EXTENDS Tone, Json
CONSTANTS MaxOps, Emit
VARIABLES f0, f, hist
vars == <<f0, f, hist>>
Points == <<0, 1, 40, 700, 900, 1000, 1100, 1300, 2500, 6000, 9999, 10000>>
N == Len(Points)
Bg == 6                    \* the background level of the frame is that of this point
Frames == {Points, [i \in 1..N |-> IF i = 1 THEN 0 ELSE 1000], [i \in 1..N |-> 300 + (Points[i] \div 4)]}
Loc(g) == g[Bg]
Spr(g) == Max2(1, (g[Bg + 1] - g[Bg - 1]) \div 2)
Op(t, a, b) == [t |-> t, a |-> a, b |-> b]
Ops == {Op("normRange", 0, 0), Op("gamma", 1, 1), Op("gamma", 2, 1), Op("gamma", 1, 2), Op("gamma", 3, 1), Op("gammaPP", 2, 0), Op("gammaPP", 2, 4), Op("gammaPP", 1, 0),
        Op("midtones", 0, 1), Op("midtones", 4, 1), Op("midtones", 4, 30), Op("midtones", 9000, 1), Op("midtones", 4, 0), Op("scaleBlack", 0, 0), Op("scaleBlack", 500, 0), Op("scaleBlack", 9900, 0)}
Apply(o, g, x) ==
   CASE o.t = "normRange" -> Normal(x, g[1], g[N])
     [] o.t = "gamma" -> IF o.a = o.b THEN x ELSE Gamma(x, o.a, o.b)
     [] o.t = "gammaPP" -> IF o.a = 1 THEN x ELSE PartGamma(x, Max2(0, Loc(g) + o.b * Spr(g)), o.a, 1)
     [] o.t = "midtones" -> LET m == o.a * Spr(g) k == Max2(0, Loc(g) - o.b * Spr(g)) IN IF o.a = 0 \/ m >= S \/ k >= S THEN x ELSE Midtones(x, m, k)
     [] o.t = "scaleBlack" -> IF o.a = 0 THEN x ELSE ScaleBlack(x, Loc(g), o.a)
Init == f0 \in Frames /\ f = f0 /\ hist = << >>
\* steps whose curve the lattice of the model can represent
Resolved(o) == IF ~(o.t = "midtones" /\ o.a # 0) THEN TRUE ELSE LET m == o.a * Spr(f) k == Max2(0, Loc(f) - o.b * Spr(f)) IN IF m >= S THEN TRUE ELSE IF k >= S THEN TRUE ELSE Mid(k, m) <= S - 1000
Step == /\ Len(hist) < MaxOps
        /\ \E o \in Ops : Resolved(o) /\ hist' = Append(hist, o) /\ f' = [i \in 1..N |-> Apply(o, f, f[i])] /\ UNCHANGED f0
Next == Step
Spec == Init /\ [][Next]_vars
Mono == \A i \in 2..N : f[i - 1] <= f[i]
InRange == \A i \in 1..N : f[i] \in 0..S
EndsFixed == /\ f0[1] = 0 => f[1] = 0
             /\ f0[N] = S => f[N] = S
\* equal inputs stay equal
Equal == \A i, j \in 1..N : f0[i] = f0[j] => f[i] = f[j]
Neutral == \A o \in Ops : (o.t \in {"gamma", "gammaPP"} /\ o.a = 1 /\ (o.t = "gammaPP" \/ o.b = 1)) \/ (o.t \in {"midtones", "scaleBlack"} /\ o.a = 0) => \A i \in 1..N : Apply(o, f, f[i]) = f[i]
\* the curves satisfy the laws by which recordings of the code are judged
Lawful == \A i \in 1..N : \A o \in Ops : LET x == f[i] y == Apply(o, f, x) IN
   CASE o.t = "normRange" -> f[1] # f[N] => NormLaw(x, y, f[1], f[N], 0)
     [] o.t = "gamma" -> GammaLaw(x, y, o.a, o.b, 1)
     [] o.t = "gammaPP" /\ o.a # 1 /\ Loc(f) + o.b * Spr(f) < S -> PartLaw(x, y, x = y, Max2(0, Loc(f) + o.b * Spr(f)), o.a, 1)
     [] o.t = "midtones" /\ o.a # 0 /\ o.a * Spr(f) < S /\ Loc(f) - o.b * Spr(f) < S -> MidLaw(x, y, o.a * Spr(f), Max2(0, Loc(f) - o.b * Spr(f)))
     [] o.t = "scaleBlack" /\ o.a # 0 /\ Loc(f) > o.a /\ Loc(f) < S -> BlackLaw(x, y, Loc(f), o.a)
     [] OTHER -> TRUE
\* normalising twice is normalising once; a power and its inverse cancel
Idempotent == f[1] # f[N] => \A i \in 1..N : LET g == [j \in 1..N |-> Normal(f[j], f[1], f[N])] IN Normal(g[i], g[1], g[N]) = g[i]
Inverse == \A i \in 1..N : Abs(Gamma(Gamma(f[i], 2, 1), 1, 2) - f[i]) <= 3
\* the location of the background ends up where the black point step was told to put it
Placed == \A t \in {500, 9900} : Loc(f) > t /\ Loc(f) < S => Abs(ScaleBlack(Loc(f), Loc(f), t) - t) <= 1
Emitted == (Emit /\ Len(hist) = MaxOps) => PrintT("SCEN" \o ToJson([f |-> f0, ops |-> hist]))
=============================================================================
