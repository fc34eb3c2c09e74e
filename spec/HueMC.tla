-------------------------------- MODULE HueMC --------------------------------
(* Sequences of steps on a pixel, in a frame of known background: the laws, and the scenarios. *)
EXTENDS Hue, Json
CONSTANTS MaxSteps, Emit
VARIABLES p, first, done
vars == <<p, first, done>>
Loc == 5000
Scale == 200000
Px(h, s, l) == [h |-> h, s |-> s, l |-> l]
Pixels == {Px(h, s, l) : h \in {0, 4500, 14500, 21000, 34000}, s \in {0, 2500, 10000}, l \in {1000, 5500, 9100}}
St(t, a, b, c, d) == [t |-> t, a |-> a, b |-> b, c |-> c, d |-> d]
Steps == {St("neutral", a, b, 0, 0) : a \in {-5, 0, 5}, b \in {0, 10}}
   \cup {St("gamma", g[1], g[2], 0, d) : g \in {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<3, 1>>, <<-1, 1>>, <<0, 1>>}, d \in {-30, 0, 10}}
   \cup {St("sat", r[1], r[2], c, 0) : r \in {<<100, 190>>, <<295, 40>>, <<30, 30>>, <<0, 360>>}, c \in {-4, 0, 1, 4, 6}}
   \cup {St("rotate", r[1], r[2], c, d) : r \in {<<100, 190>>, <<295, 40>>}, c \in {-60, 0, 30, 160}, d \in {-30, 5}}
   \cup {St("scnr", a, 0, 0, 0) : a \in {0, 1, 4}}
   \cup {St("lum", 0, 0, 0, 0)}
\* the step on the model: saturations through gamma are given by squares and roots of the lattice values
Power(r, n) == IF n = 2 THEN r * r ELSE r * r * r
Root(s, n) == LET t == IF n = 2 THEN s ELSE s * 100 IN CHOOSE r \in 0..100 : Power(r, n) <= t /\ Power(r + 1, n) > t
Pow(s, a, b) == IF b = 2 THEN (s * s) \div S ELSE Root(s, a) * 100
Step(o, q) ==
   IF Off(o) \/ Bad(o) \/ ~Selected(o, q, Loc, Scale) THEN q
   ELSE CASE o.t = "neutral" -> [q EXCEPT !.s = NeutralSat(q.s, q.l, Level(Loc, Scale, o.a), Level(Loc, Scale, o.b))]
          [] o.t = "gamma" -> [q EXCEPT !.s = Pow(q.s, o.a, o.b)]
          [] o.t = "sat" -> [q EXCEPT !.s = Clip((q.s * o.c) \div 4)]
          [] o.t = "rotate" -> [q EXCEPT !.h = Mod(q.h + o.c * 100)]
          [] o.t = "lum" -> [q EXCEPT !.l = S - q.l]
          [] OTHER -> q
Init == p \in Pixels /\ first = p /\ done = <<>>
Next == Len(done) < MaxSteps /\ \E o \in Steps : p' = Step(o, p) /\ done' = Append(done, o) /\ UNCHANGED first
Spec == Init /\ [][Next]_vars
View == <<p, first, done>>
Ranges == p.h \in 0..(Turn - 1) /\ p.s \in 0..S /\ p.l \in 0..S
\* lightness is kept by all but the step which is to replace it; hues by all but those which turn them
Lightness == (\A i \in DOMAIN done : done[i].t # "lum") => p.l = first.l
Hues == (\A i \in DOMAIN done : done[i].t \notin {"rotate", "scnr"}) => p.h = first.h
Greys == first.s = 0 => p.s = 0
Idle == (\A i \in DOMAIN done : Off(done[i]) \/ Bad(done[i])) => p = first
Less(q, r) == q.h = r.h /\ q.l = r.l /\ q.s <= r.s
\* more saturated pixels stay more saturated
Ordered == (Len(done) = 1 /\ done[1].t # "scnr") => \A q \in Pixels : Less(first, q) => p.s <= Step(done[1], q).s
Never == (Len(done) = 1 /\ done[1].t = "neutral") => p.s <= first.s /\ (first.l < Level(Loc, Scale, done[1].a) /\ ~Off(done[1]) => p.s = 0)
\* selecting hues and everything else amounts to all
Halves == (Len(done) = 2 /\ done[1].t = "sat" /\ done[2].t = "sat" /\ done[1].a = done[2].b /\ done[1].b = done[2].a /\ done[1].c = 0 /\ done[2].c = 0 /\ done[1].a # done[1].b /\ first.h \notin {done[1].a * 100, done[1].b * 100}) => p.s = 0
\* the laws by which traces are judged accept what the model does
Lawful == (Len(done) = 1 /\ ~Off(done[1]) /\ ~Bad(done[1]) /\ Selected(done[1], first, Loc, Scale)) =>
            CASE done[1].t = "neutral" -> NeutralLaw(first.s, p.s, first.l, Level(Loc, Scale, done[1].a), Level(Loc, Scale, done[1].b))
              [] done[1].t = "sat" -> SatLaw(first.s, p.s, done[1].c)
              [] OTHER -> TRUE
Emitted == IF Emit /\ Len(done) > 0 /\ first = Px(0, 0, 1000) THEN PrintT("SCEN" \o ToJson([steps |-> done])) ELSE TRUE
=============================================================================
