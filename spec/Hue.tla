--------------------------------- MODULE Hue ---------------------------------
(* Adjustments of colours given as hue, saturation and lightness. Pixels are [h, s, l] with the hue in
   hundredths of a degree and the rest in units of 1/S. The lightness of the background and its spread
   are loc (units of 1/S) and scale (millionths); settings in spreads are in tenths. Steps are
   [t, a, b, c, d]:
     neutral  a, b      no colour below a spreads above the background, full colour above b
     gamma    a/b, d    gamma of the saturation from d spreads above the background
     sat      a, b, c   saturation times c/4 for hues from a to b degrees, through 360 if a > b
     rotate   a, b, c, d   hues from a to b turned by c degrees, from d spreads above the background
     scnr     a         green above the mean of red and blue reduced by a quarters of the excess
     lum                lightness replaced by another frame                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
S == 10000
Turn == 36000
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Level(loc, scale, tenths) == loc + ((tenths * scale) \div 1000)
Clip(x) == IF x < 0 THEN 0 ELSE IF x > S THEN S ELSE x
Off(o) == CASE o.t = "neutral" -> o.a <= 0 /\ o.b <= 0
            [] o.t = "gamma" -> o.a = o.b
            [] o.t = "sat" -> o.c = 4
            [] o.t = "rotate" -> o.c = 0
            [] o.t = "scnr" -> o.a = 0
            [] OTHER -> FALSE
Bad(o) == o.t = "gamma" /\ o.a <= 0
\* hues in a range of degrees
InHues(h, a, b) == IF a <= b THEN h > a * 100 /\ h < b * 100 ELSE h > a * 100 \/ h < b * 100
Mod(h) == h % Turn
Apart(g, h) == LET d == Mod(g - h) IN IF d > Turn \div 2 THEN Turn - d ELSE d
Edge(h, a, b) == Apart(h, a * 100) <= 1 \/ Apart(h, b * 100) <= 1
\* the pixels a step is about
Selected(o, p, loc, scale) ==
   CASE o.t = "neutral" -> p.l < Level(loc, scale, IF o.b > o.a THEN o.b ELSE o.a)
     [] o.t = "gamma" -> p.l >= Level(loc, scale, o.d)
     [] o.t = "sat" -> InHues(p.h, o.a, o.b)
     [] o.t = "rotate" -> p.l >= Level(loc, scale, o.d) /\ InHues(p.h, o.a, o.b)
     [] OTHER -> TRUE
\* within rounding of being one of them or not
Margin(o, p, loc, scale) ==
   CASE o.t = "neutral" -> Abs(p.l - Level(loc, scale, o.a)) <= 2 \/ Abs(p.l - Level(loc, scale, o.b)) <= 2
     [] o.t = "gamma" -> Abs(p.l - Level(loc, scale, o.d)) <= 2
     [] o.t = "sat" -> Edge(p.h, o.a, o.b)
     [] o.t = "rotate" -> Abs(p.l - Level(loc, scale, o.d)) <= 2 \/ Edge(p.h, o.a, o.b)
     [] OTHER -> FALSE
\* ---- what becomes of a selected pixel; where the result is not a whole number, its laws
T == INSTANCE Tone
NeutralLaw(s, s2, l, lo, hi) ==
   IF l < lo THEN s2 = 0
   ELSE Abs(s2 * (hi - lo) - s * (l - lo)) <= 2 * (hi - lo) + 3 * s + 3 * s2
NeutralSat(s, l, lo, hi) == IF l < lo THEN 0 ELSE IF l < hi THEN (s * (l - lo)) \div (hi - lo) ELSE s
SatLaw(s, s2, c) == Abs(s2 - Clip((s * c) \div 4)) <= 1 + Abs(c)
GreenTo(r, g, b, a) == LET m == (r + b) \div 2 IN IF g <= m THEN g ELSE g - ((g - m) * a) \div 4
\* lightness of grey: y and l in units of 1/S; cube of (l + .16) / 1.16, or linear near black
Cube(l) == LET t == l + 1600 IN (((t * t) \div 1000) * t) \div 156090
GreyLaw(y, l) == IF y <= 80 THEN Abs(l * 1000 - y * 9033) <= 10000 ELSE Abs(Cube(l) - y) <= 6
=============================================================================
