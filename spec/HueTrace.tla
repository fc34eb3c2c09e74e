------------------------------ MODULE HueTrace ------------------------------
(* Recorded colour adjustments and conversions against Hue.tla. *)
EXTENDS Hue, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
\* a recorded pixel: before and after in units of 1/S, which of the planes are bit for bit the same, and for
\* scnr its red, green and blue before, and those of its new colour
Px(x) == [h |-> x[1], s |-> x[2], l |-> x[3]]
SameH(x) == x[7] = 1
SameS(x) == x[8] = 1
SameL(x) == x[9] = 1
Same(x) == SameH(x) /\ SameS(x) /\ SameL(x)
Kept(t, x) == CASE t \in {"neutral", "gamma", "sat"} -> SameH(x) /\ SameL(x) [] t = "rotate" -> SameS(x) /\ SameL(x)
                [] t = "scnr" -> SameL(x) [] t = "lum" -> SameH(x) /\ SameS(x) [] OTHER -> FALSE
Becomes(e, x) ==
   LET o == e.o p == Px(x) IN
   CASE o.t = "neutral" -> NeutralLaw(p.s, x[5], p.l, Level(e.loc, e.scale, o.a), Level(e.loc, e.scale, o.b))
     [] o.t = "gamma" -> T!GammaLaw(p.s, x[5], o.a, o.b, 1)
     [] o.t = "sat" -> SatLaw(p.s, x[5], o.c)
     [] o.t = "rotate" -> x[4] \in 0..Turn /\ Apart(x[4], p.h + o.c * 100) <= 2
     [] o.t = "scnr" -> x[4] \in 0..Turn /\ x[5] \in 0..S /\ (p.l \in 300..9700 => (Abs(x[13] - x[10]) <= 12 /\ Abs(x[15] - x[12]) <= 12 /\ Abs(x[14] - GreenTo(x[10], x[11], x[12], o.a)) <= 12))
     [] o.t = "lum" -> GreyLaw(x[10], x[6])
     [] OTHER -> FALSE
PixelWhy(e, x) ==
   LET o == e.o IN
   IF ~Kept(o.t, x) THEN "changed what it is not about: " \o ToString(x)
   ELSE IF Margin(o, Px(x), e.loc, e.scale) THEN (IF Same(x) \/ Becomes(e, x) \/ o.t = "neutral" THEN "" ELSE "neither kept nor adjusted: " \o ToString(x))
   ELSE IF ~Selected(o, Px(x), e.loc, e.scale) THEN (IF Same(x) THEN "" ELSE "changed a pixel outside the selection: " \o ToString(x))
   ELSE IF Becomes(e, x) THEN "" ELSE "not as the settings say: " \o ToString(x)
StepWhy(e) ==
   LET o == e.o IN
   IF e.flat # 0 THEN "the number of planes or pixels changed"
   ELSE IF Off(o) \/ e.nolum THEN (IF e.err # "" THEN "refused: " \o e.err ELSE IF \E i \in DOMAIN e.px : ~Same(e.px[i]) THEN "changed although switched off" ELSE "")
   ELSE IF Bad(o) \/ e.planes # 3 \/ e.missized THEN (IF e.err = "" THEN "was not refused" ELSE "")
   ELSE IF e.err # "" THEN "refused: " \o e.err
   ELSE IF o.t = "lum" /\ ~e.spent THEN "the luminance is still there"
   ELSE IF ~e.stats THEN "statistics are those of the frame before"
   ELSE LET bad == {i \in DOMAIN e.px : PixelWhy(e, e.px[i]) # ""}
        IN IF bad = {} THEN "" ELSE PixelWhy(e, e.px[CHOOSE i \in bad : TRUE])
\* red, green, blue; hue, saturation, lightness; red, green, blue again
TripWhy(x) ==
   IF ~(x[4] \in 0..Turn /\ x[5] \in 0..S /\ x[6] \in 0..S) THEN "hue, saturation or lightness out of range: " \o ToString(x)
   ELSE IF \E i \in 1..3 : Abs(x[i + 6] - x[i]) > 6 THEN "colours do not come back: " \o ToString(x)
   ELSE IF x[1] = x[2] /\ x[2] = x[3] /\ ~(x[5] <= 30 \/ x[6] < 100 \/ x[6] > 9900) THEN "grey has a colour: " \o ToString(x)
   ELSE IF x[1] = x[2] /\ x[2] = x[3] /\ ~GreyLaw(x[1], x[6]) THEN "lightness of a grey: " \o ToString(x)
   ELSE ""
\* hue, saturation, lightness; red, green, blue; hue, saturation, lightness again
BackWhy(x) ==
   IF \E i \in 4..6 : ~(x[i] \in -10..S) THEN "red, green or blue out of range: " \o ToString(x)
   ELSE IF x[3] \notin 500..9500 THEN ""
   ELSE IF Abs(x[9] - x[3]) > 12 THEN "lightness does not come back: " \o ToString(x)
   ELSE IF Abs(x[8] - x[2]) > 60 THEN "saturation does not come back: " \o ToString(x)
   ELSE IF x[2] >= 1000 /\ Apart(x[7], x[1]) > 40 THEN "hue does not come back: " \o ToString(x)
   ELSE ""
Why(e) ==
   IF e.panic # "" THEN "crash: " \o e.panic
   ELSE IF e.k = "step" THEN StepWhy(e)
   ELSE IF e.err # "" THEN (IF e.planes # 3 THEN "" ELSE "refused: " \o e.err)
   ELSE IF e.planes # 3 THEN "was not refused"
   ELSE LET W(x) == IF e.k = "trip" THEN TripWhy(x) ELSE BackWhy(x)
            bad == {i \in DOMAIN e.px : W(e.px[i]) # ""}
        IN IF bad = {} THEN "" ELSE W(e.px[CHOOSE i \in bad : TRUE])
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"MISMATCH", l, w>>)
TraceSpec == l = 1 /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
