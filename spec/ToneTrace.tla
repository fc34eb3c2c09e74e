------------------------------ MODULE ToneTrace -----------------------------
EXTENDS Tone, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
\* the operators on one channel of a colour frame obey the laws of their namesakes on whole frames
Kind(op) == CASE op = "hslGamma" -> "gamma" [] op = "hslGammaPP" -> "gammaPP" [] op = "hslMidtones" -> "midtones" [] op = "hslScaleBlack" -> "scaleBlack"
              [] op = "hslScaleOffsetChannel" -> "scaleOffset" [] op = "hslStretch" -> "stretch" [] OTHER -> op
Target(e) == IF e.op = "hslScaleBlack" THEN Lum(e.a) ELSE e.a
M(e) == (IF e.a >= 5000 THEN ((e.a \div 100) * e.st.scale) \div 10 ELSE (e.a * e.st.scale) \div 1000)          \* settings in tenths, spread in millionths
K(e) == Max2(0, e.st.loc - ((e.b * e.st.scale) \div 1000))
From(e) == Max2(0, e.st.loc + ((e.b * e.st.scale) \div 1000))
Neutral(e) ==
   CASE Kind(e.op) = "gamma" -> e.a = e.b
     [] Kind(e.op) = "gammaPP" -> e.a = e.c
     [] Kind(e.op) = "scaleOffset" -> e.a = 4 /\ e.b = 0
     [] Kind(e.op) = "midtones" -> e.a = 0
     [] Kind(e.op) = "scaleBlack" -> e.a = 0 \/ e.st.loc < Target(e) - 4 \/ e.st.loc >= S
     [] Kind(e.op) = "stretch" -> e.a = 0 /\ e.b = 0
     [] e.op = "matchHist" -> e.a = 0
     [] e.op = "normRange" -> e.st.min = e.st.max
Unit(e) == ~e.raw /\ e.op # "matchHist"
\* within rounding of a limit beyond which the step does not apply
Limit(e) == CASE Kind(e.op) = "midtones" -> M(e) <= 3 \/ M(e) >= S - 3 \/ K(e) >= S - 100
              [] Kind(e.op) = "gammaPP" -> From(e) >= S - 100
              [] Kind(e.op) = "scaleBlack" -> Abs(e.st.loc - Target(e)) <= 5 \/ e.st.loc >= S - 100
              [] e.op = "matchHist" -> e.st.loc < 20 \/ e.st.loc > S - 100 \/ e.ref.loc > S - 100 \/ e.st.scale \in 1..2000
              [] OTHER -> FALSE
Law(e, p) ==
   CASE e.op = "normRange" -> NormLaw(p.x, p.y, e.st.min, e.st.max, IF e.raw THEN 0 ELSE 1)
     [] Kind(e.op) = "scaleOffset" -> LinearLaw(p.x, p.y, e.a, e.b)
     [] Kind(e.op) = "gamma" -> GammaLaw(p.x, p.y, e.a, e.b, 1)
     [] Kind(e.op) = "gammaPP" -> PartLaw(p.x, p.y, p.same, From(e), e.a, e.c)
     [] Kind(e.op) = "midtones" -> MidLaw(p.x, p.y, M(e), K(e))
     [] Kind(e.op) = "scaleBlack" -> BlackLaw(p.x, p.y, e.st.loc, Target(e))
     [] Kind(e.op) = "stretch" -> TRUE
     [] e.op = "matchHist" ->
          IF e.a = 1 THEN Abs(p.y * e.st.loc - p.x * e.ref.loc) <= 2 * (e.st.loc + e.ref.loc + p.x + p.y)
          ELSE IF e.a = 2 /\ e.st.scale = 0 THEN Abs((p.y - p.x) - (e.ref.loc - e.st.loc)) <= 3
          ELSE IF e.a = 2 THEN LET ss == e.st.scale \div 10 rs == e.ref.scale \div 10 IN
               Abs((p.y - e.ref.loc) * ss - (p.x - e.st.loc) * rs) <= 2 * (ss + rs) + 2 * (Abs(p.x - e.st.loc) + Abs(p.y - e.ref.loc))
          ELSE BlackLaw(p.x, p.y, e.st.loc, e.ref.loc)
Why(e) ==
   LET ps == e.prs IN
   IF e.panic # "" THEN "crash: " \o e.panic
   ELSE IF e.must = "error" THEN IF e.err = "" THEN "accepted although " \o e.what ELSE ""
   ELSE IF e.err # "" THEN IF e.op = "matchHist" /\ Limit(e) THEN "" ELSE "refused: " \o e.err
   ELSE IF e.meta # "" THEN e.meta
   ELSE IF e.others # 0 THEN "pixels outside the channel changed"
   ELSE IF ~(e.nx = e.nxy /\ e.ny = e.nxy) THEN "undefined values appeared or vanished"
   ELSE IF ~Pointwise(ps) THEN "equal pixels got different values"
   ELSE IF Neutral(e) THEN IF Same(ps) THEN "" ELSE "neutral settings changed the frame"
   ELSE IF ~(Kind(e.op) = "scaleOffset" /\ e.a < 0) /\ ~Monotone(ps) THEN "a larger value became smaller than a smaller one"
   ELSE IF Unit(e) /\ ~Range(ps) THEN "left the value range"
   ELSE IF Unit(e) /\ ~Ends(ps) THEN "end points of the range moved"
   ELSE IF Limit(e) THEN ""
   ELSE LET bad == {i \in DOMAIN ps : ~Law(e, ps[i])} IN
        IF bad = {} THEN "" ELSE LET i == CHOOSE i \in bad : TRUE IN "not the curve of the settings: " \o ToString(<<ps[i].x, ps[i].y>>)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"MISMATCH", l, w>>)
TraceSpec == l = 1 /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
