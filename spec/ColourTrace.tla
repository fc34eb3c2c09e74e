----------------------------- MODULE ColourTrace ----------------------------
EXTENDS Colour, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Names == <<"red", "green", "blue">>
\* the range of whole numbers has to be wide enough for rounding to 1/S, and a narrow one need only span it
Why(e) ==
   LET b == Bad(e.ins) IN
   IF e.panic # "" THEN "crash: " \o e.panic
   ELSE IF b # "" THEN IF e.err = "" THEN "combined although " \o b ELSE ""
   ELSE IF e.err # "" THEN "refused: " \o e.err
   ELSE IF e.meta # "" THEN e.meta
   ELSE IF <<e.w, e.h, e.p>> # <<e.ins[1].w, e.ins[1].h, 3>> THEN "size of the result"
   ELSE IF e.ex # Expose(e.ins) THEN "exposure of the result"
   ELSE LET lo == Lo(Common(e.ins)) hi == Hi(Common(e.ins))
            bad == {c \in 1..3 : ~PlaneLaw(e.ins[c].d, e.ch[c], lo, hi)} IN
        IF bad # {} THEN Names[SetMin(bad)] \o " channel"
        ELSE IF ~e.lit THEN ""
        ELSE IF e.lerr # "" THEN "luminance refused: " \o e.lerr
        ELSE IF e.lothers # 0 THEN "luminance changed another channel"
        ELSE IF Len(e.ins) = 3 THEN IF e.alone # 0 THEN "luminance of another combination applied" ELSE IF e.lex # e.ex THEN "exposure" ELSE ""
        ELSE LET f == e.ins[4] IN
             IF ~LumPlane(f.d, e.lch, Lo({f}), Hi({f})) THEN "luminance channel"
             ELSE IF e.lex # e.ex + f.ex THEN "exposure with luminance" ELSE ""
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"MISMATCH", l, w>>)
TraceSpec == l = 1 /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
