-------------------------- MODULE PixelStackTrace ---------------------------
(* one header record per stack, then one record per pixel position *)
EXTENDS PixelStack, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, h, ws
NaNWeight(e) == e.wk = 2 /\ \E i \in 1..e.n : e.wv[i] = NaN
HdrOk(e) == IF e.err = 1 THEN Refuse(e)
            ELSE ~Refuse(e) /\ ~NaNWeight(e) /\ e.outdims = 1 /\ e.expsum = SeqSum(e.exps)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.new = 1
           THEN /\ h' = e
                /\ ws' = IF e.err = 1 \/ Refuse(e) \/ NaNWeight(e) THEN << >> ELSE [i \in 1..e.n |-> Weight(e, i)]
                /\ HdrOk(e) \/ PrintT(<<"MISMATCH", l, "stack">>)
           ELSE /\ UNCHANGED <<h, ws>>
                /\ ws = << >> \/ PixelOk(h, e.v, ws, e.r) \/ PrintT(<<"MISMATCH", l, "pixel">>)
TraceSpec == l = 1 /\ h = << >> /\ ws = << >> /\ [][Next]_<<l, h, ws>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
