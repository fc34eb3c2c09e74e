-------------------------- MODULE BackgroundTrace --------------------------
(* Recorded background extractions against Background.tla. Values of the results are in thousandths. *)
EXTENDS Background, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Opts(e) == [grid |-> e.grid, clip |-> e.clip, sigma |-> e.sigma, stars |-> e.stars]
Off(e) == e.grid <= 0
\* ties between cells which were filled and rounded are not predicted
HasHoles(e) == LET nx == Cells(e.w, e.grid) ny == Cells(e.h, e.grid) IN
   \E i \in 1..(nx * ny) : Fit(e.data, e.w, e.h, nx, ny, e.stars, e.sigma, i - 1) = None
Ambiguous(e) == e.clip > 0 /\ HasHoles(e)
\* averages of averages of filled cells are rounded again and again, by at most a thirty-second each
Near2(a, b, t) == a - b \in (0 - t)..t
Kept(e, bg) == \A i \in DOMAIN e.data : e.data[i] * 1000 - bg[i] - e.out[i] \in (-2)..2
Why(e) ==
   IF e.panic # "" THEN "crash: " \o e.panic
   ELSE IF e.err # "" THEN "refused: " \o e.err
   ELSE IF Len(e.out) # Len(e.data) THEN "number of pixels"
   ELSE IF ~e.stats THEN "statistics are those of the frame before"
   ELSE IF Off(e) THEN (IF \E i \in DOMAIN e.data : e.out[i] # e.data[i] * 1000 THEN "frame changed although switched off"
                        ELSE IF e.bg # <<>> THEN "background saved although switched off" ELSE "")
   ELSE IF e.save /\ e.bg = <<>> THEN "the background was not saved"
   ELSE IF e.save /\ e.bgdims # <<e.w, e.h>> THEN "size of the saved background"
   ELSE IF e.save /\ ~Kept(e, e.bg) THEN "the saved background is not what was subtracted"
   ELSE IF Ambiguous(e) THEN ""
   ELSE LET b == TLCEval(Render(e.data, e.w, e.h, Opts(e)))
            t == IF e.clip > 0 \/ HasHoles(e) THEN 500 ELSE 60
            bad == {i \in DOMAIN b : ~Near2(e.data[i] * 1000 - b[i], e.out[i], t)}
        IN IF bad = {} THEN "" ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN "background at a pixel: " \o ToString(<<i, e.data[i] * 1000 - e.out[i], b[i]>>)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"MISMATCH", l, w>>)
TraceSpec == l = 1 /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
