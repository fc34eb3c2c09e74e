----------------------------- MODULE AlignTrace -----------------------------
EXTENDS Resample, AlignGate, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, al
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
\* ---- resampling; e.out in thousandths, e.oob its value where nothing is
PixelOk(e, i) ==
   LET per == e.dw * e.dh
       p == (i - 1) \div per   x == ((i - 1) % per) % e.dw   y == ((i - 1) % per) \div e.dw
       t == e.t   N2 == Det(t) * Det(t)
       v == Bilinear(e.d, e.w, p * e.w * e.h, t, x, y)
       hit == IF v = NaN THEN e.out[i] = NaN
              ELSE e.out[i] # NaN /\ Abs(e.out[i]) < 100000 /\ Abs((e.out[i] * N2) - (v * 1000)) <= e.tol * N2
   IN IF e.tol > 1 /\ OnGrid(t, x, y)            \* rounding decides
      THEN IF ~Inside(t, e.w, e.h, x, y) THEN e.out[i] = e.oob
           ELSE hit \/ (e.out[i] = e.oob /\ OnEdge(t, e.w, e.h, x, y)) \/ (e.out[i] = NaN /\ \E k \in 1..Len(e.d) : e.d[k] = NaN)
      ELSE IF Inside(t, e.w, e.h, x, y) THEN hit ELSE e.out[i] = e.oob
Project(e) ==
   IF Det(e.t) = 0 THEN (IF e.err = 1 THEN "" ELSE "no error for a singular transformation")
   ELSE IF e.err = 1 THEN "error for a regular transformation"
   ELSE IF e.same # 1 THEN "projection changed its source"
   ELSE IF e.meta # 1 THEN "projection lost identity, exposure or HFR"
   ELSE IF e.naxis # (IF e.pl = 1 THEN <<e.dw, e.dh>> ELSE <<e.dw, e.dh, e.pl>>) \/ Len(e.out) # e.dw * e.dh * e.pl THEN "wrong size"
   ELSE LET bad == {i \in 1..Len(e.out) : ~PixelOk(e, i)} IN
        IF bad = {} THEN "" ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN "wrong pixel " \o ToString(i - 1)
\* ---- a large ramp 2x + 3y: samples <<plane, x, y, value>>; tol in thousandths of a value, slack in pixels at the borders
Ramp(e) ==
   LET N == Det(e.t)
       In(s, m) == /\ PosX(e.t, s[2], s[3]) >= m * N /\ PosX(e.t, s[2], s[3]) <= (e.w - 1 - m) * N
                   /\ PosY(e.t, s[2], s[3]) >= m * N /\ PosY(e.t, s[2], s[3]) <= (e.h - 1 - m) * N
       Val(s) == (((2 * PosX(e.t, s[2], s[3])) + (3 * PosY(e.t, s[2], s[3]))) * 100) \div N
       Ok(s) == IF In(s, e.slack) THEN s[4] # NaN /\ Abs((s[4] \div 10) - (Val(s) + (s[1] * 5000))) <= e.tol
                ELSE IF ~In(s, -e.slack) THEN s[4] = e.oob ELSE TRUE
       bad == {i \in 1..Len(e.px) : ~Ok(e.px[i])}
   IN IF bad = {} THEN "" ELSE "wrong pixel " \o ToString(e.px[CHOOSE i \in bad : \A j \in bad : i <= j])
\* ---- three points
Three(e) ==
   LET a == e.p[1]  b == e.p[2]  c == e.p[3] IN
   IF (b[1] - a[1]) * (c[2] - a[2]) = (b[2] - a[2]) * (c[1] - a[1]) THEN (IF e.err = 1 THEN "" ELSE "no error for collinear points")
   ELSE IF e.err = 1 THEN "error although the points define a transformation"
   ELSE IF \A i \in 1..3 : Near(e.m[i][1], 1000 * e.q[i][1], 20) /\ Near(e.m[i][2], 1000 * e.q[i][2], 20) THEN "" ELSE "points not mapped onto their counterparts"
\* ---- inverse: e.there is inverse after forward, e.back forward after inverse, both in thousandths
Inverse(e) ==
   IF RawDet(e.t) = 0 THEN (IF e.err = 1 THEN "" ELSE "inverse of a singular transformation")
   ELSE IF e.err = 1 THEN "no inverse"
   ELSE IF /\ Near(e.there[1], 1000 * e.p[1], 10) /\ Near(e.there[2], 1000 * e.p[2], 10)
           /\ Near(e.back[1], 1000 * e.p[1], 10) /\ Near(e.back[2], 1000 * e.p[2], 10)
           /\ Near(e.fwd[1] * e.t.S, 1000 * (e.t.A * e.p[1] + e.t.B * e.p[2] + e.t.C), 5 * e.t.S)
           /\ Near(e.fwd[2] * e.t.S, 1000 * (e.t.D * e.p[1] + e.t.E * e.p[2] + e.t.F), 5 * e.t.S)
        THEN "" ELSE "inverse does not undo"
\* ---- nearest neighbour in 2 or 3 dimensions
RECURSIVE DistSq(_, _)
DistSq(a, b) == IF a = << >> THEN 0 ELSE ((Head(a) - Head(b)) * (Head(a) - Head(b))) + DistSq(Tail(a), Tail(b))
NN(e) == IF ~\E i \in 1..Len(e.pts) : e.pts[i] = e.got THEN "neighbour is not one of the points"
         ELSE IF e.pay # -1 /\ e.pts[e.pay + 1] # e.got THEN "payload of another point"
         ELSE IF e.dsq # DistSq(e.q, e.got) THEN "wrong distance"
         ELSE IF \E i \in 1..Len(e.pts) : DistSq(e.q, e.pts[i]) < e.dsq THEN "not the nearest" ELSE ""
\* ---- recovery of a known transformation: positions in hundredths of a pixel
Recover(e) ==
   IF e.res > e.thr THEN "matching frame not aligned"
   ELSE IF \A i \in 1..Len(e.want) : Near(e.got[i][1], e.want[i][1], e.tol) /\ Near(e.got[i][2], e.want[i][2], e.tol) THEN "" ELSE "frame mapped to the wrong place"
\* ---- unrelated catalogue: accepted only if a third of the stars meets a reference star (limit in hundredths)
Close(a, b) == Near(a[1], b[1], 1200) /\ Near(a[2], b[2], 1200)
Unrelated(e) ==
   IF e.res > e.thr THEN ""
   ELSE IF Cardinality({i \in 1..Len(e.got) : \E j \in 1..Len(e.ref) : Close(e.got[i], e.ref[j])}) * 3 + 2 >= Len(e.got) THEN "" ELSE "accepted although few stars match"
\* ---- the alignment step
Gate(e) ==
   LET o == Outcome(al, [k |-> e.k, mode |-> e.mode, kind |-> e.kind, stars |-> e.stars, rs |-> e.rs, hist |-> e.hist, fit |-> e.fit = 1])[1] IN
   IF e.out # o THEN "expected " \o o \o ", but " \o e.out
   ELSE IF o = "same" /\ e.ident # 1 THEN "frame passed with a transformation other than the identity"
   ELSE IF o = "same" /\ e.same # 1 THEN "frame changed"
   ELSE IF o = "project" /\ (e.meta # 1 \/ e.naxis # e.want) THEN "wrong size or identity lost"
   ELSE IF o = "project" /\ e.same # 1 THEN "not the projection of the frame by the transformation found"
   ELSE IF o = "project" /\ e.fill # e.oob THEN "wrong out-of-bounds value" ELSE ""
Why(e) == IF e.panic # "" THEN "crash: " \o e.panic
          ELSE CASE e.op = "project" -> Project(e) [] e.op = "ramp" -> Ramp(e) [] e.op = "three" -> Three(e) [] e.op = "inverse" -> Inverse(e)
                 [] e.op = "nn" -> NN(e) [] e.op = "recover" -> Recover(e) [] e.op = "unrelated" -> Unrelated(e) [] e.op = "gate" -> Gate(e)
                 [] OTHER -> "unknown record"
AlAfter(e) == IF e.op # "gate" \/ e.panic # "" THEN FALSE
              ELSE Outcome(al, [k |-> e.k, mode |-> e.mode, kind |-> e.kind, stars |-> e.stars, rs |-> e.rs, hist |-> e.hist, fit |-> e.fit = 1])[2]
\* al is the state before the record: reset where a trace begins
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"MISMATCH", l, w>>)
        /\ al' = (IF l < Len(Trace) /\ Trace[l + 1].new = 1 THEN FALSE ELSE AlAfter(Trace[l]))
TraceSpec == l = 1 /\ al = FALSE /\ [][Next]_<<l, al>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
