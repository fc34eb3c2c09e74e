-------------------------- MODULE StatsReportTrace --------------------------
EXTENDS StatsReport, StatsCache, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, skip, fs                          \* fs: statistics of each frame, computed from its pixels
tvars == <<rvars, l, skip, fs>>
TraceInit == /\ sc = [n |-> 0] /\ got = << >> /\ passed = << >> /\ refused = << >> /\ l = 1 /\ skip = TRUE /\ fs = << >>
Describe(f) ==
   LET q == f.q IN
   [id |-> f.id, stars |-> f.stars, hfr |-> f.hfr, est |-> f.est,
    mn |-> MinOf(q), mx |-> MaxOf(q), mean |-> MeanFloor(q), sd |-> SqrtFloor(Var(q)),
    med |-> IF f.est = 1 THEN MedianOdd(q) ELSE 0, mad |-> IF f.est = 1 THEN MadOdd(q) ELSE 0]
Near(a, b, t) == Abs(a - b) <= t
RowOf(i, r) == LET s == fs[i] IN
   /\ r.id = s.id /\ r.stars = s.stars /\ Near(r.hfr, s.hfr, 1)
   /\ Near(r.mn, s.mn, 1) /\ Near(r.mx, s.mx, 1) /\ r.mean >= s.mean - 2 /\ r.mean <= s.mean + 3
   /\ IF s.est = 0 THEN Near(r.loc, s.mean, 3) /\ Near(r.scale, s.sd, 3)
      ELSE Near(r.loc, s.med, 2) /\ Near(r.scale * 100, (s.mad * 14826) \div 100, 400)
Why(e) ==
  CASE e.ev = "end" -> IF Over(e.err) THEN "" ELSE "frames lost or wrong outcome"
    [] e.ev = "report" -> IF ReportOk(e.x, e.rep, RowOf) THEN "" ELSE "report"
    [] e.ev = "in" -> IF ENABLED Deliver(e.x, e.i) THEN "" ELSE "delivery"
    [] e.ev = "pass" -> IF ENABLED Pass(e.x, e.i, e.same) THEN "" ELSE "frame changed or not refused"
    [] e.ev = "refuse" -> IF ENABLED Refuse(e.x, e.i) THEN "" ELSE "frame refused"
    [] e.ev = "plan" -> ""
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.new = 1 THEN Setup(e) /\ skip' = FALSE /\ fs' = [i \in 1..e.n |-> Describe(e.frames[i])]
           ELSE /\ fs' = fs
                /\ IF skip THEN UNCHANGED rvars /\ skip' = TRUE
                   ELSE IF Why(e) # "" THEN PrintT(<<"MISMATCH", l, Why(e)>>) /\ UNCHANGED rvars /\ skip' = TRUE
                   ELSE /\ skip' = FALSE
                        /\ CASE e.ev = "in" -> Deliver(e.x, e.i)
                             [] e.ev = "pass" -> Pass(e.x, e.i, e.same)
                             [] e.ev = "refuse" -> Refuse(e.x, e.i)
                             [] e.ev = "plan" -> IF sc.again = 1 THEN Restart ELSE UNCHANGED rvars
                             [] OTHER -> UNCHANGED rvars
TraceSpec == TraceInit /\ [][Next]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
