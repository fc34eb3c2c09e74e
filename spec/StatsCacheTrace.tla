--------------------------- MODULE StatsCacheTrace ---------------------------
(* Trace of frames, processing steps and statistics queries of the real code. State: what the
   statistics of every frame's current pixels are (computed here, from the recorded pixels) and the
   fingerprint of those pixels. A query must report these and leave the pixels alone; a step on one
   frame must leave the others alone; a match must use the reference's statistics as of selection. *)
EXTENDS StatsCache, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, st
Describe(e) ==
   LET q == e.q  odd == Len(q) % 2 = 1 /\ e.est = 1 IN
   [dh |-> e.dh, mn |-> MinOf(q), mx |-> MaxOf(q), mean |-> MeanFloor(q), sd |-> SqrtFloor(Var(q)),
    noise |-> Noise(q, e.w), est |-> e.est,
    med |-> IF odd \/ e.est = 2 THEN MedianOdd(q) ELSE 0, mad |-> IF odd THEN MadOdd(q) ELSE 0]
Near(a, b, t) == Abs(a - b) <= t
Val(s, k, v) ==
   CASE k = "min" -> Near(v, s.mn, 1)
     [] k = "max" -> Near(v, s.mx, 1)
     [] k = "mean" -> v >= s.mean - 2 /\ v <= s.mean + 3
     [] k = "sd" -> v >= s.sd - 2 /\ v <= s.sd + 3
     [] k = "noise" -> v >= s.noise - 2 /\ v <= s.noise + 3
     [] k = "loc" /\ s.est = 0 -> v >= s.mean - 2 /\ v <= s.mean + 3
     [] k = "scale" /\ s.est = 0 -> v >= s.sd - 2 /\ v <= s.sd + 3
     [] k = "loc" /\ s.est = 1 -> Near(v, s.med, 2)
     [] k = "scale" /\ s.est = 1 -> Near(v * 100, (s.mad * 14826) \div 100, 400)
     \* the randomised default estimator, on gaussian pixels only
     [] k = "loc" /\ s.est = 2 -> Near(v, s.med, 3 + (s.sd \div 5))
     [] k = "scale" /\ s.est = 2 -> Near(v, s.sd, 3 + (s.sd \div 5))
     \* ... and on any other pixels: within the range
     [] k = "loc" /\ s.est = 3 -> v >= s.mn - 1 /\ v <= s.mx + 1
     [] k = "scale" /\ s.est = 3 -> v >= 0 /\ v <= 3 * (s.mx - s.mn) + 1
     [] OTHER -> FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l]
         s0 == IF e.new = 1 THEN << >> ELSE st
     IN CASE e.k = "frame" -> st' = Append(s0, Describe(e))
          [] e.k = "op" ->
               LET d == Describe(e) IN
               /\ st' = [s0 EXCEPT ![e.f] = d]
               /\ \A g \in 1..Len(s0) : (g = e.f \/ s0[g].dh = e.dhs[g])
                     \/ PrintT(<<"MISMATCH", l, "step changed another frame">>)
               /\ (e.rl = 999999999 \/ Val(d, "loc", e.rl)) \/ PrintT(<<"MISMATCH", l, "location after matching">>)
               /\ (e.rs = 999999999 \/ Val(d, "scale", e.rs)) \/ PrintT(<<"MISMATCH", l, "scale after matching">>)
          [] e.k = "query" ->
               /\ st' = s0
               /\ (e.dh = s0[e.f].dh) \/ PrintT(<<"MISMATCH", l, "query changed the pixels">>)
               /\ \A i \in 1..Len(e.v) : Val(s0[e.f], e.v[i].s, e.v[i].v)
                     \/ PrintT(<<"MISMATCH", l, e.v[i].s>>)
TraceSpec == l = 1 /\ st = << >> /\ [][Next]_<<l, st>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
