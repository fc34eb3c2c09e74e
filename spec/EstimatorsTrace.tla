--------------------------- MODULE EstimatorsTrace ---------------------------
(* Estimates recorded from the real code: est 0 mean, 1 median and MAD, 2 iterative k-sigma, 3 sigma-clipped median
   and Qn, 4 histogram; loc and scale in f parts of a pixel; lo and hi enclose the pixels which are no outliers. *)
EXTENDS Estimators, Json, IOUtils
VARIABLE l
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))
Near(a, b, t) == Abs(a - b) <= t
Mn(q) == CHOOSE x \in {q[i] : i \in DOMAIN q} : \A i \in DOMAIN q : x <= q[i]
Mx(q) == CHOOSE x \in {q[i] : i \in DOMAIN q} : \A i \in DOMAIN q : x >= q[i]
Mean(e) == LET t == Total(e.q) IN MulDiv(t, e.f, Len(e.q))
Var(e) == LET m == Total(e.q) \div Len(e.q) IN
          Total([i \in DOMAIN e.q |-> (e.q[i] - m) * (e.q[i] - m)]) \div Len(e.q)
Core(q, lo, hi) == SelectSeq(q, LAMBDA x : x >= lo /\ x <= hi)
Is(ok, s) == IF ok THEN "" ELSE s
Flat(e) == \A i \in DOMAIN e.q : e.q[i] = e.q[1]
EstWhy(e) ==
  IF Flat(e) THEN Is(Near(e.loc, e.q[1] * e.f, 1) /\ e.scale \in -1..1, "pixels which are all alike: " \o ToString(<<e.q[1], e.loc, e.scale>>))
  ELSE CASE e.est = 0 -> Is(Near(e.loc, Mean(e), 2) /\ e.scale >= (SqrtFloor(Var(e)) - 1) * e.f /\ e.scale <= (SqrtFloor(Var(e)) + 2) * e.f,
                            "not the mean and standard deviation: " \o ToString(<<Mean(e), SqrtFloor(Var(e)) * e.f, e.loc, e.scale>>))
    [] e.est = 1 -> IF ~Median(e.q, e.f, e.loc, 49, 51) THEN "not the median: " \o ToString(e.loc)
                    ELSE Is(Mad(e.q, e.f, e.loc, e.scale), "not the MAD: " \o ToString(<<e.loc, e.scale>>))
    [] e.est = 2 -> LET k == TLCEval(KSigma(Sorted(e.q), 0)) IN
                    Is(~k.ok \/ (Near(e.loc, k.m * e.f, 1) /\ Near(e.scale, (k.d * 991) \div 1000, 6 + k.d \div 200)),
                       "not the k-sigma estimate: " \o ToString(<<k.m * e.f, (k.d * 991) \div 1000, e.loc, e.scale>>))
    [] e.est = 3 -> LET c == Core(e.q, e.lo, e.hi) IN
                    IF ~Median(c, e.f, e.loc, IF Len(c) < 40 THEN 35 ELSE 41, IF Len(c) < 40 THEN 65 ELSE 59) THEN "not near the median of all but the outliers: " \o ToString(e.loc)
                    ELSE Is(Qn(e.q, e.f, e.scale), "not Qn: " \o ToString(e.scale))
    [] OTHER -> LET mn == Mn(e.q)  mx == Mx(e.q)  h == TLCEval(HistPeak(e.q, 4096, mn, mx)) IN
                IF ~h.clear THEN Is(e.loc >= mn * e.f - 1 /\ e.loc <= mx * e.f + 1 /\ e.scale >= 0, "no estimate")
                ELSE IF ~Near(e.loc - mn * e.f, (h.p * (mx - mn) * e.f) \div 4095, 2) THEN "not the peak: " \o ToString(<<h.p, mn, mx, e.loc>>)
                ELSE Is(Near(e.scale, MulDiv(h.w, (mx - mn) * e.f, 8190), 2), "not the width of the peak: " \o ToString(<<h.w, mx - mn, e.scale>>))
Why(e) == IF e.panic # "" THEN "crash: " \o e.panic
          ELSE IF e.hung THEN "gives no answer"
          ELSE IF ~e.finite THEN "not numbers"
          ELSE IF ~e.same THEN "changed the pixels"
          ELSE EstWhy(e)
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"MISMATCH", l, "estimator " \o ToString(Trace[l].est) \o ": " \o w>>)
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
==============================================================================
