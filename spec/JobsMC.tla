------------------------------- MODULE JobsMC -------------------------------
EXTENDS Jobs, TLC, Json
CONSTANTS MaxSteps, MaxDepth, Emit
(* A document is written step by step: st is the stack of open lists of steps *)
VARIABLES st, how, n, done, doc
vars == <<st, how, n, done, doc>>
EmptyF == [x \in {} |-> Null]
Obj(t, f) == [k |-> "o", t |-> t, f |-> f]
\* leaves that may be appended
Leaf == {Obj("gamma", EmptyF), Obj("gamma", [gamma |-> V("2.2")]), Obj("load", [id |-> V("3"), fileName |-> S("a.fits")]),
         Obj("save", [filePattern |-> S("x%d.fits"), gamma |-> Null]),
         Obj("selectRef", [starDetect |-> Obj("", [radius |-> V("3")])]),
         Obj("nosuchstep", EmptyF), Obj("", [gamma |-> V("2.2")]), V("5"),
         Obj("seq", EmptyF), Obj("stackBatches", EmptyF), Obj("stackBatches", [perBatch |-> Null])}
(* single steps: every subset of settings left out, null or given *)
Choice == {"omit", "null", "default", "alt"}
Given(fd, ch) ==
   IF ch = "null" THEN Null
   ELSE IF fd.s = "rgb" THEN (IF ch = "default" THEN DefaultOf(fd) ELSE [k |-> "o", t |-> "#", f |-> [G |-> V("0.25")]])
   ELSE IF fd.s = "save" THEN (IF ch = "default" THEN DefaultStep("save") ELSE Obj("", [filePattern |-> S("s%d.fits")]))
   ELSE IF fd.s = "debayer" THEN (IF ch = "default" THEN DefaultStep("debayer") ELSE Obj("debayer", [channel |-> S("B")]))
   ELSE IF fd.s = "starDetect" THEN (IF ch = "default" THEN Obj("starDetect", EmptyF) ELSE Obj("", [sigma |-> V("3.5"), save |-> Null]))
   ELSE IF fd.s = "seq" THEN (IF ch = "default" THEN Obj("seq", EmptyF)
                              ELSE Obj("", [steps |-> [k |-> "l", e |-> <<Obj("gamma", EmptyF), Obj("stack", [mode |-> V("1")])>>]]))
   ELSE IF fd.s = "steps" THEN (IF ch = "default" THEN NoSteps ELSE [k |-> "l", e |-> <<Obj("scaleBlack", EmptyF), Obj("bin", [binSize |-> V("2")])>>])
   ELSE IF ch = "default" THEN fd.d ELSE fd.a
Single(t, c) ==
   LET fs == Registry[t] F == {x \in Names(fs) : c[x] # "omit"} IN
   Obj("seq", [steps |-> [k |-> "l", e |-> <<Obj(t, [x \in F |-> Given(FieldOf(fs, x), c[x])])>>]])
Init == \/ st = <<[kind |-> "seq", e |-> << >>]>> /\ how = "tree" /\ n = 0 /\ done = FALSE /\ doc = Null
        \/ /\ how = "single" /\ st = << >> /\ n = 0 /\ done = TRUE
           /\ \E t \in Types : LET N == Names(Registry[t]) IN
              \E c \in [N -> IF Cardinality(N) <= 4 THEN Choice ELSE {"omit", "alt"}] : doc = Single(t, c)
        \/ /\ how = "single" /\ st = << >> /\ n = 0 /\ done = TRUE
           /\ \E t \in {x \in Types : Cardinality(Names(Registry[x])) > 4} : LET N == Names(Registry[t]) IN
              \E m \in N : \E h \in Choice : doc = Single(t, [x \in N |-> IF x = m THEN h ELSE "omit"])
Top == st[Len(st)]
Put(s, x) == [s EXCEPT ![Len(s)].e = Append(@, x)]
Add == how = "tree" /\ ~done /\ n < MaxSteps /\ \E x \in Leaf : st' = Put(st, x) /\ n' = n + 1 /\ UNCHANGED <<how, done, doc>>
Open == /\ how = "tree" /\ ~done /\ n < MaxSteps /\ Len(st) <= MaxDepth
        /\ \E t \in {"seq", "stackBatches"} : st' = Append(st, [kind |-> t, e |-> << >>]) /\ n' = n + 1
        /\ UNCHANGED <<how, done, doc>>
Closed(x) == LET l == [k |-> "l", e |-> x.e] IN
             IF x.kind = "seq" THEN Obj("seq", [steps |-> l])
             ELSE Obj("stackBatches", [perBatch |-> Obj("seq", [steps |-> l])])
Close == /\ how = "tree" /\ ~done /\ Len(st) > 1
         /\ st' = Put(SubSeq(st, 1, Len(st) - 1), Closed(Top)) /\ UNCHANGED <<how, n, done, doc>>
Finish == /\ how = "tree" /\ ~done /\ Len(st) = 1
          /\ \E t \in {"seq", ""} : doc' = [Closed(Top) EXCEPT !.t = t]
          /\ done' = TRUE /\ st' = << >> /\ UNCHANGED <<how, n>>
Next == Add \/ Open \/ Close \/ Finish
Spec == Init /\ [][Next]_vars
D == Decode(doc, "seq")
RoundTrip == done => LET d == D IN (IsErr(d) \/ Decode(Encode(d), "seq") = d)
\* steps are refused exactly if a type is unknown
Refusal == done => (IsErr(D) <=> HasUnknown(doc))
\* nothing is lost, added or reordered
KeepsOrder == done => LET d == D IN (IsErr(d) \/ Order(d) = Order(doc))
\* given settings win, others are the defaults
Settings == (done /\ how = "single") => LET d == D IN
   (~IsErr(d)) /\ (LET s == d.f["steps"].e[1] g == doc.f["steps"].e[1] fs == Registry[g.t] IN
      /\ s.t = g.t /\ DOMAIN s.f = Names(fs)
      /\ \A x \in Names(fs) : IF x \notin DOMAIN g.f THEN s.f[x] = DefaultOf(FieldOf(fs, x))
                              ELSE g.f[x].k \in {"v", "s"} => (s.f[x] = (IF IsNull(g.f[x]) /\ FieldOf(fs, x).s \in {"num", "int", "str"} THEN FieldOf(fs, x).d
                                                               ELSE IF IsNull(g.f[x]) /\ FieldOf(fs, x).s = "rgb" THEN DefaultOf(FieldOf(fs, x))
                                                               ELSE IF IsNull(g.f[x]) /\ FieldOf(fs, x).s = "steps" THEN NoSteps
                                                               ELSE g.f[x])))
\* the registry for the harness, once
Emitted == ((Emit /\ how = "tree" /\ n = 0 /\ ~done /\ Len(st) = 1) => PrintT("REG" \o ToJson([types |-> Registry, rgb |-> Rgb]))) /\ ((Emit /\ done) => PrintT("SCEN" \o ToJson([how |-> how, doc |-> doc])))
=============================================================================
