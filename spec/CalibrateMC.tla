---------------------------- MODULE CalibrateMC ----------------------------
(* Lazy loading of the masters under concurrency: the first frame to come loads them, under a lock,
   all others wait for and share them. Files may change on disk after they were loaded.          *)
EXTENDS Calibrate, TLC, Json
CONSTANTS MaxN, Emit
VARIABLES sc,        \* the session's files and lights
          disk,      \* version of the files on disk (the session's files are version 1)
          loaded,    \* 0 or the version of the masters shared by the session
          loads,     \* number of times they were loaded successfully
          ph,        \* per light: idle, lock, init, ready, done
          res        \* per light: << >>, << "error" >>, or << version of the masters used >>
vars == <<sc, disk, loaded, loads, ph, res>>
Masters == {[kind |-> "none"], [kind |-> "bad"], [kind |-> "ok", d |-> <<2, 1>>], [kind |-> "ok", d |-> <<1, 2>>], [kind |-> "ok", d |-> <<3, 1>>]}
Dims == {<<2, 1>>, <<1, 2>>, <<3, 1>>}
Init == \E n \in 1..MaxN, dk \in Masters, fl \in Masters : \E ds \in [1..n -> Dims] :
          /\ sc = [n |-> n, dark |-> dk, flat |-> fl, dims |-> ds]
          /\ disk = 1 /\ loaded = 0 /\ loads = 0
          /\ ph = [i \in 1..n |-> "idle"] /\ res = [i \in 1..n |-> << >>]
N == 1..sc.n
Needs == sc.dark.kind # "none" \/ sc.flat.kind # "none"
Start(i) == ph[i] = "idle" /\ ph' = [ph EXCEPT ![i] = "lock"] /\ UNCHANGED <<sc, disk, loaded, loads, res>>
Lock(i) == /\ ph[i] = "lock" /\ \A j \in N : ph[j] # "init"
           /\ ph' = [ph EXCEPT ![i] = IF Needs /\ loaded = 0 THEN "init" ELSE "ready"]
           /\ UNCHANGED <<sc, disk, loaded, loads, res>>
Load(i) == /\ ph[i] = "init"
           /\ IF Unusable(sc.dark, sc.flat)
              THEN /\ res' = [res EXCEPT ![i] = <<"error">>] /\ ph' = [ph EXCEPT ![i] = "done"] /\ UNCHANGED <<loaded, loads>>
              ELSE /\ loaded' = disk /\ loads' = loads + 1 /\ ph' = [ph EXCEPT ![i] = "ready"] /\ UNCHANGED res
           /\ UNCHANGED <<sc, disk>>
Apply(i) == /\ ph[i] = "ready" /\ ph' = [ph EXCEPT ![i] = "done"]
            /\ res' = [res EXCEPT ![i] = IF Refused(sc.dark, sc.flat, sc.dims[i]) THEN <<"error">> ELSE <<loaded>>]
            /\ UNCHANGED <<sc, disk, loaded, loads>>
Change == /\ disk = 1 /\ loaded # 0 /\ disk' = 2 /\ UNCHANGED <<sc, loaded, loads, ph, res>>
Next == Change \/ \E i \in N : Start(i) \/ Lock(i) \/ Load(i) \/ Apply(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Once == loads <= 1
Right == \A i \in N : ph[i] = "done" => res[i] = IF Refused(sc.dark, sc.flat, sc.dims[i]) THEN <<"error">>
                                                 ELSE IF Needs THEN <<1>> ELSE <<0>>
Ends == <>(\A i \in N : ph[i] = "done")
\* the exact fraction is what dividing means: it is scaled back by the flat
Arith == \A q \in -3..5, dk \in 0..2, fl \in -1..4, mx \in 1..4 : fl <= mx =>
   LET p == Pixel([kind |-> "ok", q |-> <<dk>>], [kind |-> "ok", q |-> <<fl>>], mx, q, 1) IN
   /\ p[2] > 0 /\ IF fl > 0 THEN p[1] * fl = (q - dk) * mx * p[2] ELSE p = <<q - dk, 1>>
   /\ IsPixel((1000 * p[1]) \div p[2], p, 1000)
ASSUME Arith
Emitted == (Emit /\ TLCGet("level") = 1) => PrintT("SCEN" \o ToJson(sc))
=============================================================================
