---------------------------- MODULE RefSelectMC ----------------------------
(* Algorithm-level model of the selection: a mutex, the first output to get it
   evaluates all inputs and publishes reference and frames; later outputs take
   their frame. TLC explores all interleavings and checks exactly-once
   evaluation, one shared reference, frame i at output i. Also enumerates
   scenarios (kinds, scores, modes) for replay.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Emit
VARIABLES kind, score, pc, lock, done, mats, refr, err, cnt, got, dlv
vars == <<kind, score, pc, lock, done, mats, refr, err, cnt, got, dlv>>
P == 1..N
Init == /\ kind \in [P -> {"ok", "nil", "fail"}] /\ score \in [P -> 0..2]
        /\ pc = [p \in P |-> "idle"] /\ lock = 0 /\ done = FALSE
        /\ mats = [p \in P |-> 0] /\ refr = 0 /\ err = FALSE
        /\ cnt = [p \in P |-> 0] /\ got = [p \in P |-> "none"] /\ dlv = << >>
OkF == {i \in P : kind[i] = "ok"}
Best == {i \in OkF : \A j \in OkF : score[i] >= score[j]}
Demand(p) == /\ pc[p] = "idle" /\ pc' = [pc EXCEPT ![p] = "want"] /\ dlv' = Append(dlv, p)
             /\ UNCHANGED <<kind, score, lock, done, mats, refr, err, cnt, got>>
Lock(p) == /\ pc[p] = "want" /\ lock = 0 /\ lock' = p
           /\ pc' = [pc EXCEPT ![p] = IF err THEN "failed" ELSE IF done THEN "take" ELSE "evaluate"]
           /\ UNCHANGED <<kind, score, done, mats, refr, err, cnt, got, dlv>>
Evaluate(p) == /\ pc[p] = "evaluate"
               /\ cnt' = [q \in P |-> cnt[q] + 1]
               /\ IF (\E q \in P : kind[q] = "fail") \/ OkF = {}
                  THEN /\ err' = TRUE /\ pc' = [pc EXCEPT ![p] = "failed"] /\ UNCHANGED <<done, mats, refr>>
                  ELSE /\ \E r \in Best : refr' = r
                       /\ mats' = [q \in P |-> IF kind[q] = "ok" THEN q ELSE 0]
                       /\ done' = TRUE /\ pc' = [pc EXCEPT ![p] = "take"] /\ UNCHANGED err
               /\ UNCHANGED <<kind, score, lock, got, dlv>>
Take(p) == /\ pc[p] = "take" /\ got' = [got EXCEPT ![p] = IF mats[p] = 0 THEN "nil" ELSE "frame"]
           /\ lock' = 0 /\ pc' = [pc EXCEPT ![p] = "done"]
           /\ UNCHANGED <<kind, score, done, mats, refr, err, cnt, dlv>>
Fail(p) == /\ pc[p] = "failed" /\ got' = [got EXCEPT ![p] = "error"]
           /\ lock' = 0 /\ pc' = [pc EXCEPT ![p] = "done"]
           /\ UNCHANGED <<kind, score, done, mats, refr, err, cnt, dlv>>
Next == \E p \in P : Demand(p) \/ Lock(p) \/ Evaluate(p) \/ Take(p) \/ Fail(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Once == \A p \in P : cnt[p] <= 1
Place == \A p \in P : got[p] = "frame" => kind[p] = "ok" /\ mats[p] = p
Skipped == \A p \in P : got[p] = "nil" => kind[p] = "nil"
AllFail == \A p \in P : got[p] = "error" => ((\E q \in P : kind[q] = "fail") \/ OkF = {})
OneRef == refr = 0 \/ refr \in Best
AllDone == <>(\A p \in P : pc[p] = "done")
EmitScen == (Emit /\ \A p \in P : pc[p] = "done") =>
   PrintT("SCEN" \o ToJson([kinds |-> kind, score |-> score, order |-> dlv]))
Inv == Once /\ Place /\ Skipped /\ AllFail /\ OneRef
=============================================================================
