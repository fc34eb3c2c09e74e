--------------------------- MODULE StatsReportMC ---------------------------
(* The locking and writing discipline of an export step: create on first use, then after each frame
   write its row and the trailer at the end of the rows. One export step, a batched or plain session. *)
EXTENDS StatsReport, TLC, Json
CONSTANTS MaxN, MaxT, Emit
VARIABLES ph,      \* per frame: idle, wait, write, out, gone
          lock,    \* 0 or the frame whose thread holds the lock
          disk,    \* tokens on disk: 0 header, i row of frame i, -1 trailer; << -9 >> no file
          off,     \* where the step appends next
          sess, cur,  \* session number the step last wrote for; current session number
          pre      \* TRUE while the first frame is read ahead to plan the batches
vars == <<rvars, ph, lock, disk, off, sess, cur, pre>>
Kinds == {"ok", "nil", "fail"}
NoFile == << -9 >>
Init == \E n \in 1..MaxN, t \in 1..MaxT, ex \in {"ok", "bad", "none"}, batched \in {0, 1} :
        \E ks \in [1..n -> Kinds] :
          /\ sc = [n |-> n, t |-> t, exports |-> <<ex>>, kinds |-> ks, again |-> batched]
          /\ got = <<{}>> /\ passed = <<{}>> /\ refused = <<{}>>
          /\ ph = [i \in 1..n |-> "idle"] /\ lock = 0 /\ disk = NoFile /\ off = 0
          /\ sess = 0 /\ cur = 1 /\ pre = (batched = 1)
Busy == {i \in 1..sc.n : ph[i] \in {"wait", "write"}}
NonNil == {i \in 1..sc.n : sc.kinds[i] # "nil"}
First == IF NonNil = {} THEN 1 ELSE CHOOSE i \in NonNil : \A j \in NonNil : i <= j
Start(i) == /\ ph[i] = "idle" /\ Cardinality(Busy) < sc.t
            /\ pre => i = First /\ Busy = {}
            /\ IF sc.kinds[i] = "ok"
               THEN Deliver(1, i) /\ ph' = [ph EXCEPT ![i] = "wait"]
               ELSE UNCHANGED rvars /\ ph' = [ph EXCEPT ![i] = "gone"]
            /\ UNCHANGED <<lock, disk, off, sess, cur, pre>>
Skip(i) == /\ ph[i] = "wait" /\ sc.exports[1] = "none" /\ Pass(1, i, 1) /\ ph' = [ph EXCEPT ![i] = "out"]
           /\ UNCHANGED <<lock, disk, off, sess, cur, pre>>
Lock(i) == /\ ph[i] = "wait" /\ lock = 0 /\ sc.exports[1] # "none"
           /\ lock' = i /\ ph' = [ph EXCEPT ![i] = "write"] /\ UNCHANGED <<rvars, disk, off, sess, cur, pre>>
Create(i) == /\ ph[i] = "write" /\ lock = i /\ sess # cur /\ sc.exports[1] = "ok"
             /\ disk' = <<0, -1>> /\ off' = 1 /\ sess' = cur /\ UNCHANGED <<rvars, ph, lock, cur, pre>>
Fail(i) == /\ ph[i] = "write" /\ lock = i /\ sess # cur /\ sc.exports[1] = "bad"
           /\ Refuse(1, i) /\ lock' = 0 /\ ph' = [ph EXCEPT ![i] = "out"] /\ UNCHANGED <<disk, off, sess, cur, pre>>
Row(i) == /\ ph[i] = "write" /\ lock = i /\ sess = cur
          /\ disk' = SubSeq(disk, 1, off) \o <<i, -1>> /\ off' = off + 1
          /\ Pass(1, i, 1) /\ lock' = 0 /\ ph' = [ph EXCEPT ![i] = "out"] /\ UNCHANGED <<sess, cur, pre>>
\* planning done: the session proper starts, all frames are read again
Plan == /\ pre /\ ph[First] \in {"out", "gone"} /\ sc.kinds[First] # "fail" /\ refused = <<{}>>
        /\ pre' = FALSE /\ cur' = cur + 1 /\ ph' = [i \in 1..sc.n |-> "idle"]
        /\ Restart /\ UNCHANGED <<lock, disk, off, sess>>
Done == IF pre THEN ph[First] \in {"out", "gone"} /\ (sc.kinds[First] = "fail" \/ refused # <<{}>>)
        ELSE \A i \in 1..sc.n : ph[i] \in {"out", "gone"}
Next == (~Done /\ \E i \in 1..sc.n : Start(i) \/ Skip(i) \/ Lock(i) \/ Create(i) \/ Fail(i) \/ Row(i)) \/ Plan
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Rows == SelectSeq(disk, LAMBDA t : t > 0)
Rep == [exists |-> IF disk = NoFile THEN 0 ELSE 1, wellformed |-> IF disk = NoFile THEN 0 ELSE IF disk[1] = 0 /\ disk[Len(disk)] = -1 THEN 1 ELSE 0,
        headers |-> Cardinality({k \in 1..Len(disk) : disk[k] = 0}),
        trailers |-> Cardinality({k \in 1..Len(disk) : disk[k] = -1}), rows |-> Rows]
Complete == Done => ReportOk(1, Rep, LAMBDA i, r : i = r)
\* in fact the file is complete whenever no frame is being written (a crash then loses nothing)
Always == (lock = 0 /\ passed[1] # {} /\ sc.exports[1] = "ok") => Rep.wellformed = 1 /\ Rep.headers = 1 /\ Rep.trailers = 1
Errors == Done => \E err \in {0, 1} : Over(err) \/ (pre /\ err = 1)
Finishes == <>Done
Emitted == (Emit /\ TLCGet("level") = 1) => PrintT("SCEN" \o ToJson([n |-> sc.n, t |-> sc.t, export |-> sc.exports[1], kinds |-> sc.kinds, batched |-> sc.again]))
=============================================================================
