------------------------------ MODULE EditorMC -------------------------------
(* Jobs put together step by step in the editor: what the job is, and scenarios. *)
EXTENDS Editor, Json
CONSTANTS Most, Emit
VARIABLES ws, last
vars == <<ws, last>>
Inner == [debayer |-> {"nl_pre_debayer"}, save |-> {"nl_file_save"}, starDetect |-> {"nl_pre_starDetect"},
          perBatch |-> {"nl_pre_calibrate", "nl_pre_starDetect", "nl_stack_stack"}]
Ends(b) == {[Fresh(b) EXCEPT !.on = o, !.s = [i \in DOMAIN @ |-> IF d THEN 1 ELSE Len(Blocks[b].f[i].v)]] : o \in BOOLEAN, d \in BOOLEAN}
Init == ws = <<>> /\ last = [a |-> "open", n |-> 0, was |-> <<>>]
Did(a) == last.n < Most /\ last' = [a |-> a, n |-> last.n + 1, was |-> ws]
Append1 == Did("append") /\ \E b \in Types : ws' = Append(ws, Fresh(b))
Toggle == Did("toggle") /\ \E i \in DOMAIN ws : ws' = [ws EXCEPT ![i].on = ~@]
Choose == Did("choose") /\ \E i \in DOMAIN ws : \E j \in DOMAIN ws[i].s : \E v \in DOMAIN Blocks[ws[i].b].f[j].v : ws' = [ws EXCEPT ![i].s[j] = v]
Fill == /\ Did("fill")
        /\ \E i \in DOMAIN ws : \E j \in DOMAIN ws[i].n :
             /\ Blocks[ws[i].b].n[j][2] = "perBatch" \/ ws[i].n[j] = <<>>
             /\ \E b \in Inner[Blocks[ws[i].b].n[j][2]] : \E x \in Ends(b) : ws' = [ws EXCEPT ![i].n[j] = Append(@, x)]
Remove == Did("remove") /\ \E i \in DOMAIN ws : ws' = SubSeq(ws, 1, i - 1) \o SubSeq(ws, i + 1, Len(ws))
Swap == Did("swap") /\ \E i \in 1..(Len(ws) - 1) : ws' = [ws EXCEPT ![i] = ws[i + 1], ![i + 1] = ws[i]]
Next == Append1 \/ Toggle \/ Choose \/ Fill \/ Remove \/ Swap
Spec == Init /\ [][Next]_vars
\* the walk of the library makes the job
Walked == Walk(ws) = Job(ws)
\* being off is as good as being absent
Absent == Job(ws) = Job(SelectSeq(ws, IsOn))
Counted == Len(Job(ws)) = Cardinality({i \in DOMAIN ws : ws[i].on})
\* settings concern a single step, and only its settings
Local == last.a = "choose" => LET a == Job(last.was) b == Job(ws)
                              IN Len(a) = Len(b) /\ Cardinality({i \in DOMAIN a : a[i] # b[i]}) <= 1 /\ \A i \in DOMAIN a : a[i].t = b[i].t /\ a[i].n = b[i].n
\* filling an input adds no step to the chain
Inside == last.a = "fill" => Len(Job(ws)) = Len(Job(last.was))
Later == last.a = "append" => SubSeq(Job(ws), 1, Len(Job(last.was))) = Job(last.was)
RECURSIVE View(_)
View(c) == [i \in DOMAIN c |-> [b |-> c[i].b, on |-> c[i].on, s |-> c[i].s, sh |-> Shown(c[i]), n |-> [j \in DOMAIN c[i].n |-> View(c[i].n[j])]]]
Emitted == IF Emit /\ (last.n <= 2 \/ (Len(ws) <= 2 /\ last.a # "append")) THEN PrintT("SCEN" \o ToJson([ws |-> View(ws)])) ELSE TRUE
=============================================================================
