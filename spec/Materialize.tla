---------------------------- MODULE Materialize ----------------------------
(* Parallel evaluation of a list of deferred frames (property C01).

   One action per observable step of the executor: a deferred frame is started,
   it finishes, the call returns. The kind of a frame says what its evaluation
   yields: "ok" a frame, "nil" a skipped frame, anything else is the text of a
   failure.                                                                   *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES n,        \* number of deferred frames
          lim,      \* thread limit
          kind,     \* [1..n -> "ok" | "nil" | failure text]
          forget,   \* TRUE iff the caller discards the frames
          st,       \* [1..n -> "wait" | "run" | "done"]
          ret       \* FALSE, or TRUE once the call has returned

mvars == <<n, lim, kind, forget, st, ret>>

Running  == {i \in 1..n : st[i] = "run"}
Done     == {i \in 1..n : st[i] = "done"}
Failures == {kind[i] : i \in {j \in 1..n : kind[j] \notin {"ok", "nil"}}}

(* frames delivered: the input order with skipped frames left out *)
RECURSIVE OkFrom(_)
OkFrom(i) == IF i > n THEN << >>
             ELSE IF kind[i] = "ok" THEN <<i>> \o OkFrom(i + 1)
             ELSE OkFrom(i + 1)
Delivered == IF forget THEN << >> ELSE OkFrom(1)

CallWith(nn, ll, kk, ff) ==
    /\ n = nn /\ lim = ll /\ kind = kk /\ forget = ff
    /\ st = [i \in 1..nn |-> "wait"] /\ ret = FALSE

Start(i) == /\ ~ret /\ i \in 1..n /\ st[i] = "wait"
            /\ Cardinality(Running) < lim
            /\ st' = [st EXCEPT ![i] = "run"]
            /\ UNCHANGED <<n, lim, kind, forget, ret>>

Finish(i) == /\ i \in 1..n /\ st[i] = "run"
             /\ st' = [st EXCEPT ![i] = "done"]
             /\ UNCHANGED <<n, lim, kind, forget, ret>>

Return == /\ ~ret /\ Done = 1..n
          /\ ret' = TRUE
          /\ UNCHANGED <<n, lim, kind, forget, st>>

(* what the caller gets, when the call returns *)
ResultOk(outs, failed, texts) ==
    /\ failed = (Failures # {})
    /\ texts = Failures
    /\ (failed \/ outs = Delivered)

MNext == (\E i \in 1..n : Start(i) \/ Finish(i)) \/ Return
----------------------------------------------------------------------------
Bounded      == Cardinality(Running) <= lim
ReturnsLast  == ret => Done = 1..n
NoWorkAfter  == ret => Running = {}
OrderedOuts  == LET d == Delivered IN \A a \in 1..(Len(d) - 1) : d[a] < d[a + 1]
Complete     == ~forget => LET d == Delivered IN
                           {d[a] : a \in 1..Len(d)} = {i \in 1..n : kind[i] = "ok"}
MInv == Bounded /\ ReturnsLast /\ NoWorkAfter /\ OrderedOuts /\ Complete
=============================================================================
