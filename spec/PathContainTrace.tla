-------------------------- MODULE PathContainTrace --------------------------
EXTENDS PathContain, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
WhyPath(e) ==
   IF e.panic # "" THEN "crash"
   ELSE IF e.opened # 0 THEN "a file outside of the working directory was opened"
   ELSE IF ~Allowed(e.p) THEN (IF e.err = 1 THEN "" ELSE "a forbidden path was accepted")
   ELSE IF FileAt(e.p, Range(e.files)) # << >> THEN (IF e.err = 0 THEN "" ELSE "an allowed file was refused")
   ELSE IF e.err = 1 THEN "" ELSE "a missing file was accepted"
\* all matches of all patterns in order
Expect(pats, tree, L(_, _)) == FlattenSeq([i \in 1..Len(pats) |-> SetToSortSeq(AllowedMatches(pats[i], tree), L)])
\* an entry of the tree: << components, 0 for a directory or unreadable file, or the file's mark >>
Listed(e, want) ==
   LET mark == [x \in {t[1] : t \in Range(e.tree)} |-> (CHOOSE t \in Range(e.tree) : t[1] = x)[2]] IN
   /\ Len(e.out) = Len(want)
   /\ \A k \in 1..Len(want) : LET m == mark[want[k]] o == e.out[k] IN
        IF m = 0 THEN o.ok = 0
        ELSE o.ok = 1 /\ o.id = k - 1 /\ o.name = Join(want[k]) /\ o.mark = m
WhyMany(e) ==
   LET tree == {t[1] : t \in Range(e.tree)}
       bad == \E i \in 1..Len(e.pats) : Bad(e.pats[i])
       byC == Expect(e.pats, tree, LessPath) IN
   IF e.panic # "" THEN "crash"
   ELSE IF e.opened # 0 THEN "a file outside of the working directory was opened"
   ELSE IF bad THEN (IF e.err = 1 THEN "" ELSE "a malformed pattern was accepted")
   ELSE IF byC = << >> THEN (IF e.err = 1 THEN "" ELSE "no match was accepted")
   ELSE IF e.err = 1 THEN "refused although files match"
   ELSE IF Listed(e, byC) \/ Listed(e, Expect(e.pats, tree, LAMBDA a, b : Less(Join(a), Join(b)))) THEN "" ELSE "matches, order or numbering"
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] w == IF e.ev = "path" THEN WhyPath(e) ELSE WhyMany(e) IN
           w = "" \/ PrintT(<<"MISMATCH", l, w>>)
TraceSpec == l = 1 /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
