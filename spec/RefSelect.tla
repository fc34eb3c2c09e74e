----------------------------- MODULE RefSelect -----------------------------
(* Reference selection shared by concurrently demanded outputs (property C03).

   sels is the chain of selections applied (the stacking pipeline uses two: the
   histogram reference, then the alignment reference). Each selection has
     mode   "stars" | "location" | "index" | "rgb" | "file" | "badfile" | "none"
     idx    the frame index (0-based) for mode "index"
   Frames 1..n are the first batch, n+1..n+m a second batch that is processed
   with the reference found before. kind[i] is "ok", "nil" or "fail".         *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES n, m, sels, kind, stars, hfr, loc,
          started, ended,  \* [1..n+m -> number of evaluations]
          dem,             \* outputs demanded so far
          ref,             \* per selection: 0 unknown, -1 file, else frame
          alw,             \* per selection: the frames allowed as reference (computed once)
          phase            \* "run" | "closed"
rvars == <<n, m, sels, kind, stars, hfr, loc, started, ended, dem, ref, alw, phase>>

First == 1..n
FromFrames(s) == s.mode \in {"stars", "location", "index", "rgb"}
Abs(x) == IF x < 0 THEN -x ELSE x

(* the frames that selection s may choose as reference *)
AllowedOf(s, nn, kd, st, hf, lc) ==
  LET OkF == {i \in 1..nn : kd[i] = "ok"}
      (* score comparison stars/HFR without division; a frame without stars or
         with HFR 0 has score 0 *)
      Num(i) == IF hf[i] = 0 THEN 0 ELSE st[i]
      Den(i) == IF hf[i] = 0 THEN 1 ELSE hf[i]
      BestStars == {i \in OkF : \A j \in OkF : Num(i) * Den(j) >= Num(j) * Den(i)}
      (* twice the median location *)
      Below(i) == Cardinality({j \in OkF : lc[j] < lc[i]})
      UpTo(i)  == Cardinality({j \in OkF : lc[j] <= lc[i]})
      Rank(k)  == lc[CHOOSE i \in OkF : Below(i) < k /\ k <= UpTo(i)]
      cc == Cardinality(OkF)
      Med2 == IF cc % 2 = 1 THEN 2 * Rank((cc + 1) \div 2) ELSE Rank(cc \div 2) + Rank(cc \div 2 + 1)
      BestLoc == IF OkF = {} THEN {} ELSE
                 LET mm == Med2
                     best == CHOOSE i \in OkF : \A j \in OkF : Abs(2 * lc[i] - mm) <= Abs(2 * lc[j] - mm)
                 IN {i \in OkF : Abs(2 * lc[i] - mm) = Abs(2 * lc[best] - mm)}
  IN CASE s.mode = "stars"    -> BestStars
       [] s.mode = "rgb"      -> IF nn > 3 THEN {4} \cap OkF ELSE BestStars
       [] s.mode = "location" -> BestLoc
       [] s.mode = "index"    -> {s.idx + 1} \cap OkF
       [] OTHER               -> {}

(* the whole operation fails iff an input fails while choosing from frames, no
   frame qualifies, or a reference file cannot be loaded *)
SelFails(k) == LET s == sels[k] IN
              \/ s.mode = "badfile"
               \/ /\ FromFrames(s)
                  /\ \/ \E i \in First : kind[i] = "fail"
                     \/ alw[k] = {}
Fails == \E k \in 1..Len(sels) : SelFails(k)
AnyFromFrames == \E k \in 1..Len(sels) : FromFrames(sels[k])

Demand(j) == /\ phase = "run" /\ j \in (1..(n + m)) \ dem
             /\ dem' = dem \cup {j}
             /\ UNCHANGED <<n, m, sels, kind, stars, hfr, loc, started, ended, ref, alw, phase>>

(* an input is evaluated at most once: all of them when choosing from frames,
   otherwise only when its own output is demanded *)
EvalStart(i) == /\ phase = "run" /\ started[i] = 0
                /\ IF i \in First THEN (i \in dem \/ (AnyFromFrames /\ dem \cap First # {}))
                                  ELSE i \in dem
                /\ started' = [started EXCEPT ![i] = @ + 1]
                /\ UNCHANGED <<n, m, sels, kind, stars, hfr, loc, ended, dem, ref, alw, phase>>
EvalEnd(i) == /\ ended[i] < started[i]
              /\ ended' = [ended EXCEPT ![i] = @ + 1]
              /\ UNCHANGED <<n, m, sels, kind, stars, hfr, loc, started, dem, ref, alw, phase>>

(* output j delivers; seen[k] is the reference visible at that moment *)
RefOk(seen) ==
   \A k \in 1..Len(sels) :
     IF FromFrames(sels[k])
     THEN seen[k] \in alw[k] /\ ref[k] \in {0, seen[k]}
     ELSE IF sels[k].mode = "file" THEN seen[k] = -1 ELSE seen[k] = 0
Result(j, what, owner, seen) ==
   /\ phase = "run" /\ j \in dem
   /\ IF j \in First /\ Fails THEN what = "error" /\ UNCHANGED ref
      ELSE IF kind[j] = "fail" THEN what = "error" /\ UNCHANGED ref
      ELSE /\ ended[j] = 1
           /\ IF kind[j] = "nil" THEN what = "nil" ELSE what = "frame" /\ owner = j
           /\ RefOk(seen)
           /\ (AnyFromFrames => \A i \in First : ended[i] = 1)
           /\ ref' = seen
   /\ UNCHANGED <<n, m, sels, kind, stars, hfr, loc, started, ended, dem, alw, phase>>
Close ==
   /\ phase = "run" /\ phase' = "closed"
   /\ \A i \in 1..(n + m) : started[i] = ended[i]
   /\ (AnyFromFrames /\ ~Fails /\ dem \cap First # {}) => \A i \in First : ended[i] = 1
   /\ UNCHANGED <<n, m, sels, kind, stars, hfr, loc, started, ended, dem, ref, alw>>
Once == \A i \in DOMAIN started : started[i] <= 1
SameRef == \A k \in DOMAIN ref : ref[k] >= -1
=============================================================================
