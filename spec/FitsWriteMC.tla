---------------------------- MODULE FitsWriteMC -----------------------------
(* Splitting an escaped string over CONTINUE cards and joining it again is the *)
(* identity, for all strings over {a, ', &} up to a length and for reduced card *)
(* widths; and the histories of saves over existing files to replay.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS A, B, MaxLen, Saves, Emit
FC == INSTANCE FitsCard
Chars == {97, 39, 38}
VARIABLES v, hist
RECURSIVE Escape(_)
Escape(s) == IF s = << >> THEN s ELSE (IF s[1] = 39 THEN <<39, 39>> ELSE <<s[1]>>) \o Escape(Tail(s))
RECURSIVE TrailQuotes(_, _)
TrailQuotes(s, k) == IF k = 0 THEN 0 ELSE IF s[k] = 39 THEN 1 + TrailQuotes(s, k-1) ELSE 0
Prefix(s, k) == k - (TrailQuotes(s, k) % 2)
RECURSIVE Cont(_, _)
Cont(s, width) == IF Len(s) <= width THEN <<s>>
                  ELSE LET p == Prefix(s, width) IN <<SubSeq(s, 1, p) \o <<38>>>> \o Cont(SubSeq(s, p+1, Len(s)), width)
Encode(s) == LET x == Escape(s) IN
             IF Len(x) <= A + 1 THEN <<x>>
             ELSE LET p == Prefix(x, A) IN <<SubSeq(x, 1, p) \o <<38>>>> \o Cont(SubSeq(x, p+1, Len(x)), B)
\* reading back through the card reader of FitsCard
Card(x) == x \o <<39>>
RECURSIVE Join(_, _)
Join(cs, acc) == IF cs = << >> THEN acc
                 ELSE LET s == FC!Str(Card(cs[1]), 1, << >>) IN
                      IF ~s.ok \/ s.next # Len(cs[1]) + 2 THEN <<0>>
                      ELSE IF acc = << >> THEN Join(Tail(cs), <<s.v>>)
                      ELSE LET l == acc[1] IN
                           IF Len(l) = 0 \/ l[Len(l)] # 38 THEN <<0>>
                           ELSE Join(Tail(cs), <<SubSeq(l, 1, Len(l)-1) \o s.v>>)
Init == v = << >> /\ hist = << >>
Grow == hist = << >> /\ Len(v) < MaxLen /\ \E c \in Chars : v' = Append(v, c) /\ UNCHANGED hist
Save == v = << >> /\ Len(hist) < 3 /\ \E k \in Saves : hist' = Append(hist, k) /\ UNCHANGED v
Next == Grow \/ Save
Spec == Init /\ [][Next]_<<v, hist>>
RoundTrip == Join(Encode(v), << >>) = <<v>>
Widths == \A i \in 1..Len(Encode(v)) : Len(Encode(v)[i]) <= IF i = 1 THEN A + 1 ELSE B + 1
EmitHist == (Emit /\ Len(hist) > 0) => PrintT("HIST" \o ToJson([h |-> hist]))
\* strings around the real card widths: length, start and length of a run of quotes, trailing ampersand
Near == {0, 1, 16, 17, 18, 19, 20, 82, 83, 84, 85, 86, 148, 149, 150, 151}
EmitStr == (Emit /\ v = << >> /\ hist = << >>) =>
    \A len \in Near : \A q \in {0, 1, 2, 3} : \A s \in {1, 15, 16, 17, 18, 80, 81, 82, 83, 84} : \A a \in {0, 1} :
       (s + q - 1 <= len /\ (q = 0 => s = 1)) => PrintT("STR" \o ToJson([len |-> len, q |-> q, s |-> s, a |-> a]))
=============================================================================
