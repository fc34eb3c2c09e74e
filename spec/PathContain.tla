---------------------------- MODULE PathContain ----------------------------
(* Which files a job may read, and what a wildcard load yields. Names and patterns are sequences of
   character codes; a path is split at slashes. The directory tree is a set of paths (sequences of
   components) relative to the working directory.                                                  *)
EXTENDS Integers, Sequences, FiniteSets
Slash == 47
Dot == 46
HasDotDot(p) == \E i \in 1..(Len(p) - 1) : p[i] = Dot /\ p[i+1] = Dot
Allowed(p) == (IF p = << >> THEN TRUE ELSE p[1] # Slash) /\ ~HasDotDot(p)

\* components of a path, in order, including empty ones
RECURSIVE Split(_, _)
Split(p, acc) == IF p = << >> THEN <<acc>>
                 ELSE IF p[1] = Slash THEN <<acc>> \o Split(Tail(p), << >>)
                 ELSE Split(Tail(p), Append(acc, p[1]))
Comps(p) == Split(p, << >>)
Plain(cs) == SelectSeq(cs, LAMBDA c : c # << >> /\ c # <<Dot>>)
\* lexical depth below the working directory at each point; negative: outside of it
RECURSIVE Depth(_)
Depth(cs) == IF cs = << >> THEN {0}
             ELSE LET d == IF cs[1] = << >> \/ cs[1] = <<Dot>> THEN 0 ELSE IF cs[1] = <<Dot, Dot>> THEN 0 - 1 ELSE 1 IN
                  {0} \cup {d + x : x \in Depth(Tail(cs))}
Inside(p) == (IF p = << >> THEN TRUE ELSE p[1] # Slash) /\ \A d \in Depth(Comps(p)) : d >= 0
\* the file a path without parent steps denotes, or << >> if there is none
FileAt(p, files) == LET cs == Comps(p) f == Plain(cs) IN
   IF p # << >> /\ p[1] # Slash /\ cs[Len(cs)] # << >> /\ cs[Len(cs)] # <<Dot>> /\ f \in files THEN f ELSE << >>

(* shell patterns: '*', '?', sets in brackets, backslash escapes *)
Star == 42
Quest == 63
Open == 91
Close == 93
Caret == 94
Minus == 45
Back == 92
Meta(c) == \E i \in 1..Len(c) : c[i] \in {Star, Quest, Open, Back}
\* one character of a set: << character, rest >>; the character is 0 if the pattern is malformed
SetChar(p) == IF p = << >> THEN <<0, << >>>>
              ELSE IF p[1] = Minus \/ p[1] = Close THEN <<0, << >>>>
              ELSE IF p[1] = Back THEN (IF Len(p) < 2 THEN <<0, << >>>> ELSE <<p[2], SubSeq(p, 3, Len(p))>>)
              ELSE <<p[1], Tail(p)>>
\* a set after its opening bracket (and caret): << status 0 no match, 1 match, -1 malformed; rest >>
RECURSIVE SetMatch(_, _, _, _)
SetMatch(p, ch, n, hit) ==
   IF p = << >> THEN << -1, << >> >>
   ELSE IF p[1] = Close /\ n > 0 THEN <<IF hit THEN 1 ELSE 0, Tail(p)>>
   ELSE LET a == SetChar(p) IN
        IF a[1] = 0 \/ a[2] = << >> THEN << -1, << >> >>
        ELSE IF a[2][1] = Minus
             THEN LET b == SetChar(Tail(a[2])) IN
                  IF b[1] = 0 \/ b[2] = << >> THEN << -1, << >> >>
                  ELSE SetMatch(b[2], ch, n + 1, hit \/ (a[1] <= ch /\ ch <= b[1]))
             ELSE SetMatch(a[2], ch, n + 1, hit \/ a[1] = ch)
RECURSIVE Match(_, _)
Match(p, s) ==
   IF p = << >> THEN s = << >>
   ELSE CASE p[1] = Star -> Match(Tail(p), s) \/ (IF s = << >> THEN FALSE ELSE Match(p, Tail(s)))
          [] p[1] = Quest -> IF s = << >> THEN FALSE ELSE Match(Tail(p), Tail(s))
          [] p[1] = Open ->
               IF s = << >> THEN FALSE
               ELSE LET neg == Len(p) > 1 /\ p[2] = Caret
                        r == SetMatch(IF neg THEN SubSeq(p, 3, Len(p)) ELSE Tail(p), s[1], 0, FALSE) IN
                    r[1] # -1 /\ (r[1] = 1) # neg /\ Match(r[2], Tail(s))
          [] p[1] = Back -> IF Len(p) < 2 \/ s = << >> THEN FALSE ELSE p[2] = s[1] /\ Match(SubSeq(p, 3, Len(p)), Tail(s))
          [] OTHER -> IF s = << >> THEN FALSE ELSE p[1] = s[1] /\ Match(Tail(p), Tail(s))
\* malformed anywhere
RECURSIVE Bad(_)
Bad(p) == IF p = << >> THEN FALSE
          ELSE IF p[1] = Open
               THEN LET neg == Len(p) > 1 /\ p[2] = Caret
                        r == SetMatch(IF neg THEN SubSeq(p, 3, Len(p)) ELSE Tail(p), 1, 0, FALSE) IN r[1] = -1 \/ Bad(r[2])
          ELSE IF p[1] = Back THEN Len(p) < 2 \/ Bad(SubSeq(p, 3, Len(p)))
          ELSE Bad(Tail(p))

(* entries of the tree (directories and files) that match a relative pattern, component by component *)
Matches(pat, tree) == LET cs == Comps(pat) IN
   {e \in tree : Len(e) = Len(cs) /\ \A i \in 1..Len(cs) : IF Meta(cs[i]) THEN Match(cs[i], e[i]) ELSE cs[i] = e[i]}
RECURSIVE Join(_)
Join(e) == IF Len(e) = 1 THEN e[1] ELSE e[1] \o <<Slash>> \o Join(Tail(e))
RECURSIVE Less(_, _)                           \* byte order
Less(a, b) == IF b = << >> THEN FALSE ELSE IF a = << >> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
RECURSIVE LessPath(_, _)                       \* component by component
LessPath(a, b) == IF b = << >> THEN FALSE ELSE IF a = << >> THEN TRUE
                  ELSE IF a[1] # b[1] THEN Less(a[1], b[1]) ELSE LessPath(Tail(a), Tail(b))
AllowedMatches(pat, tree) == {e \in Matches(pat, tree) : Allowed(Join(e))}
\* names is the outcome of one pattern: exactly the matches, in sorted order
SortedMatches(names, pat, tree) ==
   LET M == AllowedMatches(pat, tree) J == {Join(e) : e \in M}
       E(n) == CHOOSE e \in M : Join(e) = n IN
   /\ Len(names) = Cardinality(M)
   /\ {names[i] : i \in 1..Len(names)} = J
   /\ \/ \A i \in 1..(Len(names) - 1) : LessPath(E(names[i]), E(names[i+1]))
      \/ \A i \in 1..(Len(names) - 1) : Less(names[i], names[i+1])
=============================================================================
