--------------------------- MODULE PathContainMC ---------------------------
EXTENDS PathContain, TLC, Json
CONSTANTS MaxLen, MaxTok, MaxPat, Emit
VARIABLES kind, p
vars == <<kind, p>>
A == 97
\* tokens for generated paths: slash, dot, two dots, file a, directory d
Tok == {<<Slash>>, <<Dot>>, <<Dot, Dot>>, <<A>>, <<100>>}
RECURSIVE Flat(_)
Flat(t) == IF t = << >> THEN << >> ELSE t[1] \o Flat(Tail(t))
\* atoms for generated patterns
Atom == {<<A>>, <<98>>, <<Star>>, <<Quest>>, <<Open, A, Close>>, <<Open, Caret, A, Close>>, <<Open, A, Minus, 98, Close>>, <<Slash>>, <<Dot>>, <<Open>>, <<Back, A>>}
Init == \/ kind = "str" /\ \E n \in 0..MaxLen : p \in [1..n -> {Slash, Dot, A}]
        \/ kind = "path" /\ \E n \in 1..MaxTok : \E t \in [1..n -> Tok] : p = Flat(t)
        \/ kind = "pat" /\ \E n \in 1..MaxPat : \E t \in [1..n -> Atom] : p = Flat(t)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* whatever is allowed stays below the working directory
Contained == Allowed(p) => Inside(p)
\* and a name without slashes and dots is always allowed
NotTooStrict == (\A i \in 1..Len(p) : p[i] # Dot) /\ (p # << >> => p[1] # Slash) => Allowed(p)
\* patterns: a literal pattern matches just itself, star matches anything
Names == UNION {[1..n -> {A, 98, Dot}] : n \in 1..2}
PatOk == kind = "pat" =>
   /\ (~Meta(p) => \A s \in Names : Match(p, s) = (s = p))
   /\ (~Bad(p) => \A s \in Names : Match(<<Star>> \o p, s) = \E i \in 0..Len(s) : Match(p, SubSeq(s, i + 1, Len(s))))
Emitted == (Emit /\ kind # "str") => PrintT("SCEN" \o ToJson([kind |-> kind, p |-> p]))
=============================================================================
