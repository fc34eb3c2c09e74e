------------------------------- MODULE BlurMC --------------------------------
(* Small frames through one or two steps: the laws of blurring and sharpening, and scenarios. *)
EXTENDS Blur, Json
CONSTANTS Sigmas, MaxSteps, Emit
VARIABLES w, h, f, was, steps
vars == <<w, h, f, was, steps>>
Pattern(k, n, m, c) ==
   [i \in 1..(n * m) |-> LET x == (i - 1) % n y == (i - 1) \div n IN
      CASE k = 0 -> 5000 + 1000 * c
        [] k = 1 -> IF i = 1 + (n * m) \div 2 THEN 90000 ELSE 1000 * c
        [] k = 2 -> 1000 * x + 300 * y * y + 100 * c
        [] k = 3 -> ((x * 7 + y * 13 + c * 5) % 11) * 5000 - 10000
        [] OTHER -> IF x = 0 THEN 40000 ELSE IF y = m - 1 THEN 20000 ELSE 0]
Sizes == {<<1, 1>>, <<1, 4>>, <<3, 1>>, <<3, 3>>, <<5, 4>>}
Init == w = 0 /\ h = 0 /\ f = <<>> /\ was = <<>> /\ steps = <<>>
Ops == [t : {"blur"}, s : Sigmas, g : {0}, th : {0}] \cup [t : {"usm", "husm"}, s : Sigmas \cap {0, 3, 10, 20}, g : {0, 2, 8}, th : {-20, 0, 10}]
Start == /\ w = 0
         /\ \E z \in Sizes, k \in 0..4, n \in {1, 3} :
              /\ w' = z[1] /\ h' = z[2] /\ f' = [c \in 1..n |-> Pattern(k, z[1], z[2], c)] /\ was' = f'
         /\ UNCHANGED steps
Step == /\ w > 0 /\ Len(steps) < MaxSteps
        /\ \E o \in Ops : (o.t = "husm" => Len(f) = 3) /\ steps' = Append(steps, o) /\ was' = f /\ f' = Apply(o, f, w, h)
        /\ UNCHANGED <<w, h>>
Next == Start \/ Step
Spec == Init /\ [][Next]_vars
Did == steps # <<>>
Last == steps[Len(steps)]
Near(a, b, t) == a - b \in (0 - t)..t
\* nothing leaves the range of values
Ranges == Did => LET a == Flatten(was) IN \A c \in DOMAIN f : \A i \in DOMAIN f[c] : f[c][i] \in MinOf(a)..MaxOf(a)
\* a plane without contrast stays as it is
Flat == Did => \A c \in DOMAIN f : (\A i \in DOMAIN f[c] : was[c][i] = was[c][1]) => f[c] = was[c]
\* blurring keeps the sum of each plane, but for rounding
Sums == (Did /\ Last.t = "blur") => \A c \in DOMAIN f : Near(Sum(f[c]), Sum(was[c]), 2 * w * h)
\* blurring never raises the spread
Softer == (Did /\ Last.t = "blur") => \A c \in DOMAIN f : MaxOf(f[c]) <= MaxOf(was[c]) /\ MinOf(f[c]) >= MinOf(was[c])
Flip(p) == [i \in 1..(w * h) |-> p[((i - 1) \div w) * w + (w - 1 - ((i - 1) % w)) + 1]]
Turn(p) == [i \in 1..(w * h) |-> LET x == (i - 1) % h y == (i - 1) \div h IN p[x * w + y + 1]]
Symmetric == (Did /\ Last.t = "blur") =>
               LET p == was[1] IN /\ Blurred(Flip(p), w, h, Last.s) = Flip(f[1])
                                  /\ LET q == Blurred(Turn(p), h, w, Last.s) IN \A i \in DOMAIN q : Near(q[i], Turn(f[1])[i], 2)
\* sharpening moves values away from their surroundings, and only those from the threshold on
Away == (Did /\ Last.t # "blur" /\ ~Off(Last)) =>
          \A c \in DOMAIN f : LET b == Blurred(was[c], w, h, Last.s) IN
             \A i \in DOMAIN f[c] : (was[c][i] > b[i] => f[c][i] >= was[c][i]) /\ (was[c][i] < b[i] => f[c][i] <= was[c][i])
Only == (Did /\ Last.t = "husm") => f[1] = was[1] /\ f[2] = was[2]
Idle == (Did /\ (Off(Last) \/ Kernel(Last.s) = <<10000>>)) => f = was
Whole == \A s \in DOMAIN Kernels : Sum(Kernel(s)) = 10000
Emitted == IF Emit /\ Did /\ Len(steps) = 1 THEN PrintT("SCEN" \o ToJson([w |-> w, h |-> h, n |-> Len(f), f |-> was, o |-> Last])) ELSE TRUE
=============================================================================
