----------------------------- MODULE ResampleMC -----------------------------
(* The raster scan over the target: one pixel per transition. *)
EXTENDS Resample, Json, TLC
CONSTANTS Emit, MaxSize
VARIABLES cfg, n, out
vars == <<cfg, n, out>>
OOB == -5
Lin == {l \in [A : {-1, 0, 1}, B : {-1, 0, 1}, D : {-1, 0, 1}, E : {-1, 0, 1}] : l.A * l.E # l.B * l.D}
Halves == {[A |-> 1, B |-> 0, D |-> 0, E |-> 1], [A |-> 2, B |-> 0, D |-> 0, E |-> 2], [A |-> 4, B |-> 0, D |-> 0, E |-> 4],
           [A |-> 2, B |-> 1, D |-> 0, E |-> 2], [A |-> 2, B |-> 0, D |-> 0, E |-> -2], [A |-> 1, B |-> 2, D |-> -2, E |-> 1],
           [A |-> 0, B |-> 4, D |-> -2, E |-> 0]}
T(l, S, C, F) == [A |-> l.A, B |-> l.B, C |-> C, D |-> l.D, E |-> l.E, F |-> F, S |-> S]
Trans == {T(l, 1, cc, ff) : l \in Lin, cc \in {-1, 0, 2}, ff \in {-1, 0, 2}} \cup {T(l, 2, cc, ff) : l \in Halves, cc \in {-1, 0, 3}, ff \in {-1, 0, 3}}
Sizes == 1..MaxSize
Ramp(w, h) == [i \in 1..(w * h) |-> (3 * ((i - 1) % w)) + (5 * ((i - 1) \div w)) + 1]
Init == /\ cfg \in [t : Trans, w : Sizes, h : Sizes, dw : {1, 3}, dh : {1, 2, MaxSize}]
        /\ n = 0 /\ out = << >>
X == n % cfg.dw
Y == n \div cfg.dw
Next == /\ n < cfg.dw * cfg.dh /\ n' = n + 1 /\ UNCHANGED cfg
        /\ out' = Append(out, IF Inside(cfg.t, cfg.w, cfg.h, X, Y) THEN Bilinear(Ramp(cfg.w, cfg.h), cfg.w, 0, cfg.t, X, Y) ELSE OOB)
Spec == Init /\ [][Next]_vars
N2 == Det(cfg.t) * Det(cfg.t)
\* bilinear interpolation reproduces a linear image exactly, at the position the inverse gives
Last == (n > 0) => LET x == (n - 1) % cfg.dw   y == (n - 1) \div cfg.dw   t == cfg.t
                       px == PosX(t, x, y)   py == PosY(t, x, y)   N == Det(t) IN
   /\ (t.A * px + t.B * py + t.C * N = t.S * N * x) /\ (t.D * px + t.E * py + t.F * N = t.S * N * y)    \* the inverse undoes
   /\ (out[n] = OOB) = ~(px >= 0 /\ px <= (cfg.w - 1) * N /\ py >= 0 /\ py <= (cfg.h - 1) * N)
   /\ (out[n] # OOB) => /\ out[n] = N * ((3 * px) + (5 * py) + N)
                        /\ \E v \in {Ramp(cfg.w, cfg.h)[i] : i \in 1..(cfg.w * cfg.h)} : out[n] >= v * N2
                        /\ \E v \in {Ramp(cfg.w, cfg.h)[i] : i \in 1..(cfg.w * cfg.h)} : out[n] <= v * N2
Identity == (cfg.t = T([A |-> 1, B |-> 0, D |-> 0, E |-> 1], 1, 0, 0) /\ cfg.dw = cfg.w /\ cfg.dh = cfg.h /\ n = cfg.dw * cfg.dh)
             => out = Ramp(cfg.w, cfg.h)
\* unit entries and whole offsets: every target pixel is one source pixel or out of bounds
Exact == (cfg.t.S = 1 /\ N2 = 1 /\ n > 0) => out[n] = OOB \/ \E i \in 1..(cfg.w * cfg.h) : out[n] = Ramp(cfg.w, cfg.h)[i]
Weights == (n = 0) => \A x \in 0..(cfg.dw - 1), y \in 0..(cfg.dh - 1) :
   Inside(cfg.t, cfg.w, cfg.h, x, y) =>
      SumOf({<<1, e[2], e[3], e[4]>> : e \in Corners(Ramp(cfg.w, cfg.h), cfg.w, 0, cfg.t, x, y)}) = N2
Emitted == (Emit /\ n = 0) => PrintT("SCEN" \o ToJson(cfg))
=============================================================================
