--------------------------- MODULE FitsReadTrace ----------------------------
(* What reading a FITS stream must yield, given its cards and data bytes.     *)
EXTENDS FitsCard, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Find(es, k, ts) == LET I == {i \in 1..Len(es) : es[i].k = k /\ es[i].t \in ts} IN
    IF I = {} THEN [k |-> k, t |-> "absent", v |-> << >>] ELSE es[CHOOSE i \in I : \A j \in I : j <= i]
Digit(i) == IF i < 10 THEN <<48 + i>> ELSE <<48 + (i \div 10), 48 + (i % 10)>>
AxisKey(i) == KNaxis \o Digit(i)
Axis(es, i) == Find(es, AxisKey(i), {"i"})
\* dimensions, or << -1 >> if the header does not describe an image
RECURSIVE Axes(_, _, _)
Axes(es, i, n) == IF i > n THEN << >>
    ELSE LET a == Axis(es, i) IN
         IF a.t = "absent" THEN <<-1>> ELSE IF ~SmallInt(a.v) THEN <<-1>> ELSE IF IntVal(a.v) < 0 THEN <<-1>>
         ELSE <<IntVal(a.v)>> \o Axes(es, i+1, n)
RECURSIVE Prod(_)                              \* -1: too large
Prod(d) == IF d = << >> THEN 1
           ELSE LET p == Prod(Tail(d)) IN
                IF d[1] = 0 THEN 0 ELSE IF p = -1 THEN -1 ELSE IF p > 2147483647 \div d[1] THEN -1 ELSE p * d[1]
Dims(es) == LET n == Find(es, KNaxis, {"i"}) IN
    IF n.t = "absent" THEN <<-1>> ELSE IF ~SmallInt(n.v) THEN <<-1>>
    ELSE IF IntVal(n.v) < 0 \/ IntVal(n.v) > 99 THEN <<-1>> ELSE Axes(es, 1, IntVal(n.v))
Valid(h, data) ==
    LET d == Dims(h.es) bp == Find(h.es, KBitpix, {"i"}) s == Find(h.es, KSimple, {"b"}) IN
    /\ h.end > 0 /\ s.t = "b" /\ s.v = <<84>> /\ bp.t = "i" /\ SmallInt(bp.v)
    /\ \A i \in 1..Len(d) : d[i] >= 0
    /\ Prod(d) >= 0
    /\ data => IntVal(bp.v) \in {8, 16, 32, 64, -32, -64} /\ Len(d) > 0 /\ Prod(d) > 0

(* numbers m * 2^e *)
RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m % 2 = 0 THEN Norm(m \div 2, e+1) ELSE <<m, e>>
Pow2(k) == IF k = 0 THEN 1 ELSE 2^k
Add(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
             ELSE LET e == IF a[2] < b[2] THEN a[2] ELSE b[2] IN
                  Norm((a[1] * Pow2(a[2]-e)) + (b[1] * Pow2(b[2]-e)), e)
Mul(a, b) == IF a = <<1, 0>> THEN b ELSE IF b = <<1, 0>> THEN a ELSE Norm(a[1] * b[1], a[2] + b[2])
NaN == <<0, 999>>
S8(x) == IF x > 127 THEN x - 256 ELSE x
\* the byte at offset j (from 0): listed, or given by a formula
ByteAt(e, W, j) ==
    IF e.form = << >> THEN e.bytes[j+1]
    ELSE LET x == ((j * e.form[1]) + e.form[2]) % 251 r == j % W IN
         CASE e.bitpix = 8 \/ e.bitpix = 16 -> x
           [] e.bitpix = 32 -> IF r = 3 THEN 0 ELSE x
           [] e.bitpix = 64 -> IF r > 2 THEN 0 ELSE x
           [] e.bitpix = -32 -> IF r = 0 THEN 60 + (x % 7) ELSE x
           [] e.bitpix = -64 -> IF r = 0 THEN 63 ELSE IF r = 1 THEN 224 + (x % 16) ELSE IF r = 4 THEN 32 * (x % 8) ELSE IF r > 4 THEN 0 ELSE x
Stored(e, W, i) ==                             \* i-th sample from 0
    LET b(k) == ByteAt(e, W, (i*W)+k) IN
    CASE e.bitpix = 8 -> Norm(b(0), 0)
      [] e.bitpix = 16 -> Norm((S8(b(0))*256) + b(1), 0)
      [] e.bitpix = 32 -> Norm((((S8(b(0))*256) + b(1)) * 65536) + ((b(2)*256) + b(3)), 0)
      [] e.bitpix = 64 ->
           LET hi == (((S8(b(0))*256) + b(1)) * 65536) + ((b(2)*256) + b(3))
               lo == (((S8(b(4))*256) + b(5)) * 65536) + ((b(6)*256) + b(7)) IN
           IF lo = 0 THEN Norm(hi, 32) ELSE Norm(lo, 0)      \* otherwise hi is the sign of lo
      [] e.bitpix = -32 ->
           LET s == IF b(0) > 127 THEN -1 ELSE 1
               ex == ((b(0) % 128) * 2) + (b(1) \div 128)
               f == ((b(1) % 128) * 65536) + (b(2)*256) + b(3) IN
           IF ex = 255 THEN (IF f = 0 THEN <<s, 998>> ELSE NaN)
           ELSE IF ex = 0 THEN Norm(s*f, -149) ELSE Norm(s * (8388608 + f), ex - 150)
      [] e.bitpix = -64 ->
           LET s == IF b(0) > 127 THEN -1 ELSE 1
               ex == ((b(0) % 128) * 16) + (b(1) \div 16)
               f == ((b(1) % 16) * 524288) + (b(2) * 2048) + (b(3) * 8) + (b(4) \div 32) IN
           IF ex = 0 THEN <<0, 0>> ELSE Norm(s * (8388608 + f), ex - 1046)
Pixel(e, W, i) ==
    LET s == Stored(e, W, i) IN
    IF e.bz = <<0, 0>> /\ e.bs = <<1, 0>> THEN s
    ELSE IF s = NaN THEN s ELSE Add(Mul(s, e.bs), e.bz)

\* expected remaining header entries
Popped(es) ==
    LET nax == Find(es, KNaxis, {"i"}) n == IF nax.t = "i" THEN (IF SmallInt(nax.v) THEN IntVal(nax.v) ELSE 0) ELSE 0
        exp == IF Find(es, KExposure, {"i", "f"}).t # "absent" THEN KExposure ELSE KExptime
    IN {KSimple, KBitpix, KNaxis, KBzero, KBscale, exp} \cup {AxisKey(i) : i \in 1..n}
Rest(es) == SelectSeq(es, LAMBDA p : p.t \in {"b", "i", "f", "s", "d"} /\ p.k \notin Popped(es))
ByType(r, t) == {<<r[i].k, r[i].v>> : i \in {j \in 1..Len(r) : r[j].t = t}}
Close(a, b) == LET d == IF a < b THEN b - a ELSE a - b  x == IF b < 0 THEN 0 - b ELSE b IN d <= 1 + (x \div 8388608)
FloatsOk(r, out) ==
    LET ex == {<<r[i].k, Fix6(r[i].v)>> : i \in {j \in 1..Len(r) : r[j].t = "f"}} IN
    /\ Cardinality(ex) = Len(out)
    /\ \A x \in ex : \E i \in 1..Len(out) : out[i].k = x[1] /\ Close(out[i].v, x[2])
TextOf(es, key) == LET s == SelectSeq(es, LAMBDA p : p.t = "c" /\ p.k = key) IN [i \in 1..Len(s) |-> s[i].v]
Exposure(es) ==
    LET a == Find(es, KExposure, {"i", "f"})
        x == IF a.t # "absent" THEN a ELSE Find(es, KExptime, {"i", "f"}) IN
    IF x.t = "absent" THEN 0 ELSE Fix6(x.v)
SetOf(s) == {<<s[i].k, s[i].v>> : i \in 1..Len(s)}
MetaOk(h, o) ==
    LET r == Rest(h.es) IN
    /\ SetOf(o.bools) = {<<x[1], IF x[2] = <<84>> THEN 1 ELSE 0>> : x \in ByType(r, "b")}
    /\ SetOf(o.ints) = {<<x[1], Canon(x[2])>> : x \in ByType(r, "i")}
    /\ {<<x[1], RTrim(x[2])>> : x \in SetOf(o.strs)} = {<<x[1], RTrim(x[2])>> : x \in ByType(r, "s")}
    /\ {<<x[1], RTrim(x[2])>> : x \in SetOf(o.dates)} = ByType(r, "d")
    /\ FloatsOk(r, o.floats)
    /\ [i \in 1..Len(o.comments) |-> Trim(o.comments[i])] = TextOf(h.es, KComment)
    /\ [i \in 1..Len(o.history) |-> Trim(o.history[i])] = TextOf(h.es, KHistory)
    /\ Close(o.exposure, Exposure(h.es))
DataOk(e, d) ==
    LET W == (IF e.bitpix < 0 THEN 0 - e.bitpix ELSE e.bitpix) \div 8 IN
    /\ Len(e.o.pm) = Prod(d)
    /\ \A i \in 1..Len(e.o.pm) : <<e.o.pm[i], e.o.pe[i]>> = Pixel(e, W, i-1)
Why(e) ==
    LET h == Header(e.cards) d == Dims(h.es)
        good == Valid(h, e.data = 1) /\ e.hdrcut = 0
        W == (IF e.bitpix < 0 THEN 0 - e.bitpix ELSE e.bitpix) \div 8
        full == IF ~good \/ e.data = 0 THEN TRUE ELSE e.avail >= Prod(d) * W
    IN IF e.panic # "" THEN "crash"
       ELSE IF ~good THEN (IF e.err = 1 THEN "" ELSE "accepted a malformed header")
       ELSE IF ~full THEN (IF e.err = 1 THEN "" ELSE "accepted truncated data")
       ELSE IF e.err = 1 THEN "rejected a valid file"
       ELSE IF e.o.dims # d THEN "dimensions"
       ELSE IF ~MetaOk(h, e.o) THEN "header entries or exposure"
       ELSE IF e.data = 1 /\ ~DataOk(e, d) THEN "pixels"
       ELSE IF e.data = 1 /\ (e.o.bz # <<0, 0>> \/ e.o.bs # <<1, 0>>) THEN "offset and scale still set"
       ELSE ""
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN w = "" \/ PrintT(<<"MISMATCH", l, w>>)
TraceSpec == l = 1 /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
