-------------------------------- MODULE Save --------------------------------
(* Saving frames: the name of the file, its format, the values it holds, and when the step has to report failure. *)
EXTENDS Tone
NaN == 999999999
RECURSIVE MinFrom(_, _), MaxFrom(_, _)
MinFrom(vs, i) == IF i > Len(vs) THEN NaN ELSE LET m == MinFrom(vs, i + 1) IN IF vs[i] < m THEN vs[i] ELSE m
MaxFrom(vs, i) == IF i > Len(vs) THEN -NaN ELSE LET m == MaxFrom(vs, i + 1) IN IF vs[i] # NaN /\ vs[i] > m THEN vs[i] ELSE m
\* a pattern is text, optionally a placeholder for the frame's number, more text, and the suffix
RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN "" ELSE s \o Rep(s, n - 1)
Number(id, num) == LET t == ToString(id) IN Rep(IF num.zero THEN "0" ELSE " ", num.width - Len(t)) \o t
Spelling == [lower |-> [fits |-> ".fits", fit |-> ".fit", fts |-> ".fts", fitsgz |-> ".fits.gz", fitgz |-> ".fit.gz", ftsgz |-> ".fts.gz", fitsgzip |-> ".fits.gzip", fitgzip |-> ".fit.gzip", ftsgzip |-> ".fts.gzip",
                        tiff |-> ".tiff", tif |-> ".tif", jpeg |-> ".jpeg", jpg |-> ".jpg", png |-> ".png", none |-> "", txt |-> ".fits.txt", gz |-> ".gz", bare |-> "fits"],
             upper |-> [fits |-> ".FITS", fit |-> ".FIT", fts |-> ".FTS", fitsgz |-> ".FITS.GZ", fitgz |-> ".FIT.GZ", ftsgz |-> ".FTS.GZ", fitsgzip |-> ".FITS.GZIP", fitgzip |-> ".FIT.GZIP", ftsgzip |-> ".FTS.GZIP",
                        tiff |-> ".TIFF", tif |-> ".TIF", jpeg |-> ".JPEG", jpg |-> ".JPG", png |-> ".PNG", none |-> "", txt |-> ".FITS.TXT", gz |-> ".GZ", bare |-> "FITS"],
             mixed |-> [fits |-> ".Fits", fit |-> ".fIT", fts |-> ".Fts", fitsgz |-> ".FITS.gz", fitgz |-> ".fit.Gz", ftsgz |-> ".Fts.gZ", fitsgzip |-> ".fits.Gzip", fitgzip |-> ".Fit.gzip", ftsgzip |-> ".fts.GZip",
                        tiff |-> ".Tiff", tif |-> ".tIF", jpeg |-> ".Jpeg", jpg |-> ".jPG", png |-> ".Png", none |-> "", txt |-> ".fits.Txt", gz |-> ".gZ", bare |-> "Fits"]]
Exts == DOMAIN Spelling.lower
Format(ext) == CASE ext \in {"fits", "fit", "fts"} -> "fits"
                 [] ext \in {"fitsgz", "fitgz", "ftsgz", "fitsgzip", "fitgzip", "ftsgzip"} -> "fits.gz"
                 [] ext \in {"tiff", "tif"} -> "tiff"
                 [] ext \in {"jpeg", "jpg"} -> "jpeg"
                 [] OTHER -> "none"
HasNumber(p) == p.num.kind # "none"
Name(p, id) == p.pre \o (IF HasNumber(p) THEN Number(id, p.num) ELSE "") \o p.post \o Spelling[p.style][p.ext]
\* shapes a format can hold
Holds(fmt, dims) == CASE fmt \in {"fits", "fits.gz"} -> TRUE
                      [] fmt \in {"tiff", "jpeg"} -> Len(dims) = 2 \/ (Len(dims) = 3 /\ dims[3] = 3)
                      [] OTHER -> FALSE
Modes == 0..3                        \* from smallest to largest value, [0,1], [0,255], [0,65535]
Export(fmt) == fmt \in {"tiff", "jpeg"}
\* settings under which a file can be written
Writable(p, dims, mode, ga, gb) == LET fmt == Format(p.ext) IN Holds(fmt, dims) /\ (Export(fmt) => mode \in Modes /\ ga > 0 /\ gb > 0)
\* whether an error is required, forbidden or neither, given what the disk can take: settings without meaning for the format are free
Free(p, mode, ga, gb) == ~Export(Format(p.ext)) /\ ~(mode \in Modes /\ ga > 0 /\ gb > 0)
------------------------------------------------------------------------------
\* exported values: v in units of 1/den, level in 0..top; range of the mode
Low(mode, vs) == IF mode = 0 THEN MinFrom(vs, 1) ELSE 0
High(mode, vs, den) == CASE mode = 0 -> MaxFrom(vs, 1) [] mode = 1 -> den [] mode = 2 -> 255 * den [] OTHER -> 65535 * den
Clip(x, r) == IF x = NaN \/ x < 0 THEN 0 ELSE IF x > r THEN r ELSE x
Into(v, lo) == IF v = NaN THEN NaN ELSE v - lo
\* one unit of the output for TIFF, five of 255 for the lossy JPEG
Linear(x, q, r, top) == IF top = 65535 THEN IF r = 65535 THEN Abs(q - x) <= 1 ELSE Abs(q * r - x * top) <= r + (r \div 20) + 1
                        ELSE Abs(q * r - x * top) <= 5 * r
Curve(x, q, r, top, a, b) == GammaLaw((x * S) \div r, (q * S) \div top, a, b, IF top = 65535 THEN 1 ELSE 220)
Level(v, q, lo, r, top, a, b) == LET x == Clip(Into(v, lo), r) IN
   /\ q \in 0..top
   /\ x = 0 => q <= (IF top = 65535 THEN 0 ELSE 5)
   /\ x = r => q >= (IF top = 65535 THEN top - 1 ELSE top - 5)
   /\ IF a = b THEN Linear(x, q, r, top) ELSE Curve(x, q, r, top, a, b)
=============================================================================
