import json
from vdrv import main

def body(c):
    out = c.tlc_design("PixelStackMC", """SPECIFICATION Spec
CONSTANTS Values = {0, 1, 5, 23}
 NMax = %d
 Sig = 9
 Emit = TRUE
INVARIANTS Paired Same NonEmpty Ranges EmitCol
PROPERTY Ends
""" % (5 if c.thorough else 4), workers=8)
    cols = {json.dumps(s["v"]): s for s in c.printed(out, "COL")}
    cols = [cols[k] for k in sorted(cols)]
    c.extra["columns_generated_by_tlc"] = len(cols)
    with open(c.path("cols.ndjson"), "w") as f:
        for s in cols:
            f.write(json.dumps(s) + "\n")
    h = c.build("c05")
    for mode, args in (("replay", ["replay", c.path("cols.ndjson")]), ("rand", ["rand"])):
        t = c.path(mode + ".ndjson")
        if c.record(h, args, t, timeout=400):
            c.validate("PixelStackTrace", t, cfgtext="SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n",
                       parallel=8, grouped=True)

main("C05", body)
