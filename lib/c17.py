import json, random
from vdrv import main
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    n, v, wn, wv = (6, 4, 9, 2) if c.thorough else (5, 4, 7, 2)
    out = c.tlc_design("OrderStatMC", """SPECIFICATION Spec
CONSTANTS MaxN = %d
 MaxV = %d
 WideN = %d
 WideV = %d
 Emit = TRUE
INVARIANTS InBounds NothingLost PartitionOk Result MedianLower Emitted
PROPERTY Terminates
CHECK_DEADLOCK FALSE
""" % (n, v, wn, wv), workers=8, timeout=800)
    sc = sorted(c.printed(out, "SCEN"))
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc:
            f.write(json.dumps(s) + "\n")
    h = c.build("c17")
    for mode, args in (("replay", ["replay", c.path("scen.ndjson")]), ("rand", ["rand"])):
        t = c.path(mode + ".ndjson")
        if c.record(h, args, t, timeout=400, cwd=c.path()):
            c.validate("OrderStatTrace", t, cfgtext=TR, parallel=8)

main("C17", body)
