import json, random
from vdrv import main
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    out = c.tlc_design("CalibrateMC", """SPECIFICATION Spec
CONSTANTS MaxN = %d
 Emit = TRUE
INVARIANTS Once Right Emitted
PROPERTY Ends
CHECK_DEADLOCK FALSE
""" % (4 if c.thorough else 3), workers=4)
    sc = c.printed(out, "SCEN")
    sc.sort(key=lambda s: json.dumps(s, sort_keys=True))
    random.Random(c.seed).shuffle(sc)
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc[:4000 if c.thorough else 700]:
            f.write(json.dumps(s) + "\n")
    h = c.build("c10")
    for mode, args in (("replay", ["replay", c.path("scen.ndjson")]), ("rand", ["rand"])):
        t = c.path(mode + ".ndjson")
        if c.record(h, args, t, timeout=400, cwd=c.path()):
            c.validate("CalibrateTrace", t, cfgtext=TR, parallel=4, grouped=True)

main("C10", body)
