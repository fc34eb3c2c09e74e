import json, random
from vdrv import main

TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    out = c.tlc_design("StatsReportMC", """SPECIFICATION Spec
CONSTANTS MaxN = %d
 MaxT = %d
 Emit = TRUE
INVARIANTS Complete Always Errors Emitted
PROPERTY Finishes
CHECK_DEADLOCK FALSE
""" % ((4, 3) if c.thorough else (3, 3)), workers=4)
    sc = [s for s in c.printed(out, "SCEN") if not (s["batched"] and all(k == "nil" for k in s["kinds"]))]
    sc.sort(key=lambda s: json.dumps(s, sort_keys=True))
    random.Random(c.seed).shuffle(sc)
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc:
            f.write(json.dumps(s) + "\n")
    h = c.build("c09")
    for mode, args in (("replay", ["replay", c.path("scen.ndjson")]), ("rand", ["rand"])):
        t = c.path(mode + ".ndjson")
        if c.record(h, args, t, timeout=400, cwd=c.path()):
            c.validate("StatsReportTrace", t, cfgtext=TR, parallel=6, grouped=True)

main("C09", body)
