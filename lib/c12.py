import json, random
from vdrv import main
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    out = c.tlc_design("JobsMC", """SPECIFICATION Spec
CONSTANTS MaxSteps = %d
 MaxDepth = 2
 Emit = TRUE
INVARIANTS RoundTrip Refusal KeepsOrder Settings Emitted
CHECK_DEADLOCK FALSE
""" % (3 if c.thorough else 2), workers=8)
    reg = c.printed(out, "REG")[0]
    json.dump(reg, open(c.path("reg.json"), "w"))
    sc = c.printed(out, "SCEN")
    sc.sort(key=lambda s: json.dumps(s, sort_keys=True))
    random.Random(c.seed).shuffle(sc)
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    c.extra["step_types"] = len(reg["types"])
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc:
            f.write(json.dumps(s) + "\n")
    h = c.build("c12")
    for mode, args in (("replay", ["replay", c.path("scen.ndjson")]), ("rand", ["rand", c.path("reg.json")])):
        t = c.path(mode + ".ndjson")
        if c.record(h, args, t, timeout=600, cwd=c.mkdir(mode)):
            c.validate("JobsTrace", t, cfgtext=TR, parallel=8)

main("C12", body)
