import json, random
from vdrv import main
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    out = c.tlc_design("CosmeticMC", """SPECIFICATION Spec
CONSTANTS Width = 4
 Height = %d
 MaxHot = %d
 Emit = TRUE
INVARIANTS MonoOk Hoods Others Unchanged Bounded Wider Confluent Emitted
CHECK_DEADLOCK FALSE
""" % ((3, 2) if c.thorough else (4, 1)), workers=8, timeout=850)
    sc = sorted(c.printed(out, "SCEN"), key=lambda s: json.dumps(s, sort_keys=True))
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    random.Random(c.seed).shuffle(sc)
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc:
            f.write(json.dumps(s) + "\n")
    b = c.build("c19")
    for mode, args in (("replay", [c.path("scen.ndjson")]), ("rand", [])):
        t = c.path(mode + ".ndjson")
        if c.record(b, [mode] + args, t, timeout=300, cwd=c.mkdir(mode)):
            c.validate("CosmeticTrace", t, cfgtext=TR, parallel=8, timeout=800)

main("C19", body)
