import json, random
from vdrv import main

def body(c):
    # all ways of distributing the frames, small problems
    c.tlc_design("BatchStackMC", """SPECIFICATION Spec
CONSTANTS MaxN = 6
 MaxAvail = 10
 MaxProcs = 2
 Assign = TRUE
 Emit = FALSE
INVARIANTS RefuseOk DoneOk NonEmpty Once
""", workers=4)
    # the arithmetic of the plan, larger problems, canonical distribution
    out = c.tlc_design("BatchStackMC", """SPECIFICATION Spec
CONSTANTS MaxN = %d
 MaxAvail = %d
 MaxProcs = %d
 Assign = FALSE
 Emit = TRUE
INVARIANTS RefuseOk DoneOk NonEmpty EmitScen
""" % ((30, 20, 8) if c.thorough else (14, 12, 4)), workers=8)
    sc = c.printed(out, "SCEN")
    sc.sort(key=lambda s: json.dumps(s, sort_keys=True))
    random.Random(c.seed).shuffle(sc)
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    sc = sc[:12000 if c.thorough else 700]
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc:
            f.write(json.dumps(s) + "\n")
    h = c.build("c04")
    for mode, args in (("replay", ["replay", c.path("scen.ndjson")]), ("rand", ["rand"])):
        t = c.path(mode + ".ndjson")
        if c.record(h, args, t, timeout=400):
            c.validate("BatchStackTrace", t, parallel=4, grouped=True)

main("C04", body)
