import json, random
from vdrv import main

def body(c):
    out = c.tlc_design("RefSelectMC", """SPECIFICATION Spec
CONSTANTS N = 3
 Emit = TRUE
INVARIANTS Inv EmitScen
PROPERTY AllDone
""", workers=8)
    sc = c.printed(out, "SCEN")
    uniq = {json.dumps(s, sort_keys=True): s for s in sc}
    sc = [uniq[k] for k in sorted(uniq)]
    random.Random(c.seed).shuffle(sc)
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    if not c.thorough:
        sc = sc[:700]
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc:
            f.write(json.dumps(s) + "\n")
    h = c.build("c03")
    for mode, args in (("replay", ["replay", c.path("scen.ndjson")]), ("rand", ["rand"])):
        t = c.path(mode + ".ndjson")
        if c.record(h, args, t, timeout=400):
            c.validate("RefSelectTrace", t, parallel=4, grouped=True)

main("C03", body)
