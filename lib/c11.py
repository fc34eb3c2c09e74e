import json, random
from vdrv import main
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    out = c.tlc_design("PathContainMC", """SPECIFICATION Spec
CONSTANTS MaxLen = %d
 MaxTok = %d
 MaxPat = %d
 Emit = TRUE
INVARIANTS Contained NotTooStrict PatOk Emitted
CHECK_DEADLOCK FALSE
""" % ((11, 6, 4) if c.thorough else (8, 5, 3)), workers=6)
    sc = c.printed(out, "SCEN")
    sc.sort(key=lambda s: json.dumps(s, sort_keys=True))
    random.Random(c.seed).shuffle(sc)
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    n = {"path": 0, "pat": 0}
    lim = 20000 if c.thorough else 1500
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc:
            n[s["kind"]] += 1
            if n[s["kind"]] <= lim:
                f.write(json.dumps(s) + "\n")
    h = c.build("c11")
    for mode, args in (("replay", ["replay", c.path("scen.ndjson")]), ("rand", ["rand"])):
        t = c.path(mode + ".ndjson")
        if c.record(h, args, t, timeout=400, cwd=c.path()):
            c.validate("PathContainTrace", t, cfgtext=TR, parallel=8)

main("C11", body)
