import json
from vdrv import main
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    inv = "INVARIANTS Mono InRange EndsFixed Equal Neutral Lawful Idempotent Inverse Placed Emitted\nCHECK_DEADLOCK FALSE\n"
    out = c.tlc_design("ToneMC", "SPECIFICATION Spec\nCONSTANTS MaxOps = %d\n Emit = TRUE\n%s" % (3 if c.thorough else 2, inv), workers=8, timeout=850)
    sc = sorted(c.printed(out, "SCEN"), key=lambda s: json.dumps(s, sort_keys=True))
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc:
            f.write(json.dumps(s) + "\n")
    b = c.build("c20")
    for mode, args in (("replay", [c.path("scen.ndjson")]), ("rand", [])):
        t = c.path(mode + ".ndjson")
        if c.record(b, [mode] + args, t, timeout=300, cwd=c.mkdir(mode)):
            c.validate("ToneTrace", t, cfgtext=TR, parallel=8, timeout=800)

main("C20", body)
