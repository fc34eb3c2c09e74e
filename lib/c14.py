import json
from vdrv import main
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    inv = "INVARIANTS Total Placed Colours Lit NotStale Span Emitted\nCHECK_DEADLOCK FALSE\n"
    sc = []
    for n in (1, 2):
        out = c.tlc_design("ColourMC", "SPECIFICATION Spec\nCONSTANTS Combos = %d\n Emit = TRUE\n%s" % (n, inv), workers=8, timeout=850)
        sc += c.printed(out, "SCEN")
    sc = sorted({json.dumps(s, sort_keys=True) for s in sc})
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc:
            f.write(s + "\n")
    b = c.build("c14")
    for mode, args in (("replay", [c.path("scen.ndjson")]), ("rand", [])):
        t = c.path(mode + ".ndjson")
        if c.record(b, [mode] + args, t, timeout=300, cwd=c.mkdir(mode)):
            c.validate("ColourTrace", t, cfgtext=TR, parallel=8, timeout=800)

main("C14", body)
