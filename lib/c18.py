import json, random
from vdrv import main
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    w, h, lit = (5, 4, 3) if c.thorough else (4, 3, 3)
    out = c.tlc_design("StarFindMC", """SPECIFICATION Spec
CONSTANTS Width = %d
 Height = %d
 MaxLit = %d
 Emit = TRUE
INVARIANTS Apart Inside CatalogueOk FlatNone OnlyOne BadGone NoneMissed Functional Emitted
CHECK_DEADLOCK FALSE
""" % (w, h, lit), workers=8, timeout=850)
    sc = sorted(c.printed(out, "SCEN"), key=lambda s: json.dumps(s, sort_keys=True))
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    random.Random(c.seed).shuffle(sc)
    with open(c.path("scen.ndjson"), "w") as f:
        for s in (sc if c.thorough else sc[:8000]):
            f.write(json.dumps(s) + "\n")
    b = c.build("c18")
    for mode, args in (("replay", [c.path("scen.ndjson")]), ("rand", []), ("big", [])):
        t = c.path(mode + ".ndjson")
        if c.record(b, [mode] + args, t, timeout=300, cwd=c.mkdir(mode)):
            c.validate("StarFindTrace", t, cfgtext=TR, parallel=8, timeout=800)

main("C18", body)
