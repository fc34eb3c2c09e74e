import json
from vdrv import main

CFG = """SPECIFICATION Spec
CONSTANTS Widths = %s
 Ns = %s
 Buf = %d
 Chunks = %s
 MaxCalls = %d
 Emit = %s
INVARIANTS Complete NoFalseError EmitScen
%s
"""
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    # the reader's freedom, all schedules, with a small input buffer
    c.tlc_design("FitsStream", CFG % ("{1, 2}", "{1, 2, 3}", 4, "{0, 1, 2, 3, 4}", 7 if c.thorough else 6, "FALSE", "PROPERTY Ends"), workers=8)
    # schedules to replay with the real sample widths
    scens = {}
    for w, ch in ((1, "{0, 1, 2, 64}"), (2, "{0, 1, 3, 64}"), (4, "{0, 1, 3, 6, 64}"), (8, "{0, 3, 7, 12, 64}")):
        out = c.tlc_design("FitsStream", CFG % ("{%d}" % w, "{1, 2, 3}" if c.thorough or w < 4 else "{1, 2}", 64, ch, 4 if c.thorough or w < 4 else 3, "TRUE", ""), workers=8)
        for s in c.printed(out, "SCEN"):
            scens[json.dumps(s, sort_keys=True)] = s
    c.extra["schedules_generated_by_tlc"] = len(scens)
    with open(c.path("scens.ndjson"), "w") as f:
        for k in sorted(scens):
            f.write(k + "\n")
    h = c.build("c06")
    for mode, args in (("replay", ["replay", c.path("scens.ndjson")]), ("rand", ["rand"])):
        t = c.path(mode + ".ndjson")
        if c.record(h, args, t, timeout=400):
            c.validate("FitsReadTrace", t, cfgtext=TR, parallel=8)

main("C06", body)
