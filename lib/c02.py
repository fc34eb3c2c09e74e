import json, random
from vdrv import main

def body(c):
    out = c.tlc_design("OpSeqMC", """SPECIFICATION Spec
CONSTANTS MaxN = 2
 MaxK = %d
 MaxShape = %d
INVARIANTS SInv Emit
""" % (2, 3), workers=8)
    progs = c.printed(out, "PROG")
    uniq = {json.dumps(s, sort_keys=True): s for s in progs}
    progs = [uniq[k] for k in sorted(uniq)]
    random.Random(c.seed).shuffle(progs)
    c.extra["programs_generated_by_tlc"] = len(progs)
    if not c.thorough:
        progs = progs[:2500]
    with open(c.path("prog.ndjson"), "w") as f:
        for s in progs:
            f.write(json.dumps(s) + "\n")
    h = c.build("c02")
    for mode, args in (("replay", ["replay", c.path("prog.ndjson")]), ("rand", ["rand"])):
        t = c.path(mode + ".ndjson")
        if c.record(h, args, t, timeout=300):
            c.validate("OpSeqTrace", t, parallel=4, grouped=True)

main("C02", body)
