import json, os, subprocess
from vdrv import main, goenv, REPO, CheckError
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def cli(c, race=False):
    """The nightlight program from /repo's working tree. The editor library it embeds is not part of the
    repository; an empty file stands in where it is missing."""
    ov = c.path("overlay-cli.json")
    with open(c.path("empty.js"), "w") as f:
        f.write("// empty\n")
    js = os.path.join(REPO, "web/blockly/blockly.min.js")
    with open(ov, "w") as f:
        json.dump({"Replace": {} if os.path.exists(js) else {js: c.path("empty.js")}}, f)
    mf = c.path("go.mod")
    if not os.path.exists(mf):
        import shutil
        shutil.copy(os.path.join(REPO, "go.mod"), mf)
        shutil.copy(os.path.join(REPO, "go.sum"), c.path("go.sum"))
    out = c.path("cli-race" if race else "cli")
    p = subprocess.run(["go", "build", "-modfile", mf, "-overlay", ov, "-tags", "jsoniter", "-o", out] + (["-race"] if race else []) + ["./cmd/nightlight"],
                       cwd=REPO, env=goenv(), capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError("build of the program failed:\n" + p.stdout + p.stderr)
    return out

def body(c):
    inv = "INVARIANTS Apart Reach Covers Whole Emitted\nCHECK_DEADLOCK FALSE\n"
    out = c.tlc_design("CliMC", "SPECIFICATION Spec\nCONSTANTS Most = 1\n Emit = TRUE\n" + inv, workers=4, timeout=850)
    if c.thorough:
        c.tlc_design("CliMC", "SPECIFICATION Spec\nCONSTANTS Most = 2\n Emit = FALSE\n" + inv, workers=8, timeout=850)
    sc = sorted({json.dumps(s, sort_keys=True) for s in c.printed(out, "SCEN")})
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc:
            f.write(s + "\n")
    prog = cli(c)
    b = c.build("c21")
    for mode in ("replay", "rand", "end"):
        t = c.path(mode + ".ndjson")
        if c.record(b, [mode, prog, c.path("scen.ndjson")], t, timeout=850 if c.thorough else 400, cwd=c.mkdir(mode)):
            c.validate("CliTrace", t, cfgtext=TR, parallel=8, timeout=800)

if __name__ == "__main__":
    main("C21", body)
