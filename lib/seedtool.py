"""development helper: seed(id, prop, needs, breaks, [(file, old, new)...], main_go) writes and
verifies /verif/seeded/<id>; then runs the property's check on a scratch copy with the bug."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from ed import sub
DEMO = '''#!/bin/bash
# run with cwd /repo: builds main.go (beside this file) against the working tree and runs it
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
repo=$PWD; export REPO="$repo"
w=$(mktemp -d /tmp/demo-XXXXXX)
trap 'rm -rf "$w"' EXIT
cp go.mod go.sum "$w/"
echo "{\\"Replace\\": {\\"$repo/zzdemo/main.go\\": \\"$here/main.go\\"}}" > "$w/ov.json"
go build -modfile "$w/go.mod" -overlay "$w/ov.json" -o "$w/demo" ./zzdemo || exit 2
mkdir "$w/scratch"
cd "$w/scratch" && timeout 60 "$w/demo"
'''
DEMO_CLI = DEMO.replace('echo "{', '''js="$repo/web/blockly/blockly.min.js"   # the embedded editor library is not part of the repository
echo "// empty" > "$w/empty.js"
[ -e "$js" ] && echo '{"Replace": {}}' > "$w/cli.json" || echo "{\\"Replace\\": {\\"$js\\": \\"$w/empty.js\\"}}" > "$w/cli.json"
go build -modfile "$w/go.mod" -overlay "$w/cli.json" -o "$w/nightlight" ./cmd/nightlight || exit 2
export NIGHTLIGHT="$w/nightlight"
echo "{''').replace('timeout 60 "$w/demo"', 'timeout 120 "$w/demo"')
def run(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, errors="replace")
    return p.returncode, p.stdout + p.stderr
def seed(id, prop, needs, breaks, edits, main_go, checks=None, cli=False):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    r = w + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", r])
    try:
        open(d + "/main.go", "w").write(main_go)
        open(d + "/demo.sh", "w").write(DEMO_CLI if cli else DEMO); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        rc0, o0 = run(["bash", d + "/demo.sh"], cwd=r)
        for f, a, b in edits:
            sub(r + "/" + f, (a, b))
        rc, o = run(["git", "diff", "--binary"], cwd=r)
        open(d + "/patch.diff", "w", newline='').write(o)
        b = subprocess.check_output(["git", "diff", "--binary"], cwd=r)
        open(d + "/patch.diff", "wb").write(b)
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=r)
        rca, oa = run(["git", "apply", d + "/patch.diff"], cwd=r)
        env = dict(os.environ)
        rct, ot = run(["bash", "-c", ". /opt/vp/env.sh; go vet ./internal/ops/ >/dev/null 2>&1; go build ./internal/fits ./internal/ops/... ./internal/star ./internal/stats ./internal/qsort ./internal/median && go test -vet=off ./internal/ops/... ./internal/qsort/ ./internal/fits/ ./internal/star/ ./internal/stats/ ./internal/median/"], cwd=r)
        rc1, o1 = run(["bash", d + "/demo.sh"], cwd=r)
        # must change lines of the original code
        orig = 0
        for f in {e[0] for e in edits}:
            try: base = subprocess.check_output(["git", "show", "cc087ff:" + f], cwd=r, text=True, errors="replace").splitlines()
            except Exception: base = []
            base = {x.strip() for x in base}
            orig += sum(1 for x in o.splitlines() if x.startswith("-") and not x.startswith("---") and x[1:].strip() in base and len(x) > 3)
        if orig == 0: print("   ** changes no original line **")
        ok = orig > 0 and rc0 == 0 and rca == 0 and rct == 0 and rc1 not in (0, 2)
        print("%s: demo unpatched rc=%d, apply rc=%d, tests rc=%d, demo patched rc=%d -> %s" % (id, rc0, rca, rct, rc1, "VALID" if ok else "INVALID"))
        if not ok:
            print(o0[-600:], oa[-300:], ot[-600:] if rct else "", o1[-600:])
            return
        print("   demo says:", o1.strip()[-160:])
        for c in checks or [prop]:
            rc, o = run(["/verif/bin/check", c], env=dict(env, VERIF_REPO=r, VERIF_EVID=w + "/evid"))
            print("   check %s rc=%d %s" % (c, rc, "CAUGHT" if rc == 1 else "**MISSED**" + o[-400:]), [l for l in o.splitlines() if l.startswith("  ")][:1])
    finally:
        shutil.rmtree(w, ignore_errors=True)
