#!/usr/bin/env python3
"""Development aid: makes seeded/<id>/ from edits and a demo program, and confirms it.
usage: mkseed.py FILE.py   where FILE.py defines
  SEEDS = {id: dict(prop=, needs=, breaks=, edits=[(path, old, new)...], demo="go main body / program")}
"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
DEMO = '''#!/bin/bash
# exit 0 when the code behaves, nonzero when it does not; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
w=$(mktemp -d) || exit 1; trap 'rm -rf "$w"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off HOME=${HOME:-/root}
cp "$here/demo.go.txt" "$w/main.go"
printf 'module demo\\n\\ngo 1.14\\n\\nrequire github.com/use-go/gosips v0.0.0\\n\\nreplace github.com/use-go/gosips => %s\\n' "$repo" > "$w/go.mod"
cd "$w" && go build RACEFLAG-o demo . || exit 1
ulimit -v 16000000
timeout 60 ./demo
'''
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
for sid, s in ns["SEEDS"].items():
    if only and sid not in only:
        continue
    d = os.path.join(here, "..", "seeded", sid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        r = os.path.join(w, "repo")
        subprocess.check_call(["cp", "-a", "/repo", r])
        for path, old, new in s["edits"]:
            p = os.path.join(r, path)
            t = open(p).read()
            assert t.count(old) == 1, (sid, path, "occurrences:", t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        race = s.get("race")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("RACEFLAG", "-race " if race else "").replace("ulimit -v 16000000\n", "" if race else "ulimit -v 16000000\n"))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.go.txt"), "w").write(s["demo"])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        b = subprocess.run(["go", "build", "./..."], cwd=r, env=env, capture_output=True, text=True)
        good = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", capture_output=True, text=True)
        bad = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=r, capture_output=True, text=True)
        t = subprocess.run("go test ./... 2>&1 | grep -E '^(---|ok|FAIL)' | sort", shell=True, cwd=r, env=env, capture_output=True, text=True)
        t0 = subprocess.run("go test ./... 2>&1 | grep -E '^(---|ok|FAIL)' | sort", shell=True, cwd="/repo", env=env, capture_output=True, text=True)
        strip = lambda x: sorted({l.split(" (")[0].split("\t")[0] + l.split("\t")[1] if "\t" in l else l.split(" (")[0] for l in x.splitlines()})
        same = strip(t.stdout) == strip(t0.stdout)
        print(sid, "build", b.returncode, "demo clean", good.returncode, "demo bug", bad.returncode, "tests same", same)
        if b.returncode or good.returncode or not bad.returncode or not same:
            print("   PROBLEM", b.stderr[-500:], good.stdout[-500:], good.stderr[-800:], bad.stdout[-300:])
    finally:
        shutil.rmtree(w)
