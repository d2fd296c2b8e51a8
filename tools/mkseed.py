#!/usr/bin/env python3
"""mkseed.py: verify and store a planted bug.

usage: mkseed.py ID PROPERTY SPEC, where SPEC is a python file defining
  edits = [(file, old, new), ...]; demo = Go source of a main package;
  needs = "..."; breaks = "..."
The change is made in a scratch copy; it must build, pass the tests, and the
demonstration must fail with it and pass without it."""
import sys, os, subprocess, shutil, json, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs demo.go against the tree in the current directory.
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
H=$(cd "$(dirname "$0")" && pwd)
printf '{"Replace": {"%s/zzdemo/main.go": "%s/demo.go"}}' "$PWD" "$H" > "$D/o.json"
go build -overlay "$D/o.json" -o "$D/demo" ./zzdemo || exit 3
cd "$D" && timeout 60 ./demo
'''
def main():
    ident, prop, spec = sys.argv[1:4]
    ns = {}
    exec(open(spec).read(), ns)
    w = tempfile.mkdtemp(prefix="seed")
    r = os.path.join(w, "repo")
    shutil.copytree("/repo", r, symlinks=True)
    d = os.path.join(ROOT, "seeded", ident)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.go", "w").write(ns["demo"])
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    def run(c, **k):
        p = subprocess.run(c, shell=True, cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
        return p.returncode, p.stdout
    rc, o = run(f"bash {d}/demo.sh")
    if rc != 0:
        ok = False; print("demo fails on the unchanged tree:", rc, o[-800:])
    root = subprocess.run("git rev-list --max-parents=0 HEAD", shell=True, cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.strip()
    for f, a, b, *n in ns["edits"]:
        s = open(f"{r}/{f}").read()
        assert s.count(a) == (n[0] if n else 1), (f, s.count(a), a)
        open(f"{r}/{f}", "w").write(s.replace(a, b))
    rc, o = run("git diff")
    open(d + "/patch.diff", "w").write(o)
    f, orig, mine = None, "", 0
    for l in o.split("\n"):
        if l.startswith("--- a/"):
            orig = subprocess.run(["git", "show", root + ":" + l[6:]], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.split("\n")
        elif l.startswith("-") and l[1:].strip():
            mine += l[1:] in orig
    if not mine and "\n-" in o.split("@@")[-1]: print("WARNING: changes no line of the original repository")
    rc, o = run("go build ./... && go vet . >/dev/null 2>&1; go build ./...")
    if rc: ok = False; print("does not build", o)
    rc, o = run("go test ./... 2>&1 | grep -v 'no test files'")
    if "FAIL" in o:
        base = subprocess.run("go test ./... 2>&1 | grep -c '^--- FAIL'", shell=True, cwd="/repo", stdout=subprocess.PIPE, text=True).stdout
        print("tests:", o[-1500:], "baseline failures", base); ok = False
    rc, o = run(f"bash {d}/demo.sh")
    if rc == 0 or rc == 3:
        ok = False; print("demo does not fail with the change", rc, o[-500:])
    else:
        print("demo:", rc, o.strip()[-300:])
    shutil.rmtree(w)
    if not ok:
        shutil.rmtree(d)
    print(ident, "KEPT" if ok else "REJECTED")
main()
