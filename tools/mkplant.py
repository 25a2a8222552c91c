#!/usr/bin/env python3
"""mkplant.py ID < spec: makes /verif/seeded/ID from a JSON spec on stdin
{property, needs, what_it_breaks, edits:[[file, old, new]], demo: shell body}.
The demo body runs with $yot (built from the working directory), in scratch dir $t."""
import json, os, shutil, subprocess, sys, tempfile
id, spec = sys.argv[1], eval(sys.stdin.read())
w = tempfile.mkdtemp(prefix="/tmp/mkplant")
subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
r = w + "/repo"
for f, old, new in spec["edits"]:
    s = open(r + "/" + f).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(r + "/" + f, "w").write(s.replace(old, new))
d = "/verif/seeded/" + id
os.makedirs(d, exist_ok=True)
subprocess.check_call(["gofmt", "-l", r + "/internal"])
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=r, text=True))
json.dump({k: spec[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0 when yot behaves, nonzero when it does not; everything happens in a scratch directory
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off HOME=${HOME:-/root}
CGO_ENABLED=0 go build -o "$t/yot" ./cmd/yot || exit 2
yot=$t/yot
cd "$t" || exit 2
expect() { # expect NAME FILE: stdin is what FILE must hold
  if ! diff -u - "$2"; then echo "wrong: $1"; exit 1; fi
}
''' + spec["demo"].strip("\n") + "\nexit 0\n")
shutil.rmtree(w)
