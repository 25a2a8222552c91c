#!/bin/bash
# plant.sh ID...   confirm planted bugs: applies, builds, passes the stable tests, demo 0 without / nonzero with.
# plant.sh -c ID...  also run the property's quick check against the patched /repo copy (must exit 1).
check=; [ "$1" = -c ] && { check=1; shift; }
for id in "$@"; do
  d=/verif/seeded/$id
  w=$(mktemp -d /tmp/plantXXXXXX)
  cp -a /repo "$w/repo"; cp -a "$d" "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
  ok=ok
  (cd "$w/repo" && REPO=$w/repo bash "$w/demo/demo.sh") >"$w/l0" 2>&1 || ok="DEMO-FAILS-CLEAN"
  (cd "$w/repo" && git apply "$d/patch.diff") || ok="NOAPPLY"
  (cd "$w/repo" && GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off go build ./... ) >"$w/l1" 2>&1 || ok="NOBUILD"
  (cd "$w/repo" && GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off go test -vet=off -count=1 -parallel 1 ./... ) >"$w/l2" 2>&1 || ok="TESTS"
  (cd "$w/repo" && REPO=$w/repo bash "$w/demo/demo.sh") >"$w/l3" 2>&1 && ok="DEMO-PASSES-BUG"
  res=
  if [ -n "$check" ]; then
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    t0=$(date +%s)
    res=$(cd /verif && VERIF_REPO=$w/repo VERIF_SEED=${SEED:-1} VERIF_TIER=quick VERIF_SCRATCH=$w python3 check.py $p 2>&1 | tail -1 | cut -c1-120)
    res="$res ($(( $(date +%s)-t0 ))s)"
  fi
  echo "$id: $ok $res"
  [ $ok = ok ] || tail -n 15 "$w"/l?
  rm -rf "$w"
done
