#!/bin/bash
# try.sh FILE SEDEXPR CHECK...: run checks against a copy of /repo changed by a sed expression
f=$1; e=$2; shift 2
w=$(mktemp -d /tmp/tryXXXX); cp -a /repo $w/repo
sed -i -E "$e" $w/repo/$f; (cd $w/repo; git diff --stat | tail -1; git diff | grep '^[+-]' | head -${LINES_MAX:-12})
for c in "$@"; do (cd /verif; VERIF_REPO=$w/repo VERIF_SEED=${SEED:-1} python3 check.py $c 2>&1 | tail -1); done
rm -rf $w
