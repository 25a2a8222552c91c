#!/usr/bin/env python3
"""Names the planted bugs that change no line of the original repository."""
import glob, os, re, subprocess, sys, tempfile, shutil
BASE = '10afe0c'
git = lambda *a, **k: subprocess.check_output(('git', '-C', '/repo') + a, text=True, **k)
added = {}
def lines_added(p):
    if p not in added:
        t = git('diff-tree', '-r', '-p', '-U0', '--no-renames', BASE, 'HEAD', '--', p)
        added[p] = {x for m in re.finditer(r'(?m)^@@ -\S+ \+(\d+)(?:,(\d+))? @@', t) for x in range(int(m[1]), int(m[1]) + int(m[2] or 1))}
    return added[p]
for d in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    w = tempfile.mkdtemp()
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r'])
        subprocess.check_call(['git', 'apply', d], cwd=w + '/r')
        t = subprocess.check_output(['git', 'diff', '-U0'], cwd=w + '/r', text=True)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
        shutil.rmtree(w)
    ok = False
    for part in re.split(r'(?m)^diff --git ', t)[1:]:
        p = re.search(r'(?m)^--- a/(.*)$', part)[1]
        for h in re.split(r'(?m)^(?=@@ )', part)[1:]:
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', h)
            at, n = int(m[1]), int(m[2] or 1)
            old = [x not in lines_added(p) for x in (range(at, at + n) if n else (at, at + 1))]
            ok |= (any if n else all)(old)
    if not ok:
        print(d.split('/')[-2])
