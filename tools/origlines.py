#!/usr/bin/env python3
"""origlines.py [ID...]: says which planted bugs touch only lines that /repo's own commits added."""
import os, re, subprocess, sys, glob
base = '902c88a'
for d in sorted(glob.glob('/verif/seeded/*')):
    i = os.path.basename(d)
    if sys.argv[1:] and i not in sys.argv[1:]: continue
    orig = tot = 0
    f = None
    for l in open(d + '/patch.diff'):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            bl = [x.startswith('^') or x.split()[0].startswith(base[:7]) for x in subprocess.run(['git', '-C', '/repo', 'blame', '-s', '--root', base + '^..HEAD', '--', f], capture_output=True, text=True).stdout.splitlines()] or None
            if bl is None:
                bl = [x[0] == '^' or x.startswith(base[:7]) for x in subprocess.run(['git', '-C', '/repo', 'blame', '-s', f], capture_output=True, text=True).stdout.splitlines()]
            ours = set(subprocess.run("git -C /repo log --format=%%h %s..HEAD" % base, shell=True, capture_output=True, text=True).stdout.split())
            out = subprocess.run(['git', '-C', '/repo', 'blame', '-s', f], capture_output=True, text=True).stdout.splitlines()
            bl = [not any(x.lstrip('^')[:7].startswith(o[:7]) for o in ours) for x in out]
        m = re.match(r'@@ -(\d+)', l)
        if m: n = int(m.group(1)); continue
        if l.startswith('---') or l.startswith('+++'): continue
        if l.startswith('-'):
            if l[1:].strip() and not l[1:].strip().startswith('//'):
                tot += 1; orig += bl[n-1]
            n += 1
        elif l.startswith(' '): n += 1
    if orig == 0: print(i, 'no original line among', tot)
