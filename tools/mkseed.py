#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: make and confirm planted bugs.

SPEC.py defines SEEDS = [dict(id=, property=, edits=[(file, old, new)], pkg=, test=GO SOURCE,
race=bool, needs=, breaks=)]. Each is applied to a scratch copy of /repo, built, run through the
stable tests and its demonstration, and kept in /verif/seeded/<id> only if all of that holds.
"""
import json, os, runpy, shutil, subprocess, sys

DEMO = '''#!/bin/bash
# Exit 0 when the property holds, 1 when the demonstration test fails.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%%s":"%%s/demo.go.txt"}}' "$R" "%(dst)s" "$D" >"$T/overlay.json"
cd "$R" || exit 2
go test -mod=readonly -vet=off -overlay "$T/overlay.json" -count=1 -timeout 60s %(race)s -run '^TestZZDemo' "./%(pkg)s"
'''

def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)

def main():
    spec = runpy.run_path(sys.argv[1])['SEEDS']
    want = sys.argv[2:]
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('passing') or json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
    for s in spec:
        if want and s['id'] not in want:
            continue
        work = '/tmp/seedwork'
        shutil.rmtree(work, ignore_errors=True)
        sh('cp -a /repo %s' % work)
        ok = True
        for f, old, new in s['edits']:
            p = os.path.join(work, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'EDIT FAILS', f, t.count(old), repr(old[:50])); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if not ok:
            continue
        diff = sh('git diff -- "*.go"', cwd=work).stdout
        tmp = '/tmp/seeddir/' + s['id']
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + '/patch.diff', 'w').write(diff)
        open(tmp + '/demo.go.txt', 'w').write(s['test'].lstrip())
        pkg = s.get('pkg', '.')
        dst = (pkg + '/' if pkg != '.' else '') + 'zz_demo_test.go'
        open(tmp + '/demo.sh', 'w').write(DEMO % dict(dst=dst, pkg=pkg, race='-race' if s.get('race') else ''))
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(tmp + '/meta.json', 'w'), indent=1)
        r = sh('. /opt/vp/env.sh; gofmt -l *.go antcache antcdp internal; go build ./...', cwd=work)
        if r.returncode:
            print(s['id'], 'BUILD FAILS', r.stdout, r.stderr); continue
        r = sh('. /opt/vp/env.sh; go test -vet=off -timeout 90s -count=1 ./... 2>&1 | grep -v "no test files"', cwd=work)
        if 'FAIL' in r.stdout:
            print(s['id'], 'TESTS FAIL', [l for l in r.stdout.splitlines() if 'FAIL' in l][:6]); continue
        r1 = sh('bash %s/demo.sh' % tmp, cwd='/repo')
        r2 = sh('bash %s/demo.sh' % tmp, cwd=work)
        if r1.returncode != 0:
            print(s['id'], 'DEMO FAILS ON CLEAN TREE', r1.stdout[-1500:], r1.stderr[-1500:]); continue
        if r2.returncode == 0 or 'build failed' in r2.stdout + r2.stderr:
            print(s['id'], 'DEMO DOES NOT FAIL WITH PATCH', r2.stdout[-800:], r2.stderr[-500:]); continue
        out = '/verif/seeded/' + s['id']
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        print(s['id'], 'ok')
    shutil.rmtree('/tmp/seedwork', ignore_errors=True)

main()
