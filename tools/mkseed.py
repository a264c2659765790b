#!/usr/bin/env python3
"""mkseed.py DEFS.py: plants the bugs defined there, confirms them, writes
seeded/<id>/.  DEFS.py defines SEEDS = [dict(id, property, needs, breaks,
edits=[(file, old, new)], demo=go source of package main)]."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Fails when the planted bug is present.  Runs in the repository.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo.go.txt" "$tmp/main.go"
printf '{"Replace": {"%s/internal/zzdemo/main.go": "%s/main.go"}}' "$PWD" "$tmp" > "$tmp/overlay.json"
go build RACE-overlay "$tmp/overlay.json" -o "$tmp/demo" ./internal/zzdemo || exit 2
DEMO_TMP="$tmp" timeout 250 "$tmp/demo" || exit 1
'''
GUIDEMO = DEMO.replace('internal/zzdemo/main.go', 'cmd/mtex-render/zz_demo.go').replace('./internal/zzdemo', './cmd/mtex-render').replace('DEMO_TMP=', 'ZZDEMO=1 DEMO_TMP=')
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
ENV = 'export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1 PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build; '
def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    only = sys.argv[2:]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'] if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else [])
    for s in g['SEEDS']:
        if only and s['id'] not in only: continue
        w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
        try:
            subprocess.run(['git', 'clone', '-q', '/repo', w + '/repo'], check=True)
            r = w + '/repo'
            bad = None
            for f, old, new in s['edits']:
                t = open(r + '/' + f).read()
                if t.count(old) != 1:
                    bad = '%s: old text occurs %d times' % (f, t.count(old)); break
                open(r + '/' + f, 'w').write(t.replace(old, new))
            if bad: print(s['id'], 'BAD', bad); continue
            d = sh('git diff', r).stdout
            b = sh(ENV + 'gofmt -l . ; go build ./... ', r)
            if b.returncode: print(s['id'], 'BAD build', b.stdout[-800:]); continue
            t = sh(ENV + 'go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files"', r)
            fails = [l for l in t.stdout.splitlines() if 'FAIL' in l]
            if fails: print(s['id'], 'BAD tests', fails[:6]); continue
            o = V + '/seeded/' + s['id']
            shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
            open(o + '/patch.diff', 'w').write(d)
            open(o + '/demo.go.txt', 'w').write(s['demo'])
            open(o + '/demo.sh', 'w').write((GUIDEMO if s.get('gui') else DEMO).replace('RACE', '-race ' if s.get('race') else '')); os.chmod(o + '/demo.sh', 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
            x = sh('bash %s/demo.sh' % o, r)
            y = sh('git stash -q && bash %s/demo.sh; rc=$?; git stash pop -q; exit $rc' % o, r)
            good = x.returncode != 0 and x.returncode != 2 and y.returncode == 0
            print(s['id'], 'ok' if good else 'BAD demo', 'patched rc', x.returncode, 'clean rc', y.returncode, (x.stdout + y.stdout)[-300:].strip() if not good else x.stdout.strip()[-150:])
            if not good: shutil.rmtree(o)
        finally:
            shutil.rmtree(w, ignore_errors=True)
main()
