#!/usr/bin/env python3
"""Creates /verif/seeded/<id> from spec files: python3 tools/plant.py SPEC.py [id...]
A spec file calls plant(id, prop, needs, breaks, edits=[(file, old, new)...], demo=Go statements).
Each change is confirmed in a scratch copy: it builds, the stable tests pass, the demonstration
passes without and fails with the change."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seedwork'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d) || exit 9
cp "$D/demo.go.txt" "$T/main.go"
printf 'module demo\\n\\ngo 1.13\\n\\nrequire github.com/lyraproj/dgo v0.0.0\\n\\nreplace github.com/lyraproj/dgo => %s\\n' "$R" > "$T/go.mod"
cd "$T" || exit 9
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
go build -o demo . || { rm -rf "$T"; exit 9; }
timeout 60 ./demo
rc=$?
rm -rf "$T"
exit $rc
'''
IMPORTS = {'vf.': 'github.com/lyraproj/dgo/vf', 'tf.': 'github.com/lyraproj/dgo/tf', 'typ.': 'github.com/lyraproj/dgo/typ',
 'dgo.': 'github.com/lyraproj/dgo/dgo', 'streamer.': 'github.com/lyraproj/dgo/streamer', 'loader.': 'github.com/lyraproj/dgo/loader',
 'util.': 'github.com/lyraproj/dgo/util', 'parser.': 'github.com/lyraproj/dgo/parser', 'pcore.': 'github.com/lyraproj/dgo/streamer/pcore',
 'reflect.': 'reflect', 'strings.': 'strings', 'time.': 'time', 'math.': 'math', 'regexp.': 'regexp', 'errors.': 'errors', 'bytes.': 'bytes', 'sync.': 'sync', 'strconv.':'strconv', 'json.': 'encoding/json'}
def sh(c, cwd): return subprocess.run(c, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True)
want = sys.argv[2:]
def copy():
    shutil.rmtree(S, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', S], check=True)
def stable():
    r = sh('go build ./... && go vet ./internal >/dev/null 2>&1; go test -json ./... 2>/dev/null', S)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Action') == 'pass' and 'Test' in e: ok.add(e['Package'] + '/' + e['Test'])
    return sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - ok)
def plant(id, prop, needs, breaks, edits, demo, top='', race=False):
    if want and id not in want: return
    if not want and os.path.exists(V + '/seeded/' + id): return
    copy()
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    text = top + '\n' + demo
    imps = ['fmt', 'os'] + [p for k, p in IMPORTS.items() if k in text.replace('"' + p, '')]
    src = 'package main\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in sorted(set(imps))) + ')\n\nfunc check(ok bool, msg string) {\n\tif !ok {\n\t\tfmt.Println("FAIL:", msg)\n\t\tos.Exit(1)\n\t}\n}\n\n' + top + '\nfunc main() {\n' + demo + '\n}\n'
    open(d + '/demo.go.txt', 'w').write(src)
    open(d + '/demo.sh', 'w').write(DEMO.replace('go build -o', 'CGO_ENABLED=1 go build -race -o') if race else DEMO)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r = sh('bash %s/demo.sh' % d, S)
    if r.returncode != 0:
        print(id, 'DEMO FAILS UNPATCHED', r.returncode, r.stdout, r.stderr[:1500]); return
    for f, a, b in edits:
        p = S + '/' + f; s = open(p).read()
        if s.count(a) != 1: print(id, 'EDIT', f, s.count(a), repr(a)); return
        open(p, 'w').write(s.replace(a, b))
    g = sh('gofmt -l .; go build ./...', S)
    if g.stdout.strip() or g.returncode: print(id, 'fmt/build', g.stdout, g.stderr)
    m = stable()
    if m: print(id, 'TESTS FAIL', m[:5]); return
    r = sh('bash %s/demo.sh' % d, S)
    if r.returncode == 0 or r.returncode == 9: print(id, 'DEMO PASSES PATCHED', r.returncode, r.stderr[:500]); return
    df = sh('git diff', S).stdout
    open(d + '/patch.diff', 'w').write(df)
    print(id, 'ok', r.stdout.strip()[:100], r.stderr.strip()[:100].replace('\n', ' '))
exec(open(sys.argv[1]).read())
shutil.rmtree(S, ignore_errors=True)
