#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a seed file and confirms it: builds, stable tests pass, demo passes clean and fails patched.
seed file: python with ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (go main body; fail(msg) available) or DEMO_SH
usage: seed.py FILE [--check]    (--check also runs the analyser's checks on the patched copy)"""
import sys, os, subprocess, shutil, json
ns = {}
exec(open(sys.argv[1]).read(), ns)
sid = ns['ID']; W = '/tmp/work/seedcopy'; out = '/verif/seeded/' + sid
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
shutil.rmtree(W, ignore_errors=True); sh(f'cp -a /repo {W}')
for f, old, new in ns['EDITS']:
    p = f'{W}/{f}'; s = open(p).read()
    if s.count(old) != 1: print(sid, 'EDIT matches', s.count(old), f, repr(old[:60])); sys.exit(1)
    open(p, 'w').write(s.replace(old, new))
diff = sh(f'git -C {W} diff').stdout
os.makedirs(out, exist_ok=True)
open(out + '/patch.diff', 'w').write(diff)
json.dump(dict(property=ns['PROP'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
if 'DEMO_SH' in ns:
    open(out + '/demo.sh', 'w').write(ns['DEMO_SH'])
else:
    imports = ns.get('IMPORTS', [])
    open(out + '/main.go.txt', 'w').write('''package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/hsiaosiyuan0/mole/ecma/estree"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/span"
''' + ''.join('\t%s\n' % i for i in imports) + ''')

func fail(f string, a ...interface{}) { fmt.Printf("FAIL: "+f+"\\n", a...); os.Exit(1) }

// parse returns the ESTree JSON of src or the error's text
func parse(src string, ts bool) (string, error) {
	o := parser.NewParserOpts()
	if ts {
		o.Feature = o.Feature.On(parser.FEAT_TS)
	}
	p := parser.NewParser(span.NewSource("", src), o)
	ast, err := p.Prog()
	if err != nil {
		return "", err
	}
	c := estree.NewConvertCtx(p)
	c.LineCol = false
	b, err := json.Marshal(estree.ConvertProg(ast.(*parser.Prog), c))
	return string(b), err
}
func want(src string, ts bool, sub string) {
	s, err := parse(src, ts)
	if err != nil || !strings.Contains(s, sub) {
		fail("%s: want %s, got %s %v", src, sub, s, err)
	}
}
func accepts(src string, ts bool) {
	if _, err := parse(src, ts); err != nil {
		fail("%s: rejected: %v", src, err)
	}
}
func rejects(src string, ts bool, sub string) {
	if _, err := parse(src, ts); err == nil || !strings.Contains(err.Error(), sub) {
		fail("%s: want error %q, got %v", src, sub, err)
	}
}

var _ = []interface{}{want, accepts, rejects}

''' + ns['DEMO'] + '\n')
    open(out + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = the repository; builds main.go.txt against it in a scratch module
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
cp "$here/main.go.txt" "$d/main.go"
cat > "$d/go.mod" <<M
module demo
go 1.18
require github.com/hsiaosiyuan0/mole v0.0.0
replace github.com/hsiaosiyuan0/mole => $repo
M
cd "$d" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o demo . && timeout 60 ./demo
''')
sh(f'chmod +x {out}/demo.sh')
r = sh('cd %s && go build ./... && go vet ./ecma/parser >/dev/null; true' % W)
# tests on the copy
t = sh(f'cd {W} && go test -timeout 60s ./... 2>&1')
testok = t.returncode
a = sh(f'cd /repo && bash {out}/demo.sh'); b = sh(f'cd {W} && bash {out}/demo.sh')
print(sid, 'tests rc', t.returncode, 'demo clean', a.returncode, 'patched', b.returncode, b.stdout.strip()[:300], b.stderr[:300])
if a.returncode: print('  CLEAN DEMO FAILS', a.stdout, a.stderr)
if t.returncode: print('\n'.join([l for l in t.stdout.splitlines() if 'FAIL' in l or 'panic' in l][:8]))
if '--check' in sys.argv:
    e = dict(os.environ, MOLE_REPO=W, VERIF_ROOT='/verif')
    c = sh('/tmp/work/mc allchecks', env=e)
    print('   caught by:', c.stdout.strip() or 'NOT CAUGHT', c.stderr[-300:])
