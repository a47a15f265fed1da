#!/usr/bin/env python3
"""Plants a bug: builds its patch against /repo's HEAD in a scratch copy,
confirms that it compiles, passes the tests and that its demonstration fails
with it and passes without, then writes /verif/seeded/<id>/.
Usage: plant.py BUGS.py [id...]"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs main.go.txt against the repository in the current directory.
. /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
d="$(mktemp -d /tmp/demo.XXXXXX)" || exit 1
trap 'rm -rf -- "$d"' EXIT
cp "$here/main.go.txt" "$d/main.go" && cp "$repo/go.sum" "$d/go.sum" || exit 1
cat >"$d/go.mod" <<M
module demo

go 1.21

require (
	github.com/danhhz/zeropb v0.0.0
	github.com/golang/protobuf v1.3.1
	github.com/pkg/errors v0.8.1
)

replace github.com/danhhz/zeropb => $repo
M
cd "$d" && %sgo build %s-o demo . && %sREPO="$repo" timeout 200 ./demo
'''
PRE = '''package main

import (
%s)

func fail(format string, a ...interface{}) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}
'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def main():
    ns = {}
    ns['__file__'] = os.path.abspath(sys.argv[1])
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns['BUGS']:
        if only and b['id'] not in only: continue
        d = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
        try:
            r = os.path.join(d, 'repo')
            subprocess.check_call(['cp', '-a', '/repo', r])
            out = os.path.join(d, 'seed'); os.mkdir(out)
            body = b['demo']
            imps = b.get('imports', [])
            std = sorted(set(['fmt', 'os'] + [i for i in imps if '.' not in i.split('/')[0]]))
            ext = sorted(i for i in imps if '.' in i.split('/')[0])
            imp = ''.join('\t"%s"\n' % i for i in std) + ('\n' if ext else '') + ''.join('\t"%s"\n' % i for i in ext)
            open(os.path.join(out, 'main.go.txt'), 'w').write(PRE % imp + '\n' + body.strip('\n') + '\n')
            race = b.get('race')
            open(os.path.join(out, "demo.sh"), "w").write(DEMO % ((("CGO_ENABLED=1 ", "-race ") if race else (b.get("env", ""), "")) + (b.get("run", ""),)))
            os.chmod(os.path.join(out, 'demo.sh'), 0o755)
            clean = sh('bash %s/demo.sh' % out, cwd=r)
            for f, old, new in b['edits']:
                p = os.path.join(r, f); s = open(p).read()
                if s.count(old) != 1: print(b['id'], 'EDIT matches', s.count(old), 'times:', old); break
                open(p, 'w').write(s.replace(old, new))
            else:
                g = sh('gofmt -l *.go generate/generate.go generate/stringtree.go cmd', cwd=r).stdout
                t = sh('. /opt/vp/env.sh; go build ./... && go vet ./... ; go test ./... 2>&1', cwd=r)
                ok = 'FAIL' not in t.stdout and t.returncode == 0
                bad = sh('bash %s/demo.sh' % out, cwd=r)
                diff = sh('git diff', cwd=r).stdout
                base = sh('git blame -s 2ee8480.. -- x', cwd=r)
                print('%-28s tests %s, demo clean %d, with bug %d%s' % (b['id'], 'pass' if ok else 'FAIL', clean.returncode, bad.returncode, ' GOFMT '+g if g else ''))
                if clean.returncode: print(clean.stdout[-500:], clean.stderr[-800:])
                if not ok: print(t.stdout[-300:], t.stderr[-300:])
                if bad.returncode: print('      ', bad.stdout.strip()[:200], bad.stderr.strip()[:200])
                if ok and clean.returncode == 0 and bad.returncode != 0:
                    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
                    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
                    dst = os.path.join(ROOT, 'seeded', b['id'])
                    if os.path.isdir(dst): shutil.rmtree(dst)
                    shutil.copytree(out, dst)
        finally:
            shutil.rmtree(d)
main()
