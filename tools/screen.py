#!/usr/bin/env python3
"""screen.py BUGS.py [id...] - applies each bug to a scratch copy and says
whether the tests and the quick check of its property (or $CHECKS) notice it."""
import os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
ns['__file__'] = os.path.abspath(sys.argv[1])
exec(open(sys.argv[1]).read(), ns)
for b in ns['BUGS']:
    if sys.argv[2:] and b['id'] not in sys.argv[2:]: continue
    d = tempfile.mkdtemp(prefix='screen.', dir='/tmp'); r = os.path.join(d, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', r])
        bad = 0
        for f, old, new in b['edits']:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(old) != 1: print(b['id'], 'EDIT matches', s.count(old), repr(old)); bad = 1; break
            open(p, 'w').write(s.replace(old, new))
        if bad: continue
        t = subprocess.run('. /opt/vp/env.sh; go vet . ./generate ./cmd/...; go test ./... 2>&1', shell=True, cwd=r, capture_output=True, text=True)
        fail = t.returncode != 0
        out = []
        for c in os.environ.get('CHECKS', b['property']).split():
            k = subprocess.run(['timeout', '900', ROOT + '/check', c, 'quick'], env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
            out.append('%s=%s' % (c, {0: 'MISSED', 1: 'caught'}.get(k.returncode, 'rc%d' % k.returncode)))
        print('%-24s tests %s %s' % (b['id'], 'FAIL '+t.stdout[-200:] if fail else 'pass', ' '.join(out)), flush=True)
    finally:
        shutil.rmtree(d)
