"""Planted bugs (development aid, not a check).
   seed.py make ID PROPERTY SPEC.py  - from a spec: edits [(file, old, new)], prog/expected or demo text, needs, breaks
   seed.py test ID...                - apply, build, unit tests, demo, the property's check; undo; demo again"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO = '''#!/bin/bash
# Runs prog.cs on the built compiler and runtime and compares what it prints.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp "$here"/prog.cs "$d"/
cd "$d"
timeout 60 "$repo/bin/april" run OPTS prog.cs "$repo/System.apl" > out.txt 2> err.txt
rc=$?
[ $rc -eq 0 ] || { echo "ended with $rc"; exit 1; }
tr -d '\\r' < out.txt | sed 's/\\x1b\\[[0-9;]*m//g' > got.txt
diff "$here"/expected.txt got.txt || exit 1
'''


def sh(cmd, timeout=900):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=REPO)
    return p.returncode, p.stdout.decode(errors='replace')


def clean():
    assert not sh('git -C /repo status --short --untracked-files=no')[1].strip(), '/repo not clean'


def make(sid, spec):
    clean()
    d = os.path.join(HERE, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in spec['edits']:
            p = os.path.join(REPO, f)
            t = open(p).read()
            assert t.count(old) == 1, '%s: %d occurrences of %r' % (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C /repo diff')[1])
    finally:
        sh('git -C /repo checkout -- .')
    if 'demo' in spec:
        open(os.path.join(d, 'demo.sh'), 'w').write(spec['demo'])
        for n, t in spec.get('files', {}).items():
            open(os.path.join(d, n), 'w').write(t)
    else:
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO.replace(' OPTS', spec.get('opts', '') and ' ' + spec['opts']))
        open(os.path.join(d, 'prog.cs'), 'w').write(spec['prog'])
        open(os.path.join(d, 'expected.txt'), 'w').write(spec['expected'])
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def test(sid, checks=None):
    clean()
    d = os.path.join(HERE, 'seeded', sid)
    meta = json.load(open(d + '/meta.json'))
    res = {}
    try:
        rc, out = sh('git -C /repo apply %s/patch.diff' % d)
        assert rc == 0, out
        rc, out = sh('bash /opt/vp/build.sh')
        res['build'] = rc
        if rc == 0:
            rc, out = sh('bash /opt/vp/test.sh /tmp/seed_o.json')
            o = json.load(open('/tmp/seed_o.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            names = base.get('stable') or base.get('passed') or base.get('tests') or []
            res['tests_missing'] = [t for t in names if t not in o['passed']] or len(o['passed'])
            rc, out = sh('bash %s/demo.sh' % d, 320)
            res['demo_patched'] = rc
            res['demo_out'] = out[-200:]
            for c in checks or [meta['property']]:
                t = time.time()
                rc, out = sh('cd %s && VERIF_TIER=quick python3 checks/%s.py' % (HERE, c.lower()), 1000)
                res['check_' + c] = (rc, round(time.time() - t), [l[:200] for l in out.split('\n') if l.startswith(('---', 'VIOL'))][:2])
    finally:
        sh('git -C /repo checkout -- .')
    return sid, res


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        for sid, spec in ns['SEEDS'].items():
            if len(sys.argv) > 3 and sid not in sys.argv[3:]:
                continue
            make(sid, spec)
    elif sys.argv[1] == 'test':
        ids = [a for a in sys.argv[2:] if not a.startswith('+')]
        ck = [a[1:] for a in sys.argv[2:] if a.startswith('+')]
        for sid in ids:
            print(json.dumps(test(sid, ck), default=str), flush=True)
        sh('bash /opt/vp/build.sh')
        for sid in ids:
            rc, out = sh('bash %s/seeded/%s/demo.sh' % (HERE, sid), 320)
            print(sid, 'demo on clean tree:', rc, out[-300:])
