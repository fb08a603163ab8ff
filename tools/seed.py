"""Make and try a planted bug: seed.py SPEC.py   (SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], demo)
or  seed.py --try ID   (apply, build, test, demo, check, undo)"""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def make(spec):
    d = {}
    exec(open(spec).read(), d)
    assert not sh('git -C /repo status --porcelain').stdout
    for f, old, new in d['edits']:
        p = os.path.join(REPO, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    out = os.path.join(V, 'seeded', d['id'])
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    sh('git -C /repo checkout -- .')
    open(out + '/demo.py', 'w').write('import sys\nsys.path.insert(0, "/opt/py3tree")\nsys.dont_write_bytecode = True\n' + d['demo'].lstrip())
    open(out + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    return d['id']


def attempt(i):
    out = os.path.join(V, 'seeded', i)
    m = json.load(open(out + '/meta.json'))
    res = []
    try:
        r = sh('git -C /repo apply %s/patch.diff' % out)
        assert not r.returncode, r.stderr
        r = sh('bash /opt/vp/build.sh')
        res.append('build %d' % r.returncode)
        r = sh('bash /opt/vp/test.sh /tmp/seed-out.json')
        base = json.load(open('/opt/vp/BASELINE.json'))
        names = base if isinstance(base, list) else base.get('passed') or base.get('stable') or base.get('tests')
        o = json.load(open('/tmp/seed-out.json'))
        ok = set(o.get('passed') or [k for k, v in o.items() if v == 'passed'])
        miss = [n for n in names if n not in ok]
        res.append('missing tests %s' % miss)
        r = sh('bash %s/demo.sh' % out, cwd=REPO)
        res.append('demo with %d' % r.returncode)
        if '--nocheck' not in sys.argv:
            r = sh('/opt/venv/bin/python check.py %s' % m['property'], cwd=V)
            res.append('CHECK %d\n%s' % (r.returncode, r.stdout[-1500:]))
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
    r = sh('bash %s/demo.sh' % out, cwd=REPO)
    res.append('demo without %d %s' % (r.returncode, r.stderr[-300:] if r.returncode else ''))
    print(i, m['property'])
    for x in res:
        print('   ', x)


if __name__ == '__main__':
    if sys.argv[1] == '--try':
        for i in [a for a in sys.argv[2:] if not a.startswith('-')]:
            attempt(i)
    else:
        for s in [a for a in sys.argv[1:] if not a.startswith('-')]:
            attempt(make(s))
