"""check.py Cnn            decide one property on the current /repo tree
   check.py Cnn --replay FILE"""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
PY = sys.executable
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
QUICK = TIER != 'thorough'
SEARCH = float(os.environ.get('VERIF_SECONDS') or (25 if QUICK else 240))           # seconds of counterexample search
HANG = 60
LIMIT = 700 if QUICK else 3300
CAP = 420 if QUICK else 1500            # one unit
SLOTS = 4
T0 = time.time()


def make_tree(dst):
    """the tree the project's build would run: Python 2 sources translated by lib2to3, data files copied"""
    from pyvc import front
    for top in ('mtoolkit', 'nrml', 'main.py', 'config.yml'):
        src = os.path.join(REPO, top)
        if os.path.isfile(src):
            one_file(front, src, os.path.join(dst, top))
        for path, dirs, files in os.walk(src):
            dirs[:] = sorted(d for d in dirs if d != '__pycache__')
            out = os.path.join(dst, os.path.relpath(path, REPO))
            os.makedirs(out, exist_ok=True)
            for f in sorted(files):
                if not f.endswith('.pyc'):
                    one_file(front, os.path.join(path, f), os.path.join(out, f))


def one_file(front, src, dst):
    if src.endswith('.py'):
        try:
            t = front.translated(src)
            with open(dst, 'w', encoding='utf-8') as f:
                f.write(t)
            return
        except Exception as e:
            print('%s cannot be translated: %s' % (src, e), file=sys.stderr)
    if os.path.isfile(src):
        shutil.copyfile(src, dst)


def env(tree, scratch):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED='0', TZ='UTC', PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
             VERIF_TREE=tree, TMPDIR=scratch, VERIF_TIER=TIER)
    e.pop('PYTHONPATH', None)
    return e


class Proc(object):
    """a child in its own process group"""
    def __init__(self, args, tree, scratch, err=None):
        self.err = open(err or os.devnull, 'w')
        self.p = subprocess.Popen([PY] + args, cwd=scratch, env=env(tree, scratch), stdin=subprocess.DEVNULL,
                                  stdout=self.err, stderr=subprocess.STDOUT, start_new_session=True)
        self.t0 = time.time()

    def poll(self):
        return self.p.poll()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.err.close()


class Search(object):
    """a counterexample search process"""
    def __init__(self, prop, tree, scratch, seed, seconds):
        self.out = os.path.join(scratch, 's%d.json' % seed)
        self.proc = Proc([os.path.join(HERE, 'concrete', 'worker.py'), tree, prop, 'gen', str(seed), str(seconds),
                          '1000000000', self.out], tree, scratch, self.out + '.err')
        self.seconds = seconds
        self.done, self.bad, self.error, self.stats = False, None, None, None

    def poll(self):
        if self.done:
            return
        rc = self.proc.poll()
        if rc is None:
            cur = self.out + '.cur'
            last = os.path.getmtime(cur) if os.path.exists(cur) else self.proc.t0
            if time.time() - max(last, self.proc.t0) > HANG:
                self.proc.kill()
                self.read()
                if os.path.exists(cur):
                    self.bad = self.bad or {'what': 'no answer within %d s' % HANG, 'case': load(cur), 'history': []}
                self.done = True
            return
        self.proc.kill()
        self.read()
        if self.stats is None and self.bad is None and self.error is None:
            cur = self.out + '.cur'
            if rc < 0 and os.path.exists(cur):
                self.bad = {'what': 'the interpreter died (signal %d)' % -rc, 'case': load(cur), 'history': []}
            else:
                self.error = 'search process ended with %s: %s' % (rc, open(self.out + '.err').read()[-600:])
        self.done = True

    def read(self):
        if not os.path.exists(self.out):
            return
        for l in open(self.out):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d['kind'] == 'bad':
                self.bad = d
            elif d['kind'] == 'error':
                self.error = d['what']
            elif d['kind'] == 'done':
                self.stats = d


def load(f):
    try:
        return json.load(open(f))
    except ValueError:
        return None


def replay(prop, tree, scratch, cases, tag):
    """run the cases in a fresh process; (kind, what) of the last one"""
    f = os.path.join(scratch, 'replay%s.in' % tag)
    o = os.path.join(scratch, 'replay%s.out' % tag)
    json.dump({'cases': cases}, open(f, 'w'))
    p = Proc([os.path.join(HERE, 'concrete', 'worker.py'), tree, prop, 'replay', f, o], tree, scratch, o + '.err')
    t0 = time.time()
    while p.poll() is None and time.time() - t0 < HANG:
        time.sleep(0.05)
    rc = p.poll()
    p.kill()
    if rc is None:
        return 'bad', 'no answer within %d s' % HANG
    try:
        d = json.loads(open(o).readline())
        return d['kind'], d['what']
    except (ValueError, OSError):
        if rc < 0:
            return 'bad', 'the interpreter died (signal %d)' % -rc
        return 'error', open(o + '.err').read()[-600:]


def confirm(prop, tree, scratch, b):
    """reproduce in a fresh process: alone, else after the cases which ran before it"""
    hist = b.get('history') or []
    for k in (0, 1, 2, 5, 20, 60):
        if k and k > 2 * len(hist):
            break
        cases = hist[len(hist) - k:] + [b['case']] if k else [b['case']]
        kind, what = replay(prop, tree, scratch, cases, 'c%d' % k)
        if kind == 'bad':
            return cases, what
    return None, None


def save_replay(prop, d):
    p = os.path.join(EVIDENCE, 'replay')
    os.makedirs(p, exist_ok=True)
    f = os.path.join(p, '%s-%s-%d.json' % (prop, TIER, SEED))
    json.dump(d, open(f, 'w'), indent=1)
    return f


def known(prop):
    """entries 'KNOWN-FINDING: property=<id> key=<key> <what fails>' of the committed file"""
    out = []
    for l in open(os.path.join(HERE, 'known-findings.txt')):
        p = l.strip().split(None, 3)
        if p and p[0] == 'KNOWN-FINDING:' and p[1] == 'property=' + prop:
            out.append((p[2].split('=', 1)[1], p[3]))
    return out


def main():
    prop = sys.argv[1]
    scratch = tempfile.mkdtemp(prefix='vchk-')
    procs = []
    try:
        return run(prop, scratch, procs)
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, scratch, procs):
    tree = os.path.join(scratch, 'tree')
    os.makedirs(tree)
    make_tree(tree)
    os.makedirs(EVIDENCE, exist_ok=True)
    cm = importlib.import_module('concrete.' + prop.lower())
    if '--replay' in sys.argv:
        d = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        if d.get('cases'):
            kind, what = replay(prop, tree, scratch, d['cases'], 'r')
            print(kind, what)
            return 1 if kind == 'bad' else 0
        print(json.dumps(d, indent=1))
        return 0
    try:
        units = importlib.import_module('contracts.' + prop.lower()).UNITS
    except ImportError:
        units = []
    only = os.environ.get('VERIF_UNITS')
    results = [None] * len(units)
    queue = list(range(len(units)))
    if only == 'none':
        queue = []
    running = {}
    nsearch = 3 if units else 6
    searches = [Search(prop, tree, scratch, SEED * 1000 + k, SEARCH) for k in range(nsearch)]
    procs.extend(s.proc for s in searches)
    found, notes = None, []
    extended = False
    handled = set()
    while True:
        for s in searches:
            s.poll()
            if s.bad and id(s) not in handled and not found:
                handled.add(id(s))
                cases, what = confirm(prop, tree, scratch, s.bad)
                if cases:
                    found = {'property': prop, 'what': what, 'cases': cases}
                else:
                    notes.append('not reproducible in a fresh process: %s' % s.bad['what'])
        if found:
            break
        while queue and len(running) < SLOTS:
            k = queue.pop(0)
            o = os.path.join(scratch, 'u%d.json' % k)
            p = Proc([os.path.join(HERE, 'unit.py'), prop.lower(), str(k), '3' if len(units) > 2 else '6',
                      '1' if QUICK else '3', o], tree, scratch, o + '.err')
            procs.append(p)
            running[k] = (p, o)
        for k, (p, o) in list(running.items()):
            rc = p.poll()
            late = time.time() - p.t0 > CAP or time.time() - T0 > LIMIT
            if rc is None and not late:
                continue
            p.kill()
            del running[k]
            if os.path.exists(o):
                results[k] = json.load(open(o))
            else:
                results[k] = {'unit': units[k].name, 'status': 'unsupported', 'obligations': [], 'time': time.time() - p.t0,
                              'why': 'time limit' if rc is None else 'ended with %s %s' % (rc, open(o + '.err').read()[-300:])}
        if not queue and not running and all(s.done for s in searches):
            bad = [r for r in results if r and r['status'] == 'failed']
            if bad and not extended:
                # a proof failed: look harder for a failing input
                extended = True
                more = [Search(prop, tree, scratch, SEED * 1000 + 100 + k, 45 if QUICK else 400) for k in range(7)]
                procs.extend(s.proc for s in more)
                searches += more
                continue
            break
        time.sleep(0.05)
    code = report(prop, units, results, searches, found, notes, tree, scratch, cm)
    return code


def report(prop, units, results, searches, found, notes, tree, scratch, cm):
    for r in results:
        if r and r['status'] == 'unsupported':
            notes.append('unit "%s" not decided by proof on this tree (%s): covered by the bounded search only' % (r['unit'], r['why'][:200]))
    errors = [s.error for s in searches if s.error]
    for e in errors:
        notes.append('search error: ' + e)
        print('search error:', e, file=sys.stderr)
    rs = [r for r in results if r]
    failed = [r for r in rs if r['status'] == 'failed']
    obs = [o for r in rs if r['status'] != 'unsupported' for o in r['obligations']]
    proved = [r for r in rs if r['status'] == 'proved']
    by = {}
    for o in obs:
        if o['status'] == 'proved':
            by[o['by']] = by.get(o['by'], 0) + 1
    assumed = sorted(set(a for u in units for a in u.assumptions) | set(a for r in rs for a in r.get('assumed', [])))
    ev = sum(s.stats['n'] for s in searches if s.stats)
    dist = sum(s.stats['distinct'] for s in searches if s.stats)
    fns = []
    for u, r in zip(units, results):
        if r and r['status'] == 'proved' and not u.bounded:
            fns += [f for f in u.functions if f not in fns]
    bounded = [u.name + ' (' + u.bounded + ')' for u in units if u.bounded]
    level = 'proof' if obs else 'exploration'
    cov = {'evaluations': ev, 'distinct_nontrivial': dist, 'rule': cm.RULE,
           'samples': [c for s in searches if s.stats for c in s.stats['samples']][:3]}
    if obs:
        cov.update(obligations=len(obs), discharged=len([o for o in obs if o['status'] == 'proved']),
                   checker_cmd='%s check.py %s (pyvc: symbolic execution of the translated sources; z3 and cvc5)' % (PY, prop),
                   trusted_base=TRUSTED,
                   discharged_by=by, solver_seconds=round(sum(o['time'] for o in obs), 2),
                   functions_under_contract=fns, bounded_units=bounded,
                   units=[{'unit': r['unit'], 'status': r['status'], 'obligations': len(r['obligations']),
                           'paths': r.get('paths'), 'seconds': round(r['time'], 1), 'why': r['why'][:200]} for r in rs],
                   bounded_search={'evaluations': ev, 'distinct': dist, 'note': 'counterexample search, not counted as proof'})
        if not ev:
            for k in ('evaluations', 'distinct_nontrivial'):
                cov.pop(k)
    cov['notes'] = notes
    for i, (key, what) in enumerate(known(prop)):
        kind, w = replay(prop, tree, scratch, [dict(cm.KNOWN[key], known=key)], 'k%d' % i)
        if kind == 'bad':
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
    nviol = 0
    code = 0
    if found:
        nviol = code = 1
        f = save_replay(prop, found)
        print('failing input: %s' % found['what'])
        print('VIOLATION property=%s replay=%s' % (prop, f))
    elif failed:
        nviol = code = 1
        d = {'property': prop, 'what': 'obligations not discharged', 'checker_cmd': 'check.py ' + prop,
             'failed': [{'unit': r['unit'], 'obligation': o['name'], 'kind': o['kind'], 'where': o['loc'], 'verifier': o['status'] + ' / ' + o['by'],
                         'text': o['text']} for r in failed for o in r['obligations'] if o['status'] != 'proved']}
        for x in d['failed'][:10]:
            print('failed obligation: [%s] %s (%s)' % (x['unit'], x['obligation'], x['verifier']))
        f = save_replay(prop, d)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, f))
    doc = {'property': prop, 'tier': 'quick' if QUICK else 'thorough', 'seed': SEED, 'level': level, 'coverage': cov,
           'assumptions': assumed, 'wall_s': round(time.time() - T0, 2), 'violations': nviol}
    p = os.path.join(EVIDENCE, prop + '.json')
    json.dump(doc, open(p + '.new', 'w'), indent=1)
    os.rename(p + '.new', p)
    print('%s: %d units proved of %d, %d obligations discharged of %d, %d cases searched, %.0f s' % (
        prop, len(proved), len(units), len([o for o in obs if o['status'] == 'proved']), len(obs), ev, time.time() - T0))
    for n in notes:
        print('note:', n)
    return code


TRUSTED = ['pyvc (/verif/pyvc): the translation by lib2to3 the build uses, the instrumentation, the symbolic execution and loop '
           'rules', 'contracts of numpy, csv, lxml, shapely, yaml and the standard library as modelled in pyvc/npm.py and '
           'pyvc/lib.py', 'z3 and cvc5', 'floating point treated as real arithmetic']

if __name__ == '__main__':
    sys.exit(main())
