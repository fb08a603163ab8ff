"""Mutation sweep over the counterexample searches (development aid, no check uses it).
mutate.py OUT.txt SECONDS JOBS [file[:function] ...]
Every mutant of the named functions which the stable tests do not notice is given to the searches of the properties
anchored in its file; those nothing notices are listed."""
import ast, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'
REPO = '/repo'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
PROPS = {}
for l in open(V + '/properties.jsonl'):
    d = json.loads(l)
    if os.path.exists('%s/concrete/%s.py' % (V, d['id'].lower())):
        for f in d['anchors']['files']:
            PROPS.setdefault(f, []).append(d['id'])
OPS = [(r'<=', ['<']), (r'>=', ['>']), (r'(?<![<>=!-])<(?![<=>])', ['<=']), (r'(?<![<>=!-])>(?![>=])', ['>=']), (r'==', ['!=']), (r'!=', ['==']),
       (r'(?<![\w(\[,=*]) \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r'\+=', ['-=']),
       (r'\band\b', ['or']), (r'\bor\b', ['and']), (r'\bnot ', ['']), (r'\bTrue\b', ['False']), (r'\bFalse\b', ['True']),
       (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']), (r'logical_and', ['logical_or']), (r'logical_or', ['logical_and']),
       (r'\bbreak\b', ['pass']), (r'\bcontinue\b', ['pass']), (r'\bif (.*):', ['if True:', 'if False:']), (r'\[::-1\]', ['']),
       (r'(?<![\w.])(\d+\.\d*|\.\d+)(?![\w])', ['(\\1 * 1.001)', '(\\1 + 1.)']), (r'(?<![\w.])(\d+)(?![\w.])', ['(\\1 + 1)', '(\\1 - 1)']),
       (r'\.floor\(', ['.ceil(']), (r'\.ceil\(', ['.floor(']), (r'\bcos\(', ['sin(']), (r'\bsin\(', ['cos(']), (r'copy\.deepcopy\(', ['(']),
       (r'np\.copy\(', ['(']), (r"'(\w+)'", ["'\\1x'"]), (r'argsort\(', ['-1 * np.argsort(']), (r'\.append\(', ['.insert(0, ']), (r'np\.sum\(', ['np.mean(']),
       (r'\bint\(', ['(']), (r'\bfloat\(', ['(']), (r'np\.sqrt\(', ['(']), (r'np\.abs\(', ['(']), (r'\babs\(', ['('])]


def functions(src):
    from pyvc import front
    t = ast.parse(src_translated(src))
    for n in ast.walk(t):
        if isinstance(n, ast.FunctionDef):
            yield n.name, n.body[0].lineno if not doc(n) else n.body[min(1, len(n.body) - 1)].lineno, n.end_lineno


def doc(n):
    return isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str)


def src_translated(path):
    from pyvc import front
    return front.translated(path)


def mutants(rel, only):
    path = os.path.join(REPO, rel)
    src = open(path).read()
    lines = src.split('\n')
    cover = {}
    for name, a, b in functions(path):
        if only and name not in only:
            continue
        for i in range(a - 1, b):
            cover[i] = name
    for i, name in sorted(cover.items()):
        l = lines[i]
        if not l.strip() or l.strip().startswith('#') or 'LOGGER' in l:
            continue
        for pat, reps in OPS:
            for m in re.finditer(pat, l):
                for r in reps:
                    n = l[:m.start()] + m.expand(r) + l[m.end():]
                    if n != l:
                        yield rel, i, l, n, name
        s = l.strip()
        if re.match(r'[\w.\[\], :]+ (=|\+=) ', s) and s.count('(') == s.count(')') and not s.endswith(('\\', ',')) or re.match(r'[\w.]+\(.*\)$', s):
            yield rel, i, l, l[:len(l) - len(l.lstrip())] + 'pass', name
        m = re.match(r'(\s*)return (\w+), (\w+)$', l)
        if m:
            yield rel, i, l, '%sreturn %s, %s' % (m.group(1), m.group(3), m.group(2)), name


def one(job):
    rel, i, old, new, name, secs = job
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        lines = open(os.path.join(repo, rel)).read().split('\n')
        assert lines[i] == old
        lines[i] = new
        open(os.path.join(repo, rel), 'w').write('\n'.join(lines))
        tree = os.path.join(d, 'tree')
        code = ('import re;s=open("/opt/vp/translate.py").read().replace(\'REPO = "/repo"\',\'REPO = "%s"\').replace(\'TREE = "/opt/py3tree"\',\'TREE = "%s"\')'
                '.replace(\'"/opt/vp/translate-cache"\',\'"/tmp/mut/cache"\');exec(s)' % (repo, tree))
        r = subprocess.run([PY, '-B', '-c', code], capture_output=True, text=True)
        if r.returncode:
            return job, 'syntax'
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
        try:
            r = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--rootdir=' + tree, '--timeout=30', '--continue-on-collection-errors', '--doctest-modules',
                            '--ignore=mtoolkit/scientific/fault_calculator.py', '--ignore=tests/fault_calculator', '-o', 'junit_family=xunit2', '--junitxml=' + d + '/j.xml', 'mtoolkit', 'tests'],
                           cwd=tree, env=env, capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            return job, 'tests'
        import xml.etree.ElementTree as ET
        ok = set()
        try:
            for t in ET.parse(d + '/j.xml').iter('testcase'):
                if not list(t):
                    ok.add('%s::%s' % (t.get('classname'), t.get('name')))
        except Exception:
            return job, 'tests'
        if STABLE - ok:
            return job, 'tests'
        for p in PROPS.get(rel, []):
            e = dict(env, VERIF_REPO=repo, VERIF_UNITS='none', VERIF_TIER='quick', VERIF_SECONDS=str(secs), VERIF_EVIDENCE=d)
            r = subprocess.run([PY, V + '/check.py', p], env=e, capture_output=True, text=True)
            if r.returncode == 1:
                return job, 'caught ' + p
            if r.returncode:
                return job, 'ERROR ' + p + r.stderr[-300:]
        return job, 'SURVIVED'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out, secs, n = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
    jobs = []
    for a in sys.argv[4:] or sorted(PROPS):
        f, _, fn = a.partition(':')
        jobs += [m + (secs,) for m in mutants(f, fn.split(',') if fn else None)]
    print(len(jobs), 'mutants', flush=True)
    count = {}
    with ThreadPoolExecutor(n) as ex, open(out, 'w') as o:
        for job, what in ex.map(one, jobs):
            count[what.split()[0]] = count.get(what.split()[0], 0) + 1
            if what[:4] not in ('test', 'synt', 'caug'):
                o.write('%s:%d %s  %s\n    - %s\n    + %s\n' % (job[0], job[1] + 1, job[4], what, job[2].strip(), job[3].strip()))
                o.flush()
        o.write('%s\n' % count)
    print(count)


if __name__ == '__main__':
    main()
