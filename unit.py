"""One verification unit, in its own process: unit.py CONTRACT INDEX WORKERS BUDGETFACTOR OUT.json
Generates the obligations from the current sources and discharges them."""
import importlib
import json
import os
import resource
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
import z3
from pyvc import solve, sym
from pyvc.verify import run_unit


def text(o):
    s = z3.Solver()
    for f in o.pc:
        s.add(f)
    s.add(z3.Not(sym.norm(o.goal)))
    t = 'goal: %s\n' % sym.norm(o.goal)
    t += '\n'.join('assumed: %s' % f for f in o.pc)
    return t[:6000]


def vacuous(obs):
    """no path is known to be possible: every path condition is refutable"""
    pcs = {}
    for o in obs:
        if o.kind == 'post':
            pcs[tuple(f.get_id() for f in o.pc)] = o.pc
    n = 0
    for pc in sorted(pcs.values(), key=len)[:4] + sorted(pcs.values(), key=len)[-4:]:
        r = solve.discharge(pc, z3.BoolVal(False), 3.0, 1)
        if r[0] != 'proved':
            return False
        n += 1
    return n > 0


def main():
    mod, idx, workers, factor, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    solve.calibrate()
    t0 = time.time()
    d = {'unit': None, 'status': 'unsupported', 'why': '', 'obligations': [], 'time': 0}
    try:
        u = importlib.import_module('contracts.' + mod).UNITS[idx]
        d['unit'] = u.name
        u.budget *= factor
        r = run_unit(u, workers)
        bad = [o for o in r.obs if o.status != 'proved']
        if r.status == 'failed' and bad:
            solve.discharge_all(bad, u.budget * 3, workers)
            bad = [o for o in r.obs if o.status != 'proved']
            r.status = 'failed' if bad else 'proved'
        if r.status == 'proved' and vacuous(r.obs):
            r.status, r.why = 'unsupported', 'the assumptions of every path are contradictory'
        d.update(status=r.status, why=r.why, paths=r.paths, time=time.time() - t0, explore=r.explore_time,
                 assumed=sorted(set(str(x) for x in r.assumed)),
                 obligations=[{'name': o.name, 'kind': o.kind, 'loc': o.loc, 'status': o.status, 'by': str(o.by),
                               'time': o.time or 0, 'text': text(o) if o.status != 'proved' and r.status == 'failed' else ''}
                              for o in r.obs])
    except MemoryError:
        d['why'] = 'out of memory'
    except Exception as e:
        d['why'] = '%s: %s' % (type(e).__name__, str(e)[:300])
    json.dump(d, open(out + '.new', 'w'))
    os.rename(out + '.new', out)


if __name__ == '__main__':
    main()
