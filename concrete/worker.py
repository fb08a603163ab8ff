"""Runs cases of one property against the translated tree.  Started by check.py:
   worker.py TREE PROP (gen SEED SECONDS MAXCASES | replay FILE) OUT"""
import importlib
import json
import logging
import os
import sys
import time
import traceback
import warnings


def main():
    tree, prop, mode = sys.argv[1:4]
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.path.insert(0, tree)
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all='ignore')
    from concrete import base
    out = open(sys.argv[-1], 'w')
    m = importlib.import_module('concrete.' + prop.lower())

    def emit(**k):
        out.write(json.dumps(k) + '\n')
        out.flush()
    scratch = os.path.join(os.path.dirname(sys.argv[-1]), 'w%d' % os.getpid())
    os.makedirs(scratch)
    os.chdir(scratch)
    cur = sys.argv[-1] + '.cur'

    def one(case):
        """None, or what is wrong"""
        try:
            r = m.run(case)
            return ('ok', r)
        except base.Skip as e:
            return ('skip', str(e))
        except base.Bad as e:
            return ('bad', str(e))
        except MemoryError:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inner = [f for f in tb if f.filename.startswith(tree)]
            if not inner:
                # nothing of the code under test: an error of the oracle
                if any('/concrete/' in f.filename for f in tb[-1:]):
                    return ('error', traceback.format_exc())
            where = '%s:%d' % (os.path.relpath(inner[-1].filename, tree), inner[-1].lineno) if inner else tb[-1].filename
            return ('bad', 'unexpected %s: %s (%s)' % (type(e).__name__, str(e)[:200], where))
    if mode == 'replay':
        d = json.load(open(sys.argv[4]))
        last = None
        for c in d['cases']:
            last = one(c)
        emit(kind=last[0], what=last[1])
        return
    seed, seconds, maxc = int(sys.argv[4]), float(sys.argv[5]), int(sys.argv[6])
    nums, strs = base.harvest(tree)
    g = base.Gen(seed, nums, strs)
    t0 = time.time()
    n = skips = 0
    keys = set()
    samples, history = [], []
    fixed = list(getattr(m, 'FIXED', [])) if seed % 1000 == 0 else []
    while n < maxc and time.time() - t0 < seconds:
        case = fixed.pop(0) if fixed else m.gen(g)
        g.n += 1
        with open(cur, 'w') as f:
            json.dump(case, f)
        history.append(case)
        if len(history) > 400:
            history.pop(0)
        k, what = one(case)
        n += 1
        if k == 'skip':
            skips += 1
        elif k == 'ok':
            keys.add(hash(json.dumps(case, sort_keys=True)))
            if len(samples) < 2:
                samples.append(case)
        elif k == 'error':
            emit(kind='error', what=what, case=case)
            break
        else:
            emit(kind='bad', what=what, case=case, history=history[:-1][-60:])
            break
    emit(kind='done', n=n, skips=skips, distinct=len(keys), samples=samples, seconds=time.time() - t0)


if __name__ == '__main__':
    main()
