"""development entry: prove.py c10 [unit substring]"""
import os, sys, importlib, time
sys.path.insert(0, os.getcwd())
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)
from pyvc.verify import run_unit
from pyvc import sym
args = [a for a in sys.argv[1:] if not a.startswith('-')]
m = importlib.import_module('contracts.' + args[0])
for u in m.UNITS:
    if len(args) > 1 and args[1] not in u.name:
        continue
    if os.fork():           # one process per unit, as in the checks
        os.wait()
        continue
    r = run_unit(u, int(os.environ.get('W', '8')), verbose='-v' in sys.argv)
    print('%-12s %-50s paths %d obs %d %.1fs (explore %.1fs) %s' % (r.status, u.name, r.paths, len(r.obs), r.time, r.explore_time, r.why), flush=True)
    for o in r.obs:
        if o.status != 'proved' or '-a' in sys.argv:
            print('    ', o.status, o.by, '%.1f' % o.time, o.name)
            if '-g' in sys.argv:
                print(sym.norm(o.goal)); print(o.pc)
    sys.stdout.flush()
    os._exit(0)
