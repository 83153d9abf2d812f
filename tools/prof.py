"""profile the exploration of one scenario in this process: prof.py PROP SCENARIO [seconds]"""
import cProfile, pstats, sys, os, time, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import check
from sv import explore
prop, name = sys.argv[1:3]
T = float((sys.argv + ['20'])[3])
mod = importlib.import_module('harness.' + prop.lower())
sc = [s for s in mod.scenarios(os.environ.get('TIER', 'quick')) if s['name'] == name][0]
sc.setdefault('module', prop.lower()); sc.setdefault('params', {})
conf = dict(check.TIERS['quick'], seed=1)
stats = {}
pr = cProfile.Profile()
stack = [[]]
n = 0
t0 = time.time()
pr.enable()
while stack and time.time() - t0 < T:
    n += 1
    r = explore.run_path(sc, stack.pop(), conf, stats)
    stack.extend(r['alts'])
pr.disable()
print(n, 'paths', stats)
pstats.Stats(pr).sort_stats('tottime').print_stats(25)
