"""debug: explore a scenario serially, print the path condition of the first unconfirmed candidate"""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import check
from sv import explore, core, envs
prop, name, label = sys.argv[1:4]
mod = importlib.import_module('harness.' + prop.lower())
sc = [s for s in mod.scenarios(os.environ.get('TIER', 'quick')) if s['name'] == name][0]
sc.setdefault('module', prop.lower()); sc.setdefault('params', {})
conf = dict(check.TIERS['quick'], seed=1)
orig = envs.SymEnv.candidate
hit = []
def cand(self, l, msg, s, nf, how):
    if l == label:
        c = self.c
        print('VARS')
        for v in c.vars:
            print(v.id, v.name, v.kind, float(v.lo) if v.lo is not None else None, float(v.hi) if v.hi is not None else None, s.get(v.id) if v.kind == 'in' else (c.sval(s, v.id) if how == 'sample' else ''), (v.info or [''])[0])
        print('PC')
        for f in c.pc:
            print('   ', f)
        print('NF', nf)
        print('IN', {n: s.get(i) for n, i in c.inputs}, how)
        hit.append(1)
    return orig(self, l, msg, s, nf, how)
envs.SymEnv.candidate = cand
stack = [[]]
n = 0
while stack and not hit and n < 3000:
    n += 1
    r = explore.run_path(sc, stack.pop(), conf, {})
    stack.extend(r['alts'])
    if r.get('exc'): print(r['exc'], r.get('tb'))
print(n, 'paths')
