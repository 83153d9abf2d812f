# -*- coding: utf-8 -*-
"""Depth-first exploration of the paths of a harness by re-execution, spread
over worker processes."""
import importlib
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from fractions import Fraction

from . import core, envs, loader, shims

REPO = loader.REPO


class Coverage(object):
    """names of the functions of the tree under test that were executed"""
    TOOL = 4

    def __init__(self):
        self.seen = set()
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, 'sv')
        except ValueError:
            return
        m.register_callback(self.TOOL, m.events.PY_START, self.cb)
        m.set_events(self.TOOL, m.events.PY_START)

    def cb(self, code, off):
        fn = code.co_filename
        if fn.startswith(REPO + '/') and code.co_name not in ('<module>', '<listcomp>', '<genexpr>', '<lambda>'):
            self.seen.add('%s:%s' % (os.path.relpath(fn, REPO), code.co_qualname))
        return sys.monitoring.DISABLE


_CODE = {}


def fresh_api():
    shims.RANDOM.reset()
    ld = FastLoader()
    return loader.API(ld.load)


class FastLoader(loader.Loader):
    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        fn, pkg = self.path(name)
        if not os.path.exists(fn):
            return loader.Loader.load(self, name)
        code = _CODE.get(fn)
        if code is None:
            import ast
            src = open(fn, encoding='utf-8').read()
            tree = ast.fix_missing_locations(loader.Rewrite().visit(ast.parse(src, fn)))
            code = _CODE[fn] = compile(tree, fn, 'exec')
        import types
        m = types.ModuleType(name)
        m.__file__ = fn
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(fn)]
        m.__dict__['__builtins__'] = self.bdict
        self.mods[name] = m
        exec(code, m.__dict__)
        if '.' in name:
            par, _, leaf = name.rpartition('.')
            setattr(self.mods[par], leaf, m)
        return m


def on_alarm(*a):
    raise core.BudgetExceeded('path time')


def run_path(sc, prefix, conf, stats):
    """execute one path; returns a result dict"""
    from .solver import Solver
    solver = Solver(feas_ms=sc.get('feas_ms', conf['feas_ms']), check_ms=sc.get('check_ms', conf['check_ms']),
                    stats=stats, dump=conf.get('dump'))
    deadline = time.time() + sc.get('path_s', conf['path_s'])
    c = core.Ctx(prefix=prefix, solver=solver, seed=conf['seed'] * 7919 + len(prefix),
                 nsamples=conf['nsamples'], deadline=deadline, stats=stats)
    core.set_ctx(c)
    env = None
    res = {'end': None, 'exc': None}
    signal.setitimer(signal.ITIMER_REAL, sc.get('path_s', conf['path_s']) * 3 + 30)
    try:
        api = fresh_api()
        fn = getattr(api.load('harness.' + sc['module']), sc['fn'])
        env = envs.SymEnv(api, c, solver, conf)
        try:
            fn(env, **sc['params'])
            res['end'] = 'done'
        except core.Steer:
            raise
        except envs.StopHarness as e:
            res['end'] = 'stop'
        except RecursionError:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith(REPO + '/')]
            res['exc'] = '%s: %s' % (type(e).__name__, e)
            res['tb'] = traceback.format_exc()[-3000:]
            env.check(False, 'exception', res['exc'] + (' at %s:%d' % (os.path.relpath(where[-1].filename, REPO),
                                                                       where[-1].lineno) if where else ''))
            res['end'] = 'done'
    except core.PathInfeasible:
        res['end'] = 'infeasible'
    except core.PathAssume:
        res['end'] = 'assume'
    except core.BudgetExceeded as e:
        res['end'] = 'budget'
    except core.Unsupported as e:
        res['end'] = 'unsupported'
        res['exc'] = str(e)
        res['tb'] = traceback.format_exc()[-2000:]
    except RecursionError:
        res['end'] = 'unsupported'
        res['exc'] = 'recursion'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res['alts'] = c.alts
    res['ndec'] = len(c.trace)
    res['concretized'] = c.concretized
    if env is not None:
        res['nchecks'] = env.nchecks
        res['discharged'] = env.discharged
        res['trivial'] = env.trivial
        res['undischarged'] = env.undischarged
        res['cands'] = env.cands
        res['covers'] = env.covers
        if res['end'] == 'done' and not env.cands and conf.get('validate', True):
            res['val'] = validation(env, c)
    return res


def validation(env, c):
    """a concrete input of this path with the outcome predicted for it"""
    for s in c.samples[:6]:
        ok = True
        ins = {}
        for name, vid in c.inputs:
            v = c.vars[vid]
            x = Fraction(c.sval(s, vid))
            if (x * 2 ** v.grid).denominator != 1 or not v.lo <= x <= v.hi:
                ok = False
                break
            ins[name] = str(x)
        if not ok:
            continue
        try:
            if not all(c.feval(f, s) is True for f in c.pc):
                continue
            obs = []
            for name, val in env.obs:
                if type(val) is core.SymExt:
                    val = val.resolve()
                if type(val) is core.SymReal:
                    obs.append([name, 'f', c.peval(c.lift(val), s)])
                elif isinstance(val, float):
                    obs.append([name, 'f', val])
                else:
                    obs.append([name, 'd', repr(val)])
        except core.Steer:
            return None
        return {'inputs': ins, 'obs': obs}
    return None


def obs_match(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0] or x[1] != y[1]:
            return False
        if x[1] == 'f':
            if abs(x[2] - y[2]) > 1e-6 * (1 + abs(x[2])):
                return False
        elif x[2] != y[2]:
            return False
    return True


def worker(conn, scs, conf):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(20000)
    cov = Coverage()
    first = {}
    while True:
        try:
            task = conn.recv()
        except EOFError:
            return
        if task is None:
            return
        sid, prefixes, slice_s = task
        stack = list(prefixes)
        stats = {}
        out = []
        t0 = time.time()
        while stack and (time.time() - t0 < slice_s or not out):
            p = stack.pop()
            tp = time.time()
            try:
                r = run_path(scs[sid], p, conf, stats)
            except Exception:
                r = {'end': 'engine-error', 'exc': traceback.format_exc()[-3000:], 'alts': [], 'ndec': 0,
                     'concretized': 0}
            r['t'] = time.time() - tp
            stack.extend(r.pop('alts'))
            out.append(r)
            if r.get('cands'):
                break
        conn.send((sid, out, stack, stats, sorted(cov.seen)))
        cov.seen.clear()
