# -*- coding: utf-8 -*-
"""The two environments a harness can run in.  SymEnv: inputs are symbolic and
check() asks the solver.  ConcEnv: inputs are given numbers and the code under
test is the plain, unpatched import (used to replay counterexamples and to
validate paths).  This file is imported by PyPy 3.9 as well: no z3 here."""
from fractions import Fraction


class StopHarness(Exception):
    pass


class AssumeFailed(StopHarness):
    pass


class Violated(StopHarness):
    def __init__(self, label, msg=''):
        StopHarness.__init__(self, label, msg)
        self.label = label
        self.msg = msg


class Raised(object):
    """outcome of env.attempt when the code under test raised"""

    def __init__(self, exc):
        self.exc = exc
        self.name = type(exc).__name__


class ConcEnv(object):
    symbolic = False

    def __init__(self, api, inputs):
        self.api = api
        self.inputs = inputs
        self.obs = []
        self.covers = []
        self.nchecks = 0

    # inputs -------------------------------------------------------------
    def real(self, name, lo, hi, q=3):
        if name not in self.inputs:
            raise AssumeFailed('no value for ' + name)
        x = Fraction(self.inputs[name])
        if not (lo <= x <= hi):
            raise AssumeFailed('range ' + name)
        if (x * 2 ** q).denominator != 1:
            raise AssumeFailed('grid ' + name)
        return float(x)

    def pick(self, name, options):
        i = int(Fraction(self.inputs.get(name, 0)))
        if not 0 <= i < len(options):
            raise AssumeFailed('pick ' + name)
        return options[i]

    # logic --------------------------------------------------------------
    @staticmethod
    def ex(x):
        return Fraction(x)

    @staticmethod
    def And(*a):
        return all(a)

    @staticmethod
    def Or(*a):
        return any(a)

    @staticmethod
    def Not(a):
        return not a

    @staticmethod
    def Implies(a, b):
        return (not a) or bool(b)

    @staticmethod
    def Iff(a, b):
        return bool(a) == bool(b)

    @staticmethod
    def truth(a):
        return bool(a)

    @staticmethod
    def isconst(a):
        return True

    def assume(self, c):
        if not c:
            raise AssumeFailed('assume')

    def check(self, c, label, msg=''):
        self.nchecks += 1
        if not c:
            raise Violated(label, msg)

    def fail(self, label, msg=''):
        raise Violated(label, msg)

    def cover(self, label):
        self.covers.append(label)

    def observe(self, name, value):
        if isinstance(value, float):
            self.obs.append([name, 'f', value])
        else:
            self.obs.append([name, 'd', repr(value)])

    def attempt(self, fn, *a, **kw):
        """run fn; an exception of the code under test becomes a value"""
        try:
            return fn(*a, **kw)
        except StopHarness:
            raise
        except Exception as e:
            return Raised(e)

    def on_mesh(self, variant):
        """which triangulation the stand-in for the C library returns; the library itself has its own"""

    def on_random(self, hook):
        import random

        def uniform(a, b):
            r = hook('uniform', a, b)
            return r if r is not None else a + (b - a) * self._orig_random()
        if not hasattr(self, '_orig_uniform'):
            self._orig_uniform = random.uniform
            self._orig_random = random.random
        random.uniform = uniform

    def restore(self):
        if hasattr(self, '_orig_uniform'):
            import random
            random.uniform = self._orig_uniform


try:
    from . import core
    from . import poly as P
    from . import shims
    _SYM = True
except Exception:            # PyPy side
    _SYM = False


if _SYM:
    class SymEnv(object):
        symbolic = True

        def __init__(self, api, ctx, solver, conf):
            self.api = api
            self.c = ctx
            self.solver = solver
            self.conf = conf
            self.obs = []
            self.covers = []
            self.nchecks = 0
            self.discharged = 0
            self.trivial = 0
            self.undischarged = []
            self.cands = []
            self.names = set()

        def real(self, name, lo, hi, q=3):
            assert name not in self.names, name
            self.names.add(name)
            lo, hi = P.norm(Fraction(lo)), P.norm(Fraction(hi))
            rng = self.c.rng
            shared = self.c.memo.setdefault('pool', {})

            def ev(s):
                # biased towards coincidences between the inputs
                pool = s.setdefault('pool', [])
                u = rng.random()
                if pool and u < 0.45:
                    x = rng.choice(pool)
                    if rng.random() < 0.2:
                        x = -x
                elif u < 0.75:
                    x = float(rng.randint(-4, 4))
                else:
                    n = int((hi - lo) * 2 ** q)
                    x = float(lo + Fraction(rng.randint(0, n), 2 ** q))
                if not (lo <= x <= hi) or (Fraction(x) * 2 ** q).denominator != 1:
                    n = int((hi - lo) * 2 ** q)
                    x = float(lo + Fraction(rng.randint(0, n), 2 ** q))
                pool.append(x)
                return x
            v = self.c.new_var(name, lo, hi, q, 'in', ev)
            self.c.inputs.append((name, v.id))
            if lo == hi:
                return float(lo)
            return core.SymReal({(v.id,): 1})

        def pick(self, name, options):
            n = len(options)
            if n == 1:
                return options[0]
            v = self.c.new_var(name, 0, n - 1, 0, 'in', lambda s: float(self.c.rng.randrange(n)))
            self.c.inputs.append((name, v.id))
            for i in range(n - 1):
                if self.c.decide(self.c.atom({(v.id,): 1, (): -i} if i else {(v.id,): 1}, '<=')):
                    return options[i]
            return options[-1]

        @staticmethod
        def ex(x):
            if type(x) is core.SymExt:
                x = x.resolve()
            if type(x) in (core.SymReal,):
                return core.Ex(core.CTX.lift(x))
            if isinstance(x, core.Ex):
                return x
            return core.Ex(P.const(core.frac(x)))

        @staticmethod
        def _f(x):
            if isinstance(x, core.SymBool):
                return x.f
            return bool(x)

        def And(self, *a):
            return core.mkbool(core.f_and([self._f(x) for x in a]))

        def Or(self, *a):
            return core.mkbool(core.f_or([self._f(x) for x in a]))

        def Not(self, a):
            return core.mkbool(core.f_not(self._f(a)))

        def Implies(self, a, b):
            return self.Or(self.Not(a), b)

        def Iff(self, a, b):
            fa, fb = self._f(a), self._f(b)
            if fa is True:
                return core.mkbool(fb)
            if fa is False:
                return core.mkbool(core.f_not(fb))
            if fb is True:
                return core.mkbool(fa)
            if fb is False:
                return core.mkbool(core.f_not(fa))
            return core.mkbool(core.f_or([core.f_and([fa, fb]), core.f_and([core.f_not(fa), core.f_not(fb)])]))

        @staticmethod
        def truth(a):
            return bool(a)

        @staticmethod
        def isconst(a):
            return not isinstance(a, (core.SymReal, core.SymExt))

        def assume(self, c):
            self.c.assume(self._f(c))

        def fail(self, label, msg=''):
            self.check(False, label, msg)

        def check(self, cond, label, msg=''):
            self.nchecks += 1
            f = self.c.simp(self._f(cond))
            if f is True:
                self.trivial += 1
                return
            nf = core.f_not(f)
            # in the replayed prefix of the path the check has already been decided by the parent path
            k = len(self.c.trace)
            if k < len(self.c.prefix):
                if f is False:
                    raise core.PathInfeasible()
                self.learn(f)
                return
            # 1. a sample that violates
            for s in self.c.samples:
                if self.on_grid(s) and self.c.feval(nf, s) is True and \
                        all(self.c.feval(g, s) is not False for g in self.c.pc):
                    self.candidate(label, msg, s, nf, 'sample')
                    raise core.PathInfeasible()
            # 2. the solver
            r, model = self.solver.check(self.c, [nf] if f is not False else [], want_model=True, kind='check')
            if r == 'unsat':
                self.discharged += 1
                if f is False:
                    raise core.PathInfeasible()
                self.learn(f)
                return
            if r == 'sat':
                # the solver works over the reals: put the model on the input grid, or show there is none
                g = self.c.grid_model(nf)
                if g == 'unsat':
                    self.discharged += 1
                    if f is False:
                        raise core.PathInfeasible()
                    self.learn(f)
                    return
                if g is not None:
                    self.candidate(label, msg, g, nf, 'grid')
                    raise core.PathInfeasible()
                s = {}
                base = self.c.samples[0] if self.c.samples else {}
                for name, vid in self.c.inputs:
                    s[vid] = (model or {}).get(vid, base.get(vid, core.default_in(self.c.vars[vid])))
                self.candidate(label, msg, s, nf, 'model')
                raise core.PathInfeasible()
            self.undischarged.append(label)
            s = self.c.samples[0] if self.c.samples else None
            if s is not None:
                self.candidate(label, msg, s, nf, 'unknown')
            if f is False:
                raise core.PathInfeasible()
            self.learn(f)

        def on_grid(self, s):
            for _, vid in self.c.inputs:
                x = s.get(vid)
                if x is not None and (Fraction(x) * 2 ** self.c.vars[vid].grid).denominator != 1:
                    return False
            return True

        def learn(self, f):
            self.c.learn(f)

        def candidate(self, label, msg, s, nf, how):
            c = self.c
            ins = {}
            for name, vid in c.inputs:
                ins[name] = s.get(vid, core.default_in(c.vars[vid])) if vid in s or c.vars[vid].ev is None else \
                    c.sval(s, vid)
            tries = [self.rounded(ins)]
            if how == 'model':
                t = self.ground(nf, s)
                if t:
                    tries.insert(0, t)
            self.cands.append({'label': label, 'msg': msg, 'how': how, 'inputs': tries})

        def rounded(self, ins):
            out = {}
            for name, vid in self.c.inputs:
                v = self.c.vars[vid]
                x = Fraction(ins[name])
                k = round(x * 2 ** v.grid)
                k = max(k, -((-v.lo * 2 ** v.grid) // 1) if False else k)
                x = Fraction(k, 2 ** v.grid)
                x = min(max(x, Fraction(v.lo)), Fraction(v.hi))
                out[name] = str(x)
            return out

        def ground(self, nf, s):
            """move a model of pc /\\ nf onto the input grid, one variable at a time"""
            c = self.c
            extra = [nf] if nf is not True else []
            fixed = {}
            cur = {vid: Fraction(s.get(vid, 0)) for _, vid in c.inputs}
            for name, vid in c.inputs:
                v = c.vars[vid]
                g = Fraction(1, 2 ** v.grid)
                k = round(cur[vid] / g)
                ok = False
                opts = [k, k + 1, k - 1, round(cur[vid]) / g, k + 2, k - 2, k + 3, k - 3]
                seen = set()
                for o in opts:
                    x = Fraction(o) * g
                    if x in seen or not (v.lo <= x <= v.hi):
                        continue
                    seen.add(x)
                    eqs = [('a', {(w,): 1}, '==', P.norm(y)) for w, y in fixed.items()]
                    e = ('a', {(vid,): 1}, '==', P.norm(x))
                    r, m = self.solver.check(c, extra + eqs + [e], want_model=True, kind='ground', slice_=False,
                                             ms=2000)
                    if r == 'sat':
                        fixed[vid] = x
                        if m:
                            for _, w in c.inputs:
                                if w in m:
                                    cur[w] = m[w]
                        ok = True
                        break
                if not ok:
                    return None
            return {name: str(fixed[vid]) for name, vid in c.inputs}

        def cover(self, label):
            self.covers.append(label)

        def observe(self, name, value):
            if isinstance(value, core.SymBool):
                value = bool(value)
            self.obs.append((name, value))

        def attempt(self, fn, *a, **kw):
            try:
                return fn(*a, **kw)
            except StopHarness:
                raise
            except Exception as e:
                return Raised(e)

        def on_random(self, hook):
            shims.RANDOM.hook = hook

        def on_mesh(self, variant):
            from . import trimesh
            trimesh.VARIANT[0] = variant

        def restore(self):
            from . import trimesh
            trimesh.VARIANT[0] = 0
            shims.RANDOM.reset()
