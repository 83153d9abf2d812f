# -*- coding: utf-8 -*-
"""SMT back end: path conditions -> SMT-LIB -> z3 (nlsat / simplex), cvc5 fallback."""
import time
from fractions import Fraction

import z3

from . import poly as P
from . import core


def num(c):
    c = Fraction(c)
    n, d = c.numerator, c.denominator
    s = str(abs(n)) + '.0'
    if d != 1:
        s = '(/ %s %d.0)' % (s, d)
    return '(- %s)' % s if n < 0 else s


def mono(m):
    if len(m) == 1:
        return 'v%d' % m[0]
    return '(* %s)' % ' '.join('v%d' % v for v in m)


def _sm(n):
    n = int(n)
    return '(- %d)' % -n if n < 0 else str(n)


def term(p):
    ts = []
    for m, c in sorted(p.items()):
        if not m:
            ts.append(num(c))
        elif c == 1:
            ts.append(mono(m))
        elif c == -1:
            ts.append('(- %s)' % mono(m))
        else:
            ts.append('(* %s %s)' % (num(c), ' '.join('v%d' % v for v in m)))
    if not ts:
        return '0.0'
    if len(ts) == 1:
        return ts[0]
    return '(+ %s)' % ' '.join(ts)


def fml(f, c=None):
    if f is True:
        return 'true'
    if f is False:
        return 'false'
    if f[0] == 'a':
        _, q, op, t = f
        if op == '!=':
            g = c.rgrid(q) if c is not None else None
            if g is not None:
                s = term(q)
                return '(or (<= %s %s) (>= %s %s))' % (s, num(t - g), s, num(t + g))
            return '(not (= %s %s))' % (term(q), num(t))
        return '(%s %s %s)' % ('=' if op == '==' else op, term(q), num(t))
    return '(%s %s)' % (f[0], ' '.join(fml(x, c) for x in f[1]))


def f_degree(f):
    if f is True or f is False:
        return 0
    if f[0] == 'a':
        return P.degree(f[1])
    return max(f_degree(x) for x in f[1])


class Inc(object):
    """incremental solver for the linear part of one path condition"""

    def __init__(self, c):
        self.c = c
        self.s = z3.SimpleSolver()
        self.vars = {}
        self.npc = 0
        self.ntrig = 0
        self.complete = True          # nothing nonlinear was left out

    def var(self, v):
        x = self.vars.get(v)
        if x is None:
            x = self.vars[v] = z3.Real('v%d' % v)
            vv = self.c.vars[v]
            if vv.lo is not None:
                self.s.add(x >= q_(vv.lo), x <= q_(vv.hi))
            for d in vv.defs:
                self.put(d)
        return x

    def expr(self, p):
        t = [q_(k) if not m else self.var(m[0]) if k == 1 else q_(k) * self.var(m[0]) for m, k in p.items()]
        return t[0] if len(t) == 1 else z3.Sum(t)

    def fml(self, f):
        if f is True or f is False:
            return z3.BoolVal(f)
        if f[0] == 'a':
            _, q, op, t = f
            e, r = self.expr(q), q_(t)
            if op == '<=':
                return e <= r
            if op == '<':
                return e < r
            if op == '>=':
                return e >= r
            if op == '>':
                return e > r
            if op == '==':
                return e == r
            g = self.c.rgrid(q)
            if g is not None:
                return z3.Or(e <= q_(t - g), e >= q_(t + g))
            return e != r
        a = [self.fml(x) for x in f[1]]
        return z3.And(*a) if f[0] == 'and' else z3.Or(*a)

    def put(self, f):
        if f_degree(f) > 1:
            self.complete = False
            vs = set()
            core.f_vars(f, vs)
            for v in vs:
                self.var(v)
        else:
            self.s.add(self.fml(f))

    def sync(self):
        pc = self.c.pc
        while self.npc < len(pc):
            f = pc[self.npc]
            self.npc += 1
            self.put(f)
        while self.ntrig < len(self.c.trig):
            tv, facts = self.c.trig[self.ntrig]
            self.ntrig += 1
            for f in facts:
                self.put(f)

    def ask(self, fs, ms, want_model):
        """unsat | sat (of the linear part) | unknown, model"""
        self.sync()
        for f in fs:                  # declares the variables outside of the scope
            vs = set()
            core.f_vars(f, vs)
            for v in vs:
                self.var(v)
        self.s.push()
        try:
            self.s.set('timeout', int(ms))
            for f in fs:
                self.s.add(self.fml(f))
            r = str(self.s.check())
            m = None
            if r == 'sat' and want_model:
                mm = self.s.model()
                m = {}
                for _, v in self.c.inputs:      # only these are asked for
                    x = self.vars.get(v)
                    if x is None:
                        continue
                    y = mm[x]
                    if y is not None and z3.is_rational_value(y):
                        m[v] = Fraction(y.numerator_as_long(), y.denominator_as_long())
            return r, m
        except z3.Z3Exception:
            return 'unknown', None
        finally:
            self.s.pop()


_Q = {}


def q_(c):
    r = _Q.get(c)
    if r is None:
        c = Fraction(c)
        r = z3.RealVal(str(c.numerator) if c.denominator == 1 else '%d/%d' % (c.numerator, c.denominator))
        if len(_Q) < 200000:
            _Q[c] = r
    return r


class Solver(object):
    def __init__(self, feas_ms=1500, check_ms=20000, stats=None, dump=None):
        self.feas_ms = feas_ms
        self.check_ms = check_ms
        self.stats = stats if stats is not None else {}
        self.dump = dump

    def bump(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def collect(self, c, fs, slice_=True, light=False):
        """path condition + definitions relevant for fs"""
        pcs = []
        for f in c.pc:
            vs = set()
            core.f_vars(f, vs)
            pcs.append((f, vs))
        need = set()
        for f in fs:
            core.f_vars(f, need)
        out = list(fs)
        used = [False] * len(pcs)
        done = set()
        changed = True
        if not slice_:
            for f, vs in pcs:
                need |= vs
        tused = [False] * len(c.trig)
        while changed:
            changed = False
            for v in list(need):
                if v in done:
                    continue
                done.add(v)
                changed = True
                for d in c.vars[v].defs if light else c.vars[v].defs + c.heavy.get(v, []):
                    if light and f_degree(d) > 1:
                        continue
                    out.append(d)
                    core.f_vars(d, need)
            for i, (f, vs) in enumerate(pcs):
                if not used[i] and (vs & need):
                    used[i] = True
                    out.append(f)
                    need |= vs
                    changed = True
            # facts about pairs of angles
            for i, (tv, facts) in enumerate(c.trig):
                if not tused[i] and tv <= need:
                    tused[i] = True
                    changed = True
                    for f in facts:
                        out.append(f)
                        core.f_vars(f, need)
        return out, need

    def text(self, c, fs, vs, logic=None):
        L = []
        for v in sorted(vs):
            L.append('(declare-const v%d Real)' % v)
        for v in sorted(vs):
            vv = c.vars[v]
            if vv.lo is not None:
                L.append('(assert (>= v%d %s))' % (v, num(vv.lo)))
                L.append('(assert (<= v%d %s))' % (v, num(vv.hi)))
        for f in fs:
            L.append('(assert %s)' % fml(f, c))
        return '\n'.join(L) + '\n'

    def check(self, c, extra, want_model=False, kind='feas', slice_=True, ms=None):
        """is pc /\\ extra satisfiable?  returns (sat|unsat|unknown, model)"""
        if any(f is False for f in extra):
            return 'unsat', None
        goal = [f for f in extra if f is not True]
        if kind == 'feas' and goal and max(f_degree(f) for f in goal) <= 1:
            inc = getattr(c, 'inc', None)
            if inc is None:
                inc = c.inc = Inc(c)
            t0 = time.time()
            r, m = inc.ask(goal, self.feas_ms, want_model)
            self.stats['solver_s'] = self.stats.get('solver_s', 0.0) + time.time() - t0
            self.bump('queries')
            self.bump('queries_inc')
            if r == 'unsat' or (r == 'sat' and inc.complete and not c.heavy):
                self.bump(r + '_feas')
                return r, m
        fs, vs = self.collect(c, goal, slice_ and bool(extra))
        if not fs:
            return 'sat', {}
        if kind == 'check' and extra and max(f_degree(f) for f in goal or fs) <= 1:
            # a linear goal: try without the nonlinear definitions and conditions first
            lf, lv = self.collect(c, goal, True, light=True)
            lf = [f for f in lf if f_degree(f) <= 1]
            if len(lf) < len(fs):
                t0 = time.time()
                lv = set()
                for f in lf:
                    core.f_vars(f, lv)
                r, _ = self.run(self.text(c, lf, lv), lv, 1, min(ms or self.check_ms, 5000), False)
                self.bump('queries')
                self.bump('queries_light')
                self.stats['solver_s'] = self.stats.get('solver_s', 0.0) + time.time() - t0
                if r == 'unsat':
                    self.bump('unsat_check')
                    return 'unsat', None
        deg = max(f_degree(f) for f in fs)
        text = self.text(c, fs, vs)
        t0 = time.time()
        if ms is None:
            ms = self.feas_ms if kind == 'feas' else self.check_ms
        self.bump('queries')
        self.bump('queries_' + kind)
        r, m = self.run(text, vs, deg, ms, want_model)
        dt = time.time() - t0
        self.stats['solver_s'] = self.stats.get('solver_s', 0.0) + dt
        self.stats['solver_max_s'] = max(self.stats.get('solver_max_s', 0.0), dt)
        self.bump(r + '_' + kind)
        if self.dump and (r == 'unknown' or dt > 2):
            open('%s/%s_%s_%d.smt2' % (self.dump, kind, r, int(t0 * 1000)), 'w').write(text + '(check-sat)\n')
        return r, m

    def run(self, text, vs, deg, ms, want_model):
        if deg <= 1:
            order = [('QF_LRA', ms)]
        else:
            order = [('nlsat', ms // 2 if ms > 4000 else ms), ('smt', ms // 2 if ms > 4000 else 0)]
        for which, t in order:
            if t <= 0:
                continue
            if which == 'nlsat':
                s = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'elim-uncnstr',
                            'simplify', 'qfnra-nlsat').solver()
            elif which == 'smt':
                s = z3.SimpleSolver()
            else:
                s = z3.SolverFor('QF_LRA')
            s.set('timeout', int(t))
            try:
                s.from_string(text)
                r = str(s.check())
            except z3.Z3Exception:
                r = 'unknown'
            if r == 'unsat':
                return 'unsat', None
            if r == 'sat':
                if not want_model:
                    return 'sat', None
                try:
                    return 'sat', self.model(s.model(), vs)
                except z3.Z3Exception:
                    return 'sat', None
        return 'unknown', None

    def grid_model(self, c, extra, ms=6000):
        """like check, but with the inputs restricted to their binary grids"""
        fs, vs = self.collect(c, extra, False)
        for _, vid in c.inputs:
            vs.add(vid)
        L = []
        for v in sorted(vs):
            vv = c.vars[v]
            if vv.kind == 'in' and vv.grid is not None:
                s = 2 ** vv.grid
                L.append('(declare-const k%d Int)' % v)
                L.append('(assert (and (<= %d k%d) (<= k%d %d)))'.replace('%d', '{}').format(
                    _sm(-((-vv.lo * s) // 1)), v, v, _sm((vv.hi * s) // 1)))
                L.append('(define-fun v%d () Real (/ (to_real k%d) %d.0))' % (v, v, s))
            else:
                L.append('(declare-const v%d Real)' % v)
                if vv.lo is not None:
                    L.append('(assert (>= v%d %s))' % (v, num(vv.lo)))
                    L.append('(assert (<= v%d %s))' % (v, num(vv.hi)))
        for f in fs:
            L.append('(assert %s)' % fml(f, c))
        text = '\n'.join(L) + '\n'
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', ms)
        try:
            s.from_string(text)
            r = str(s.check())
        except z3.Z3Exception:
            r = 'unknown'
        self.bump('queries')
        self.bump('queries_grid')
        self.stats['solver_s'] = self.stats.get('solver_s', 0.0) + time.time() - t0
        if r == 'unsat':
            return 'unsat'
        if r == 'sat':
            m = s.model()
            out = {}
            for d in m.decls():
                n = d.name()
                if n[0] == 'k' and n[1:].isdigit():
                    v = int(n[1:])
                    out[v] = Fraction(m[d].as_long(), 2 ** c.vars[v].grid)
            for _, vid in c.inputs:
                out.setdefault(vid, core.default_in(c.vars[vid]))
            return out
        return None

    def model(self, m, vs):
        out = {}
        for d in m.decls():
            n = d.name()
            if n[0] == 'v' and n[1:].isdigit():
                x = m[d]
                if z3.is_algebraic_value(x):
                    x = x.approx(20)
                if z3.is_rational_value(x):
                    out[int(n[1:])] = Fraction(x.numerator_as_long(), x.denominator_as_long())
        return out
