# -*- coding: utf-8 -*-
"""Symbolic values for executing the real code on all inputs at once.

Values
  SymReal   a float of the program under test.  Its value is a polynomial over
            input variables, auxiliary variables (quotients, roots, roundings)
            and bounded rounding-noise variables.  +,-,* are the IEEE operation:
            the engine proves from the magnitude and the binary grid of the
            exact result that no rounding happens, otherwise a noise variable
            bounded by half an ulp of the magnitude is added.
  SymExt    lazy max / min / abs of SymReals.
  SymBool   a formula; taking its truth value forks the path.
  Ex        exact real arithmetic, used only by the oracles.
"""
import math
import random as _random
from fractions import Fraction

from . import poly as P

F0 = Fraction(0)
U53 = Fraction(1, 2 ** 53)
BIG = 2 ** 53


class Steer(BaseException):
    """base of the exceptions that steer the exploration"""


class PathInfeasible(Steer):
    pass


class PathAssume(Steer):
    """an assumption of the harness is false on this path"""


class BudgetExceeded(Steer):
    pass


class Unsupported(Steer):
    pass


CTX = None


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# --------------------------------------------------------------------------
# formulas: True/False, ('a', qpoly, op, t), ('and', [...]), ('or', [...])
# atoms mean  q op t  with q primitive (no constant, leading coefficient 1)
# --------------------------------------------------------------------------
NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}
FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}


def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    k = f[0]
    if k == 'a':
        if CTX is not None:
            return CTX.snap(f[1], NEG[f[2]], f[3])
        return ('a', f[1], NEG[f[2]], f[3])
    if k == 'and':
        return ('or', [f_not(x) for x in f[1]])
    return ('and', [f_not(x) for x in f[1]])


def f_and(fs):
    out = []
    for f in fs:
        if f is True:
            continue
        if f is False:
            return False
        if f[0] == 'and':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', out)


def f_or(fs):
    out = []
    for f in fs:
        if f is False:
            continue
        if f is True:
            return True
        if f[0] == 'or':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ('or', out)


def f_vars(f, acc):
    if f is True or f is False:
        return
    if f[0] == 'a':
        for m in f[1]:
            acc.update(m)
    else:
        for x in f[1]:
            f_vars(x, acc)


def monic(p):
    k = p[P.lead(p)]
    return p if k == 1 else P.scale(p, Fraction(1) / k)


def cmpc(a, op, b):
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    if op == '>':
        return a > b
    if op == '>=':
        return a >= b
    if op == '==':
        return a == b
    return a != b


class Var(object):
    __slots__ = ('id', 'name', 'lo', 'hi', 'grid', 'kind', 'ev', 'defs', 'rad', 'info', 'm', 'noisy')

    def __init__(self, id, name, lo, hi, grid, kind, ev=None):
        self.id = id
        self.name = name
        self.lo = lo
        self.hi = hi
        self.grid = grid      # value is a multiple of 2**-grid, or None
        self.kind = kind      # in / noise / aux / sqrt
        self.ev = ev
        self.defs = []
        self.rad = None
        self.info = None
        self.noisy = kind == 'noise'
        self.m = float(max(abs(lo), abs(hi))) * (1 + 1e-15)     # magnitude, rounded up


def frac(x):
    if isinstance(x, (int, Fraction)):
        return x
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('non-finite float')
    f = Fraction(x)
    return f.numerator if f.denominator == 1 else f


def ipow(lo, hi, n):
    if n % 2 == 1 or lo >= 0:
        return lo ** n, hi ** n
    if hi <= 0:
        return hi ** n, lo ** n
    return 0, max(lo ** n, hi ** n)


def imul(a, b, c, d):
    x = (a * c, a * d, b * c, b * d)
    return min(x), max(x)


class Ctx(object):
    """one symbolic path"""

    def __init__(self, prefix=(), solver=None, seed=0, nsamples=48, deadline=None, stats=None, max_decisions=4000):
        self.vars = []
        self.prefix = list(prefix)
        self.trace = []           # decisions taken: (bool, forced)
        self.alts = []            # prefixes of the unexplored siblings
        self.pc = []              # formulas assumed (not implied ones)
        self.bounds = {}          # qkey -> [lo, lostrict, hi, histrict, excluded]
        self.sub = {}             # var -> poly
        self.memo = {}
        self.relnoise = set()     # noise that only matters relative to a small denominator
        self.factors = {}         # linear factors that were multiplied on the path
        self.r8 = set()
        self.sharp = set()        # noise variables with bounds learned on the path
        self.solver = solver
        self.rng = _random.Random(seed)
        self.samples = [{} for _ in range(nsamples)]
        self.deadline = deadline
        self.stats = stats if stats is not None else {}
        self.max_decisions = max_decisions
        self.concretized = 0
        self.inputs = []          # ordered inputs: (name, var id)
        self.sel = {}             # named choices
        self.trig = []
        self.heavy = {}           # var -> facts only used when the light ones do not suffice
        self.asserted_trig = set()
        self.notes = []

    # ---------------------------------------------------------------- vars
    def new_var(self, name, lo, hi, grid, kind, ev=None):
        v = Var(len(self.vars), name, lo, hi, grid, kind, ev)
        self.vars.append(v)
        return v

    def noise(self, key, bound):
        n = self.memo.get(key)
        if n is None:
            v = self.new_var('e', -bound, bound, None, 'noise', lambda s: 0.0)
            n = v.id
            self.memo[key] = n
        return n

    def sval(self, s, vid):
        x = s.get(vid)
        if x is None:
            x = self.vars[vid].ev(s)
            s[vid] = x
        return x

    def peval(self, p, s):
        t = 0.0
        for m, c in p.items():
            x = float(c)
            for v in m:
                x *= self.sval(s, v)
            t += x
        return t

    # ---------------------------------------------------------- intervals
    def vbound(self, vid, path=True):
        v = self.vars[vid]
        lo, hi = v.lo, v.hi
        if path:
            b = self.bounds.get((((vid,), 1),))
            if b is not None:
                if b[0] is not None and b[0] > lo:
                    lo = b[0]
                if b[2] is not None and b[2] < hi:
                    hi = b[2]
        return lo, hi

    def interval(self, p, path=True):
        lo = hi = 0
        nf = 0.0
        vs = self.vars
        sharp = self.sharp if path else ()
        for m, c in p.items():
            if not m:
                lo += c
                hi += c
                continue
            for v in m:
                if vs[v].noisy and v not in sharp:
                    break
            else:
                v = -1
            if v >= 0:
                # rounding noise: magnitudes in floats, rounded up below
                x = abs(float(c))
                for v in m:
                    x *= vs[v].m
                nf += x
                continue
            if len(m) == 1:
                a, b = self.vbound(m[0], path)
            else:
                a = b = 1
                i = 0
                n = len(m)
                while i < n:
                    j = i
                    while j < n and m[j] == m[i]:
                        j += 1
                    x, y = self.vbound(m[i], path)
                    x, y = ipow(x, y, j - i)
                    a, b = imul(a, b, x, y)
                    i = j
            if c >= 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        if nf:
            nf = Fraction(nf * (1 + 1e-9))
            return lo - nf, hi + nf
        return lo, hi

    def mag(self, p):
        lo, hi = self.interval(p, path=False)
        return max(abs(lo), abs(hi))

    def fgrid(self, p):
        """smallest q with p in 2**-q * Z (None if not on a binary grid)"""
        q = 0
        for m, c in p.items():
            if type(c) is Fraction:
                d = c.denominator
                if d & (d - 1):
                    return None
                g = d.bit_length() - 1
            else:
                c = abs(c)
                g = -((c & -c).bit_length() - 1) if c else 0
                g = max(g, 0) if not m else g
            for v in m:
                vg = self.vars[v].grid
                if vg is None:
                    return None
                g += vg
            if g > q:
                q = g
        return q

    def rgrid(self, q):
        """rational grid of a polynomial without constant: g with q in g*Z"""
        num = None
        for m, c in q.items():
            e = 0
            for v in m:
                vg = self.vars[v].grid
                if vg is None:
                    return None
                e += vg
            f = abs(Fraction(c)) / (2 ** e)
            if num is None:
                num = f
            else:
                num = Fraction(math.gcd(num.numerator * f.denominator, f.numerator * num.denominator),
                               num.denominator * f.denominator)
        return num

    def has_noise(self, p):
        vs = self.vars
        for m in p:
            for v in m:
                if vs[v].kind == 'noise':
                    return True
        return False

    def split_noise(self, p):
        e, n = {}, {}
        vs = self.vars
        for m, c in p.items():
            if any(vs[v].kind == 'noise' for v in m):
                n[m] = c
            else:
                e[m] = c
        return e, n

    # ------------------------------------------------------------- floats
    def fl(self, p, key):
        """the float nearest to the exact value p"""
        if not p:
            return 0.0
        if P.is_const(p):
            return float(p[()])
        q = self.fgrid(p)
        M = self.mag(p)
        if q is not None and M * (2 ** q) <= BIG:
            return SymReal(p)
        k = ('fl', key)
        n = self.noise(k, M * U53)
        return SymReal(P.add(p, {(n,): 1}))

    def lift(self, x):
        t = type(x)
        if t is SymReal:
            return P.subst(x.p, self.sub) if self.sub else x.p
        if t is float or t is int or t is bool:
            return P.const(frac(x))
        if isinstance(x, (int, float)):
            return P.const(frac(x))
        if t is Ex:
            return x.p
        if t is Fraction:
            return P.const(x)
        return None

    def add(self, a, b):
        if type(a) is SymExt or type(b) is SymExt:
            return ext_add(a, b)
        pa, pb = self.lift(a), self.lift(b)
        r = P.add(pa, pb)
        ka, kb = P.key(pa), P.key(pb)
        # normalise the operand order (a+b == b+a) and the sign (-(a+b) == (-a)+(-b))
        na, nb = P.key(P.neg(pa)), P.key(P.neg(pb))
        k1 = (ka, kb) if ka <= kb else (kb, ka)
        k2 = (na, nb) if na <= nb else (nb, na)
        if k1 <= k2:
            return self.fl(r, ('+', k1))
        v = self.fl(P.neg(r), ('+', k2))
        return -v

    def mul(self, a, b):
        if type(a) is SymExt or type(b) is SymExt:
            return ext_mul(a, b)
        pa, pb = self.lift(a), self.lift(b)
        if not pa or not pb:
            return 0.0
        for x, y in ((pa, pb), (pb, pa)):
            if P.is_const(x):
                c = x[()]
                if abs(c) == 1 or is_pow2(c):
                    return mk(P.scale(y, c))
                r = P.scale(y, c)
                s = 1
                if r[P.lead(r)] < 0:
                    s = -1
                    r = P.neg(r)
                v = self.fl(r, ('*c', abs(c), P.key(r)))
                return -v if s < 0 else v
        sa = 1
        if pa[P.lead(pa)] < 0:
            sa = -sa
            pa = P.neg(pa)
        if pb[P.lead(pb)] < 0:
            sa = -sa
            pb = P.neg(pb)
        ka, kb = P.key(pa), P.key(pb)
        k = ('*', ka, kb) if ka <= kb else ('*', kb, ka)
        r = self.mulp(pa, pb, k)
        return mk(r) if sa > 0 else mk(P.neg(r))

    def mulp(self, pa, pb, k):
        if self.has_noise(pa) or self.has_noise(pb):
            ea, na = self.split_noise(pa)
            eb, nb = self.split_noise(pb)
            r = P.mul(ea, eb)
            Mna, Mnb = self.mag(na), self.mag(nb)
            extra = self.mag(ea) * Mnb + self.mag(eb) * Mna + Mna * Mnb
        else:
            r = P.mul(pa, pb)
            extra = 0
            ea, eb = pa, pb
        for x in (ea, eb):
            if not P.is_const(x) and P.degree(x) == 1:
                x = monic(x)
                self.factors[P.key(x)] = x
        r, e2 = self.reduce_sqrt(r)
        extra += e2
        if P.is_const(r) and not extra:
            return P.const(Fraction(float(r.get((), 0))))
        q = self.fgrid(r)
        M = self.mag(r) + extra
        if extra == 0 and q is not None and M * (2 ** q) <= BIG:
            return r
        n = self.noise(('n',) + k, M * U53 + extra)
        return P.add(r, {(n,): 1})

    def reduce_sqrt(self, p):
        """rewrite s*s -> radicand for root variables; returns poly, error bound"""
        err = 0
        again = True
        while again:
            again = False
            for m in p:
                for i in range(len(m) - 1):
                    if m[i] == m[i + 1] and self.vars[m[i]].rad is not None:
                        again = True
                        c = p[m]
                        rest = m[:i] + m[i + 2:]
                        rad, rel = self.vars[m[i]].rad
                        t = P.mul({rest: c}, rad)
                        err += self.mag({rest: abs(c)}) * rel
                        p = dict(p)
                        del p[m]
                        p = P.add(p, t)
                        break
                if again:
                    break
        if err:
            # radicands may themselves carry noise variables inside products
            e, n = {}, {}
            for m, c in p.items():
                if len(m) > 1 and any(self.vars[v].kind == 'noise' for v in m):
                    n[m] = c
                else:
                    e[m] = c
            if n:
                err += self.mag(n)
                p = e
        return p, err

    def div(self, a, b):
        if type(b) is SymExt:
            b = b.resolve()
        if type(a) is SymExt:
            if type(b) in (int, float) and b != 0:
                return a.map(lambda o: self.div(o, b), b < 0)
            a = a.resolve()
        pa, pb = self.lift(a), self.lift(b)
        if P.is_const(pb):
            c = P.const_val(pb)
            if c == 0:
                raise ZeroDivisionError('float division by zero')
            if P.is_const(pa):
                return float(P.const_val(pa)) / float(c)
            if is_pow2(c):
                return mk(P.scale(pa, Fraction(1) / c))
            r = P.scale(pa, Fraction(1) / c)
            return self.fl(r, ('/c', c, P.key(pa)))
        if self.decide(self.atom(pb, '==')):
            raise ZeroDivisionError('float division by zero')
        if not pa:
            return 0.0
        if pa == pb:
            return 1.0
        if not self.has_noise(pa) and not self.has_noise(pb):
            q = P.exact_div(pa, pb)
            if q is not None:
                return self.fl(q, ('/x', P.key(q)))
        else:
            r = self.noisy_div(pa, pb)
            if r is not None:
                return r
        # normalise sign of the denominator on this path
        pos = self.decide(self.atom(pb, '>'))
        if not pos:
            pa, pb = P.neg(pa), P.neg(pb)
        k = ('/', P.key(pa), P.key(pb))
        w = self.memo.get(k)
        if w is None:
            Ma = self.mag(pa)
            qlo = self.denom_min(pb)
            M = Ma / qlo
            v = self.new_var('q', -M, M, None, 'aux',
                             lambda s, pa=pa, pb=pb: sdiv(self.peval(pa, s), self.peval(pb, s)))
            ea = Ma * U53 * 2
            v.info = ('div', pa, pb, M, ea, 0)
            self.fracdefs(v, pa, pb, ea, 0)
            w = v.id
            self.memo[k] = w
        return SymReal({(w,): 1})

    def noisy_div(self, pa, pb):
        """a quotient that is a polynomial up to rounding noise, where that noise stays far below a rounding to
        8 decimals"""
        eb, nb = self.split_noise(pb)
        ea, na = self.split_noise(pa)
        if not eb or not ea:
            return None
        lo, hi = self.interval(pb)
        least = lo if lo > 0 else -hi if hi < 0 else 0
        if not least:
            return None
        mnb = self.mag(nb) if nb else 0
        if P.is_const(eb):
            c = P.const_val(eb)
            q = P.scale(pa, Fraction(1) / c)
            M = self.mag(q)
            err = M * mnb / least
        else:
            q = P.exact_div(ea, eb)
            if q is None:
                return None
            M = self.mag(q)
            err = ((self.mag(na) if na else 0) + M * mnb) / least
        err += (M + err) * U53 * 2
        if err > Fraction(1, 10 ** 11):
            return None
        return mk(P.add(q, {(self.noise(('/n', P.key(pa), P.key(pb)), err),): 1}))

    def fracdefs(self, v, pa, pb, ea, rb):
        # |w*b - a| <= ea + rb*b   (b > 0; w = fl(a/b), the error is relative to a; rb: rounding to decimals)
        d = P.sub(P.mul({(v.id,): 1}, pb), pa)
        u = P.add(P.const(ea), P.scale(pb, rb)) if rb else P.const(ea)
        v.defs.append(rawle(P.sub(d, u)))
        v.defs.append(rawle(P.neg(P.add(d, u))))

    def denom_min(self, pb):
        lo, hi = self.interval(pb)
        if lo > 0:
            return lo
        if len(pb) == 1:
            (m, c), = pb.items()
            if len(m) == 1 and self.vars[m[0]].rad is not None and c > 0:
                rad, rel = self.vars[m[0]].rad
                lo = self.denom_min(rad) - rel
                if lo > 0:
                    return c * lo / sqrt_up(lo)
        q, k, c = P.primitive(pb)
        g = self.rgrid(q)
        if g is not None:
            # pb = k*q + c  with q in g*Z ; smallest positive value
            g = abs(k) * g
            c0 = Fraction(c) % g
            return c0 if c0 > 0 else g
        return Fraction(1, 10 ** 12)

    def round8(self, x):
        if type(x) is SymExt:
            return x.map(self.round8, False)
        p = self.lift(x)
        if P.is_const(p):
            return round(float(P.const_val(p)), 8)
        q = self.fgrid(p)
        if q is not None and q <= 8 and self.mag(p) < 2 ** 40:
            return SymReal(p)
        k = P.key(p)
        if k in self.r8:
            return SymReal(p)
        kn = P.key(P.neg(p))
        s = 1
        if kn < k:
            p, k, s = P.neg(p), kn, -1
        r = self.memo.get(('r8', k))
        if r is None:
            M = self.mag(p)
            eps = Fraction(1, 2 * 10 ** 8) + M * U53 * 2
            r = None
            if len(p) == 1:
                (m, c), = p.items()
                if c == 1 and len(m) == 1 and self.vars[m[0]].info and self.vars[m[0]].info[0] == 'div':
                    _, pa, pb, M, ea, rb = self.vars[m[0]].info
                    ev = self.vars[m[0]].ev
                    v = self.new_var('r', -M - 1, M + 1, None, 'aux', lambda s_, ev=ev: round(ev(s_), 8))
                    rb = rb + eps
                    self.fracdefs(v, pa, pb, ea, rb)
                    v.info = ('div', pa, pb, M + 1, ea, rb)
                    r = {(v.id,): 1}
            if r is None:
                r = self.decimal8(p, M)
            if r is None:
                n = self.noise(('r8n', k), eps)
                r = P.add(p, {(n,): 1})
            self.memo[('r8', k)] = r
            self.r8.add(P.key(r))
            self.r8.add(P.key(P.neg(r)))
        return mk(r) if s > 0 else mk(P.neg(r))

    def decimal8(self, p, M):
        """p rounded to 8 decimals when p is a number with 8 decimals up to rounding noise: that number, as the
        nearest float"""
        d, off = {}, 0
        for m, c in p.items():
            g = 0
            noisy = False
            b = 1
            for v in m:
                w = self.vars[v]
                if w.kind == 'noise':
                    noisy = True
                elif w.kind != 'in' or w.grid is None:
                    return None
                else:
                    g += w.grid
                b *= max(abs(w.lo), abs(w.hi))
            if noisy:
                off += abs(c) * b
                continue
            u = Fraction(2 ** g, 10 ** 8)
            k = round(Fraction(c) / u)
            if k:
                d[m] = k * u
            off += abs(c - k * u) * b
        if not d or off + M * U53 * 4 >= Fraction(5, 10 ** 9):
            return None
        q = self.fgrid(d)
        if q is not None and q <= 8 and self.mag(d) < 2 ** 40:
            return d
        return P.add(d, {(self.noise(('r8d', P.key(d)), self.mag(d) * U53),): 1})

    def sqrt(self, x):
        if type(x) is SymExt:
            return x.map(self.sqrt, False)
        p = self.lift(x)
        if P.is_const(p):
            return math.sqrt(float(P.const_val(p)))
        lo, hi = self.interval(p)
        if lo < 0:
            e, n = self.split_noise(p)
            if not sum_of_squares(e) or n:
                if self.decide(self.atom(p, '<')):
                    raise ValueError('math domain error')
        e, n = self.split_noise(p)
        if not n:
            l = lin_sqrt(p)
            if l is not None:
                return sabs(mk(l))
        # sqrt(4**k * r) == 2**k * sqrt(r), exact in binary
        lo2 = min(val2(co) for co in p.values())
        if lo2 // 2 > 0:
            f = 2 ** (lo2 // 2)
            return self.mul(self.sqrt(mk(P.scale(p, Fraction(1, f * f)))), float(f))
        k = ('sqrt', P.key(p))
        s = self.memo.get(k)
        if s is None:
            M = self.mag(p)
            hi = sqrt_up(M)
            v = self.new_var('s', 0, hi, None, 'sqrt', lambda sm, p=p: math.sqrt(max(0.0, self.peval(p, sm))))
            rel = M * U53 * 4
            v.rad = (p, rel)
            d = P.sub({(v.id, v.id): 1}, p)
            v.defs.append(rawle(P.sub(d, P.const(rel))))
            v.defs.append(rawle(P.sub(P.neg(d), P.const(rel))))
            s = v.id
            self.memo[k] = s
        return SymReal({(s,): 1})

    # ------------------------------------------------------------ compare
    def atom(self, p, op):
        """formula for  p op 0"""
        if self.sub:
            p = P.subst(p, self.sub)
        if P.is_const(p):
            return cmpc(P.const_val(p), op, 0)
        r = self.sqrt_cmp(p, op)
        if r is not None:
            return r
        if len(p) == 1:
            # sign of a quotient: that of its numerator (the denominator is positive on this path)
            (m, c), = p.items()
            if len(m) == 1:
                info = self.vars[m[0]].info
                if info is not None and info[0] == 'div' and not info[5]:
                    return self.atom(P.scale(info[1], 1 if c > 0 else -1), op)
        p = self.clear(p)
        p, err = self.reduce_sqrt(p)
        if err:
            p = P.add(p, {(self.noise(('rsq', P.key(p)), err),): 1})
        if P.is_const(p):
            return cmpc(P.const_val(p), op, 0)
        if P.degree(p) > 1:
            p1 = self.fold_all(p)
            p2, neg = self.divide_out(p1)
            f = self.gridatom(p2, FLIP[op] if neg else op)
            if f is not None:
                return f
            if p1 is p or not self.split_noise(p2)[1]:
                p = p2
                if neg:
                    op = FLIP[op]
        else:
            f = self.gridatom(p, op)
            if f is not None:
                return f
        q, k, c = P.primitive(p)
        t = P.norm(Fraction(-c) / k)
        if k < 0:
            op = FLIP[op]
        return self.mkatom(q, op, t)

    def gridatom(self, p, op):
        """p op 0 where the exact part takes values on a known grid: rounding noise smaller than its step drops out,
        and polynomials in one input become bounds of the input; None where that does not apply"""
        e, n = self.split_noise(p)
        if P.is_const(e):
            return None
        d = P.degree(e)
        if not n and d < 2:
            return None
        if n and any(len(m) > 1 for m in n):
            return None
        M = self.mag(n) if n else 0
        vs = P.vars_of(e)
        if d > 1:
            if len(vs) != 1:
                return None
            return self.uniatom(vs.pop(), e, n, M, op)
        q, k, c = P.primitive(e)
        g = self.rgrid(q)
        if g is None:
            return None
        t, m = Fraction(-c) / k, Fraction(M) / abs(k)
        if k < 0:
            op = FLIP[op]
        # q takes multiples of g; those within m of t are decided by the noise
        first, last = -(-(t - m) // g), (t + m) // g
        if last - first > 1:
            return None
        amb = [P.norm(g * i) for i in range(int(first), int(last) + 1)]
        out = []
        if op in ('<', '<=', '!='):
            out.append(self.mkatom(q, '<', P.norm(g * first)))
        if op in ('>', '>=', '!='):
            out.append(self.mkatom(q, '>', P.norm(g * last)))
        for a in amb:
            x = P.add(P.scale(n, 1 / Fraction(k)) if n else {}, P.const(a - t))
            out.append(f_and([self.mkatom(q, '==', a), self.noiseatom(x, op)]))
        return f_or(out)

    def noiseatom(self, p, op):
        if P.is_const(p):
            return cmpc(P.const_val(p), op, 0)
        q, k, c = P.primitive(p)
        t = P.norm(Fraction(-c) / k)
        return self.mkatom(q, FLIP[op] if k < 0 else op, t)

    def uniatom(self, v, e, n, M, op):
        vv = self.vars[v]
        if vv.kind != 'in' or vv.grid is None or v in self.sub:
            return None
        lo, hi = self.vbound(v)
        s = 2 ** vv.grid
        a, b = -((-Fraction(lo) * s) // 1), (Fraction(hi) * s) // 1
        a, b = int(a), int(b)
        if b < a or b - a > 3000:
            return None
        key = ('uni', P.key(e), P.key(n), op, a, b)
        if key in self.memo:
            return self.memo[key]
        d = P.degree(e)
        co = [Fraction(e.get((v,) * i, 0)) / s ** i for i in range(d + 1)]
        D = 1
        for c in co + [Fraction(M)]:
            D = D * c.denominator // math.gcd(D, c.denominator)
        co = [int(c * D) for c in co]
        m = int(Fraction(M) * D)
        runs = []                 # [state, first, last]; state True / False / None
        for k in range(a, b + 1):
            x = 0
            for c in reversed(co):
                x = x * k + c
            if -m <= x <= m and m:
                st = None
            else:
                st = cmpc(x, op, 0)
            if runs and runs[-1][0] is st and st is not None:
                runs[-1][2] = k
            else:
                runs.append([st, k, k])
        r = None
        if len(runs) <= 9:
            out = []
            X = {(v,): 1}
            for st, i, j in runs:
                if st is False:
                    continue
                lo_, hi_ = P.norm(Fraction(i, s)), P.norm(Fraction(j, s))
                if i == j:
                    f = [self.mkatom(X, '==', lo_)] if a != b else []
                else:
                    f = ([self.mkatom(X, '>=', lo_)] if i > a else []) + ([self.mkatom(X, '<=', hi_)] if j < b else [])
                if st is None:
                    f.append(self.noiseatom(P.add(n, P.const(P.subst(e, {v: P.const(lo_)}).get((), 0))), op))
                out.append(f_and(f))
            r = f_or(out)
        self.memo[key] = r
        return r

    def divide_out(self, p):
        """divide the exact part by linear factors of known sign; returns the polynomial and if the sign was flipped"""
        e, n = self.split_noise(p)
        if n and any(v in self.relnoise for v in P.vars_of(n)):
            return p, False
        neg = False
        vs = P.vars_of(e)
        for f in self.factors.values():
            if P.degree(e) < 2:
                break
            if self.sub:
                f = P.subst(f, self.sub)
                if P.is_const(f) or P.degree(f) != 1:
                    continue
            if not P.vars_of(f) <= vs:
                continue
            while P.degree(e) > 1:
                x = P.exact_div(e, f)
                if x is None:
                    break
                lo, hi = self.interval(f)
                q, k, c = P.primitive(f)
                b = self.bounds.get(P.key(q))
                if b is not None and k == 1:
                    if b[0] is not None:
                        lo = max(lo, b[0] + c)
                    if b[2] is not None:
                        hi = min(hi, b[2] + c)
                if lo > 0:
                    m = lo
                elif hi < 0:
                    m = -hi
                    neg = not neg
                else:
                    break
                e = x
                if n:
                    M = self.mag(n) / m
                    n = {(self.noise(('dv', P.key(n), P.key(f), M), M),): 1}
        return P.add(e, n) if n else e, neg

    def clear(self, p):
        """multiply out quotient variables (w = a/b + e, b > 0 on this path)"""
        vs = self.vars
        ws = [v for v in P.vars_of(p) if vs[v].info is not None and vs[v].info[0] == 'div']
        if not ws:
            return p
        dens = []
        dk = {}
        rep = {}
        for w in ws:
            _, pa, pb, M, ea, rb = vs[w].info
            if self.sub:
                pa, pb = P.subst(pa, self.sub), P.subst(pb, self.sub)
            k = P.key(pb)
            if k not in dk:
                dk[k] = len(dens)
                dens.append(pb)
            e = self.memo.get(('qe', w))
            if e is None:
                e = [self.new_var('e', -ea, ea, None, 'noise', lambda s: 0.0).id,
                     self.new_var('e', -rb, rb, None, 'noise', lambda s: 0.0).id if rb else None]
                self.memo[('qe', w)] = e
            # numerator of w over its denominator
            x = P.add(pa, {(e[0],): 1})
            if e[1] is not None:
                n = self.rounding_of(w, pb, rb)
                if n is None:
                    self.relnoise.add(e[1])
                x = P.add(x, {(n,): 1} if n is not None else P.mul({(e[1],): 1}, pb))
            rep[w] = (dk[k], x)
        if len(dens) > 3:
            return p
        top = [0] * len(dens)
        for m in p:
            cnt = [0] * len(dens)
            for v in m:
                if v in rep:
                    cnt[rep[v][0]] += 1
            top = [max(a, b) for a, b in zip(top, cnt)]
        deg = P.degree(p) + sum(t * P.degree(d) for t, d in zip(top, dens))
        if deg > 10:
            return p
        r = {}
        for m, c in p.items():
            cnt = [0] * len(dens)
            t = {(): c}
            for v in m:
                if v in rep:
                    cnt[rep[v][0]] += 1
                    t = P.mul(t, rep[v][1])
                else:
                    t = P.mul(t, {(v,): 1})
            for i, d in enumerate(dens):
                for _ in range(top[i] - cnt[i]):
                    t = P.mul(t, d)
            r = P.add(r, t)
        # common factors
        for i, d in enumerate(dens):
            for _ in range(top[i]):
                if P.is_const(d):
                    r = P.scale(r, Fraction(1) / d[()]) if d else r
                    continue
                x = P.exact_div(r, d)
                if x is None:
                    break
                r = x
        # products of rounding noise: fold into one variable
        r = self.fold(r, lambda m: sum(1 for v in m if vs[v].kind == 'noise') > 1)
        tight = True
        for d in dens:
            lo, hi = self.interval(d)
            if not (lo > 0 and hi < 1000 * lo or hi < 0 and lo > 1000 * hi):
                tight = False
        if tight:
            r = self.fold_all(r)
        return r

    def fold_all(self, r):
        """rounding noise times a quantity: fold into one variable"""
        vs, keep = self.vars, self.relnoise
        return self.fold(r, lambda m: len(m) > 1 and any(vs[v].kind == 'noise' for v in m) and not any(v in keep for v in m))

    def fold(self, r, prod):
        if any(prod(m) for m in r):
            e2, n2 = {}, {}
            for m, c in r.items():
                if prod(m):
                    n2[m] = c
                else:
                    e2[m] = c
            n = self.noise(('clr', P.key(n2)), self.mag(n2))
            r = P.add(e2, {(n,): 1})
        return r

    def rounding_of(self, w, pb, rb):
        """rounding of the quotient times the denominator as one variable where that is accurate enough to
        keep the query linear"""
        M = self.mag(pb)
        e, n = self.split_noise(pb)
        g = self.fgrid(e)
        if not (g is not None and g < 40 and rb * M * 2 ** g < Fraction(1, 64)):
            lo, hi = self.interval(pb)
            if not (lo > 0 and M < 1000 * lo):
                return None
        return self.noise(('rb', w, P.key(pb)), rb * M)

    def mkatom(self, q, op, t):
        f = self.snap(q, op, t)
        if f is True or f is False:
            return f
        d = self.decided(q, f[2], f[3])
        if d is not None:
            return d
        return f

    def snap(self, q, op, t):
        """atom q op t, tightened to the grid q lies on"""
        g = self.rgrid(q)
        if g is not None:
            if op == '<':
                op, t = '<=', g * (-(-t // g) - 1)
            elif op == '<=':
                t = g * (t // g)
            elif op == '>':
                op, t = '>=', g * (t // g + 1)
            elif op == '>=':
                t = g * (-(-t // g))
            else:
                if Fraction(t) % g != 0:
                    return op == '!='
            t = P.norm(t)
        return ('a', q, op, t)

    def sqrt_cmp(self, p, op):
        """comparisons of roots, rewritten to comparisons of radicands"""
        roots = []
        for m, c in p.items():
            if not m:
                continue
            if len(m) == 1 and self.vars[m[0]].rad is not None:
                roots.append((m[0], c))
            else:
                return None
        c0 = p.get((), 0)
        if len(roots) == 1:
            v, k = roots[0]
            t = Fraction(-c0) / k
            if k < 0:
                op = FLIP[op]
            rad, rel = self.vars[v].rad
            if t < 0:
                return cmpc(0, op, -1)
            q = self.rgrid_const(rad)
            if q is None:
                return None
            g, off = q
            # on the grid: find the largest grid value R with fl(sqrt(R)) < t and with <= t
            lt = grid_root(t, g, off, strict=True)
            le = grid_root(t, g, off, strict=False)
            if op == '<':
                return self.atom(P.sub(rad, P.const(lt)), '<=')
            if op == '<=':
                return self.atom(P.sub(rad, P.const(le)), '<=')
            if op == '>':
                return self.atom(P.sub(rad, P.const(le)), '>')
            if op == '>=':
                return self.atom(P.sub(rad, P.const(lt)), '>')
            lo = self.atom(P.sub(rad, P.const(lt)), '>')
            hi = self.atom(P.sub(rad, P.const(le)), '<=')
            f = f_and([lo, hi])
            return f if op == '==' else f_not(f)
        if len(roots) == 2 and c0 == 0 and roots[0][1] == -roots[1][1]:
            (v1, k1), (v2, k2) = roots
            if k1 < 0:
                v1, v2 = v2, v1
            r1, r2 = self.vars[v1].rad[0], self.vars[v2].rad[0]
            q1, q2 = self.fgrid(r1), self.fgrid(r2)
            if q1 is None or q2 is None or max(self.mag(r1), self.mag(r2)) * 2 ** max(q1, q2) > 2 ** 48:
                # s1 - s2 has the sign of s1*s1 - s2*s2, and these are the radicands up to the rounding of the roots
                d = P.sub(r1, r2)
                if P.is_const(d) and not d.get((), 0):
                    return None
                for v, k in ((v1, 1), (v2, -1)):
                    d = P.add(d, {(self.noise(('rade', v), self.vars[v].rad[1]),): k})
                return self.atom(d, op)
            return self.atom(P.sub(r1, r2), op)
        return None

    def rgrid_const(self, p):
        q, k, c = P.primitive(p)
        g = self.rgrid(q)
        if g is None:
            return None
        return g * abs(k), Fraction(c)

    def decided(self, q, op, t):
        lo, hi = self.interval(q)
        b = self.bounds.get(P.key(q))
        ls = hs = False
        if b is not None:
            if b[0] is not None and b[0] >= lo:
                if b[0] > lo or b[1]:
                    ls = b[1]
                lo = b[0]
            if b[2] is not None and b[2] <= hi:
                if b[2] < hi or b[3]:
                    hs = b[3]
                hi = b[2]
        if op == '<=':
            if hi <= t:
                return True
            if lo > t or (ls and lo >= t):
                return False
        elif op == '<':
            if hi < t or (hs and hi <= t):
                return True
            if lo >= t:
                return False
        elif op == '>=':
            if lo >= t:
                return True
            if hi < t or (hs and hi <= t):
                return False
        elif op == '>':
            if lo > t or (ls and lo >= t):
                return True
            if hi <= t:
                return False
        else:
            r = None
            if lo > t or hi < t or (ls and lo >= t) or (hs and hi <= t):
                r = False
            elif lo == hi == t:
                r = True
            elif b is not None and t in b[4]:
                r = False
            if r is None:
                return None
            return r if op == '==' else (not r)
        return None

    def learn(self, f):
        """record a formula known to hold on this path in the bounds"""
        if f is True or f is False:
            return
        if f[0] == 'and':
            for x in f[1]:
                self.learn(x)
            return
        if f[0] != 'a':
            return
        _, q, op, t = f
        k = P.key(q)
        if len(q) == 1:
            (m, _c), = q.items()
            if len(m) == 1 and self.vars[m[0]].noisy:
                self.sharp.add(m[0])
        b = self.bounds.get(k)
        if b is None:
            b = [None, False, None, False, set()]
            self.bounds[k] = b
        if op in ('>', '>='):
            if b[0] is None or t > b[0]:
                b[0], b[1] = t, op == '>'
            elif t == b[0] and op == '>':
                b[1] = True
        elif op in ('<', '<='):
            if b[2] is None or t < b[2]:
                b[2], b[3] = t, op == '<'
            elif t == b[2] and op == '<':
                b[3] = True
        elif op == '!=':
            b[4].add(t)
            g = self.rgrid(q)
            if g is not None:
                if b[0] is not None and t == b[0]:
                    b[0] = t + g
                if b[2] is not None and t == b[2]:
                    b[2] = t - g
        else:
            b[0] = b[2] = t
            b[1] = b[3] = False
            self.learn_eq(q, t)
        if b[0] is not None and b[0] == b[2] and op != '==':
            self.learn_eq(q, b[0])

    def learn_eq(self, q, t):
        """q == t: use it as a substitution when it is linear in an input variable"""
        p = P.subst(P.sub(q, P.const(t)), self.sub)
        best = None
        for m, c in p.items():
            if len(m) == 1 and self.vars[m[0]].kind == 'in':
                v = m[0]
                if any(v in m2 for m2 in p if m2 != m):
                    continue
                if any(self.vars[w].kind != 'in' for m2 in p for w in m2):
                    continue
                # the substituted expression has to stay on the grid of the variable
                rest = P.scale({m2: c2 for m2, c2 in p.items() if m2 != m}, Fraction(-1) / c)
                gr = self.fgrid(rest)
                if gr is None or gr > self.vars[v].grid:
                    continue
                if P.degree(rest) > 1:
                    continue
                if best is None or v > best[0]:
                    best = (v, rest)
        if best is None:
            return
        v, rest = best
        one = {v: rest}
        for w in list(self.sub):
            self.sub[w] = P.subst(self.sub[w], one)
        self.sub[v] = rest
        # carry the interval of v over
        lo, hi = self.vbound(v)
        if not P.is_const(rest):
            self.learn_bound(rest, lo, hi)

    def learn_bound(self, p, lo, hi):
        for op, t in (('>=', lo), ('<=', hi)):
            f = self.atom(P.sub(p, P.const(t)), op)
            if f is False:
                raise PathInfeasible()
            if f is not True and f[0] == 'a':
                self.pc.append(f)
                k = P.key(f[1])
                b = self.bounds.get(k)
                if b is None:
                    b = [None, False, None, False, set()]
                    self.bounds[k] = b
                if f[2] in ('>', '>='):
                    if b[0] is None or f[3] > b[0]:
                        b[0], b[1] = f[3], f[2] == '>'
                elif f[2] in ('<', '<='):
                    if b[2] is None or f[3] < b[2]:
                        b[2], b[3] = f[3], f[2] == '<'

    # ------------------------------------------------------------- decide
    def simp(self, f):
        """re-simplify a formula against what the path knows now"""
        if f is True or f is False:
            return f
        if f[0] == 'a':
            if self.sub:
                q = P.subst(f[1], self.sub)
                if q is not f[1]:
                    return self.atom(P.sub(q, P.const(f[3])), f[2])
            d = self.decided(f[1], f[2], f[3])
            return f if d is None else d
        fs = [self.simp(x) for x in f[1]]
        return f_and(fs) if f[0] == 'and' else f_or(fs)

    def feval(self, f, s):
        """evaluate on a sample: True / False / None (too close to call)"""
        if f is True or f is False:
            return f
        if f[0] == 'a':
            _, q, op, t = f
            try:
                x = self.peval(q, s) - float(t)
            except (ZeroDivisionError, ValueError, OverflowError):
                return None
            if x != x:
                return None
            tol = 1e-9 * (1.0 + abs(float(t)))
            if self.rgrid(q) is not None:
                tol = tol * 1e-3
                if abs(x) < tol:
                    x = 0.0
                return cmpc(x, op, 0)
            tol = 1e-7 * (1.0 + abs(float(t)))
            if abs(x) < tol:
                return self.feval_exact(q, op, t, s)
            return cmpc(x, op, 0)
        r = []
        for x in f[1]:
            v = self.feval(x, s)
            if f[0] == 'and' and v is False:
                return False
            if f[0] == 'or' and v is True:
                return True
            r.append(v)
        if None in r:
            return None
        return f[0] == 'and'

    def feval_exact(self, q, op, t, s):
        """inputs are exact rationals; undecided only within the bound of the rounding noise"""
        x, e = -Fraction(t), Fraction(0)
        for m, c in q.items():
            y = Fraction(c)
            noisy = False
            for v in m:
                vv = self.vars[v]
                if vv.kind == 'in':
                    y *= Fraction(self.sval(s, v))
                elif vv.kind == 'noise':
                    noisy = True
                    y *= max(abs(Fraction(vv.lo)), abs(Fraction(vv.hi)))
                else:
                    return None
            if noisy:
                e += abs(y)
            else:
                x += y
        if e and abs(x) <= e:
            return None
        return cmpc(x, op, 0)

    def decide(self, f):
        f = self.simp(f)
        if f is True or f is False:
            return f
        if self.deadline is not None and clock() > self.deadline:
            raise BudgetExceeded('time')
        i = len(self.trace)
        if i >= self.max_decisions:
            raise BudgetExceeded('decisions')
        if i < len(self.prefix):
            d, forced = self.prefix[i]
            self.take(f, d, forced)
            return d
        nf = f_not(f)
        st = sf = None
        for s in self.samples:
            v = self.feval(f, s)
            if v is True:
                st = True
            elif v is False:
                sf = True
            if st and sf:
                break
        if st is None:
            st = self.feasible(f)
        if sf is None:
            sf = self.feasible(nf) if st is not False else True
        if st is False and sf is False:
            raise PathInfeasible()
        if st is False:
            self.take(f, False, True)
            return False
        if sf is False:
            self.take(f, True, True)
            return True
        self.alts.append(self.trace + [(False, False)])
        self.stats['forks'] = self.stats.get('forks', 0) + 1
        self.take(f, True, False)
        return True

    def take(self, f, d, forced):
        self.trace.append((d, forced))
        if not d:
            f = f_not(f)
        if not forced:
            self.pc.append(f)
        self.learn(f)
        self.samples = [s for s in self.samples if self.feval(f, s) is not False]

    def feasible(self, f):
        """True / False / None (unknown: explored, not trusted)"""
        r, model = self.solver.check(self, [f], want_model=True, kind='feas')
        if r == 'unsat':
            return False
        if r == 'sat':
            if model is not None:
                s = {}
                base = self.samples[0] if self.samples else {}
                for name, vid in self.inputs:
                    s[vid] = float(model.get(vid, base.get(vid, default_in(self.vars[vid]))))
                ok = True
                for g in self.pc + [f]:
                    try:
                        if self.feval(g, s) is False:
                            ok = False
                            break
                    except Exception:
                        ok = False
                        break
                if ok:
                    self.samples.append(s)
            return True
        self.stats['feas_unknown'] = self.stats.get('feas_unknown', 0) + 1
        return None

    def assume(self, f):
        f = self.simp(f)
        if f is True:
            return
        if f is False:
            raise PathAssume()
        self.pc.append(f)
        self.learn(f)
        self.samples = [s for s in self.samples if self.feval(f, s) is not False]
        if not self.samples and len(self.trace) >= len(self.prefix):
            # only reject when the solver is sure
            r, model = self.solver.check(self, [], want_model=True, kind='feas')
            if r == 'unsat':
                raise PathAssume()
            if r == 'sat' and model is not None:
                s = {vid: float(model.get(vid, default_in(self.vars[vid]))) for _, vid in self.inputs}
                if all(self.feval(g, s) is not False for g in self.pc):
                    self.samples.append(s)

    def grid_model(self, nf):
        """a model of pc /\\ nf on the input grid: sample dict, 'unsat' or None (unknown)"""
        return self.solver.grid_model(self, [nf] if nf is not True else [])

    def concretize(self, x):
        """last resort for values that leave the modelled world: pin the value"""
        p = self.lift(x)
        if P.is_const(p):
            return float(P.const_val(p))
        self.concretized += 1
        self.stats['concretized'] = self.stats.get('concretized', 0) + 1
        if not self.samples:
            r, model = self.solver.check(self, [], want_model=True, kind='feas')
            if r != 'sat':
                raise PathInfeasible()
            s = {vid: float(model.get(vid, default_in(self.vars[vid]))) for _, vid in self.inputs}
        else:
            s = self.samples[0]
        for name, vid in self.inputs:
            self.assume(self.atom(P.sub({(vid,): 1}, P.const(frac(s[vid]))), '=='))
        return self.peval(p, s)


def default_in(v):
    if v.lo <= 0 <= v.hi:
        return 0
    return v.lo


def rawle(p):
    """p <= 0, without simplification"""
    q, k, c = P.primitive(p)
    t = P.norm(Fraction(-c) / k)
    return ('a', q, '<=' if k > 0 else '>=', t)


def is_pow2(c):
    c = abs(Fraction(c))
    n, d = c.numerator, c.denominator
    return n & (n - 1) == 0 and d & (d - 1) == 0


def sdiv(a, b):
    return a / b if b else float('nan')


def val2(c):
    c = Fraction(c)
    n, d = abs(c.numerator), c.denominator
    return (n & -n).bit_length() - (d & -d).bit_length()


def sqrt_up(M):
    M = Fraction(M)
    r = math.isqrt((M.numerator << 40) // M.denominator + 1) + 1
    return Fraction(r, 1 << 20)


def grid_root(t, g, off, strict):
    """largest R in off+g*Z with fl(sqrt(R)) < t (strict) or <= t (R<0 if none)"""
    t = Fraction(t)
    R = t * t
    n = (R - off) // g + 2
    tf = float(t)
    while True:
        v = off + n * g
        if v < 0:
            return v
        s = math.sqrt(float(v))
        if (s < tf) if strict else (s <= tf):
            return v
        n -= 1


def lin_sqrt(p):
    """l with l*l == p, l linear, or None"""
    if P.degree(p) > 2:
        return None
    vs = sorted(P.vars_of(p))
    if not vs:
        return None
    v0 = vs[0]
    c = p.get((v0, v0))
    if c is None or c <= 0:
        return None
    r = frac_sqrt(Fraction(c))
    if r is None:
        return None
    l = {(v0,): r}
    for v in vs[1:]:
        m = tuple(sorted((v0, v)))
        if m in p:
            l[(v,)] = P.norm(Fraction(p[m]) / (2 * r))
    if (v0,) in p:
        l[()] = P.norm(Fraction(p[(v0,)]) / (2 * r))
    if P.mul(l, l) == p:
        return l
    return None


def frac_sqrt(c):
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return P.norm(Fraction(n, d))
    return None


def sum_of_squares(p):
    """cheap test: completes squares greedily"""
    p = dict(p)
    for _ in range(8):
        if not p:
            return True
        if P.is_const(p):
            return P.const_val(p) >= 0
        if P.degree(p) != 2:
            return False
        sq = [m for m in p if len(m) == 2 and m[0] == m[1]]
        if not sq:
            return False
        v = min(sq)[0]
        a = Fraction(p[(v, v)])
        if a <= 0:
            return False
        # p = a (v + L/(2a))^2 + rest
        L = {}
        for m, c in p.items():
            if v in m and m != (v, v):
                mm = list(m)
                mm.remove(v)
                L[tuple(mm)] = c
        l = P.add({(v,): 1}, P.scale(L, Fraction(1) / (2 * a)))
        p = P.sub(p, P.scale(P.mul(l, l), a))
    return not p


import time as _time
clock = _time.time


# --------------------------------------------------------------------------
def mk(p):
    if not p:
        return 0.0
    if len(p) == 1 and () in p:
        return float(p[()])
    return SymReal(p)


def cmpv(a, b, op):
    """formula for a op b on program values"""
    c = CTX
    if type(a) is SymExt:
        return ext_cmp(a, b, op)
    if type(b) is SymExt:
        return ext_cmp(b, a, FLIP[op])
    pa, pb = c.lift(a), c.lift(b)
    if pa is None or pb is None:
        return None
    return c.atom(P.sub(pa, pb), op)


def mkbool(f):
    if f is True or f is False:
        return f
    return SymBool(f)


class SymBool(object):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return CTX.decide(self.f)

    def __repr__(self):
        return '<SymBool>'

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return bool(self) + o

    __radd__ = __add__


def _num(x):
    return isinstance(x, (int, float, SymReal, SymExt))


class SymReal(object):
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return '<sym>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __add__(self, o):
        return CTX.add(self, o) if _num(o) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return CTX.add(self, -o) if _num(o) else NotImplemented

    def __rsub__(self, o):
        return CTX.add(o, -self) if _num(o) else NotImplemented

    def __neg__(self):
        return SymReal(P.neg(self.p))

    def __pos__(self):
        return self

    def __mul__(self, o):
        return CTX.mul(self, o) if _num(o) else NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        return CTX.div(self, o) if _num(o) else NotImplemented

    def __rtruediv__(self, o):
        return CTX.div(o, self) if _num(o) else NotImplemented

    def __pow__(self, n):
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if n == 2:
            return CTX.mul(self, self)
        if n == 1:
            return self
        if n == 0:
            return 1.0
        if n == 0.5:
            return CTX.sqrt(self)
        if isinstance(n, int) and 2 < n < 6:
            r = self
            for _ in range(n - 1):
                r = r * self
            return r
        return CTX.concretize(self) ** n

    def __rpow__(self, o):
        return o ** CTX.concretize(self)

    def __mod__(self, m):
        return smod(self, m)

    def __rmod__(self, o):
        return o % CTX.concretize(self)

    def __floordiv__(self, m):
        return CTX.concretize(self) // m

    def __abs__(self):
        return sabs(self)

    def __round__(self, n=None):
        return sround(self, n)

    def __lt__(self, o):
        return mkcmp(self, o, '<')

    def __le__(self, o):
        return mkcmp(self, o, '<=')

    def __gt__(self, o):
        return mkcmp(self, o, '>')

    def __ge__(self, o):
        return mkcmp(self, o, '>=')

    def __eq__(self, o):
        return mkcmp(self, o, '==')

    def __ne__(self, o):
        return mkcmp(self, o, '!=')

    def __hash__(self):
        raise Unsupported('native hash of a symbolic float')

    def __bool__(self):
        return CTX.decide(CTX.atom(CTX.lift(self), '!='))

    def __float__(self):
        return CTX.concretize(self)

    def __int__(self):
        return int(CTX.concretize(self))

    def is_integer(self):
        return CTX.concretize(self).is_integer()


def mkcmp(a, b, op):
    if not _num(b):
        if b is None or isinstance(b, (str, tuple, list, dict)):
            if op == '==':
                return False
            if op == '!=':
                return True
        return NotImplemented
    if isinstance(b, float) and (b != b or b in (float('inf'), float('-inf'))):
        return cmpc(0.0, op, b)
    f = cmpv(a, b, op)
    return mkbool(f)


def sabs(x):
    if type(x) is SymReal:
        c = CTX
        p = c.lift(x)
        if P.is_const(p):
            return abs(float(P.const_val(p)))
        f = c.atom(p, '>=')
        if f is True:
            return mk(p)
        if c.atom(p, '<=') is True:
            return mk(P.neg(p))
        return SymExt('max', [mk(p), mk(P.neg(p))])
    if type(x) is SymExt:
        if mkcmp(x, 0, '>=') is True:
            return x
        return sabs(x.resolve())
    return abs(x)


def sround(x, n):
    if n is None:
        return int(round(CTX.concretize(x)))
    if n == 8:
        return CTX.round8(x)
    c = CTX
    if type(x) is SymExt:
        return x.map(lambda o: sround(o, n) if type(o) is SymReal else round(o, n), False)
    p = c.lift(x)
    q = c.fgrid(p)
    if q is not None and q <= n:
        return x
    e = c.noise(('rnd', n, P.key(p)), Fraction(1, 2 * 10 ** n) + c.mag(p) * U53 * 2)
    return SymReal(P.add(p, {(e,): 1}))


def smod(x, m):
    """float x % m for m > 0 : the quotient is found by forking"""
    c = CTX
    if type(x) is SymExt:
        x = x.resolve()
        if type(x) is not SymReal:
            return x % m
    if type(m) is SymReal or type(m) is SymExt:
        m = c.concretize(m)
    p = c.lift(x)
    lo, hi = c.interval(p)
    a, b = math.floor(lo / Fraction(m)), math.floor(hi / Fraction(m))
    if b - a > 16:
        return c.concretize(x) % m
    for k in range(a, b + 1):
        if k == b or c.decide(c.atom(P.sub(p, P.const(frac(m) * (k + 1))), '<')):
            # fmod is exact for the quotient 0; otherwise one rounding
            if k == 0:
                return mk(p)
            return c.fl(P.sub(p, P.const(frac(m) * k)), ('mod', k, frac(m), P.key(p)))
    raise AssertionError


class SymExt(object):
    """lazy max / min over program values"""
    __slots__ = ('kind', 'opts')

    def __init__(self, kind, opts):
        self.kind = kind
        self.opts = opts

    def __repr__(self):
        return '<sym>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def map(self, fn, flip):
        k = self.kind
        if flip:
            k = 'min' if k == 'max' else 'max'
        return mkext(k, [fn(o) for o in self.opts])

    def resolve(self):
        """pick the option by forking"""
        o = self.opts[0]
        for x in self.opts[1:]:
            f = cmpv(x, o, '>' if self.kind == 'max' else '<')
            if f is True or (f is not False and CTX.decide(f)):
                o = x
        if type(o) is SymExt:
            return o.resolve()
        return o

    def __add__(self, o):
        return ext_add(self, o) if _num(o) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return ext_add(self, -o) if _num(o) else NotImplemented

    def __rsub__(self, o):
        return ext_add(-self, o) if _num(o) else NotImplemented

    def __neg__(self):
        return self.map(lambda o: -o, True)

    def __pos__(self):
        return self

    def __mul__(self, o):
        return ext_mul(self, o) if _num(o) else NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        return CTX.div(self, o) if _num(o) else NotImplemented

    def __rtruediv__(self, o):
        return CTX.div(o, self) if _num(o) else NotImplemented

    def __pow__(self, n):
        return self.resolve() ** n

    def __mod__(self, n):
        return smod(self, n)

    def __abs__(self):
        return sabs(self)

    def __round__(self, n=None):
        return sround(self, n)

    def __lt__(self, o):
        return mkcmp(self, o, '<')

    def __le__(self, o):
        return mkcmp(self, o, '<=')

    def __gt__(self, o):
        return mkcmp(self, o, '>')

    def __ge__(self, o):
        return mkcmp(self, o, '>=')

    def __eq__(self, o):
        return mkcmp(self, o, '==')

    def __ne__(self, o):
        return mkcmp(self, o, '!=')

    def __hash__(self):
        raise Unsupported('native hash of a symbolic float')

    def __bool__(self):
        return bool(mkcmp(self, 0, '!='))

    def __float__(self):
        return CTX.concretize(self.resolve())

    def __int__(self):
        return int(float(self))


def mkext(kind, opts):
    """drop dominated options; flatten"""
    flat = []
    for o in opts:
        if type(o) is SymExt and o.kind == kind:
            flat.extend(o.opts)
        else:
            flat.append(o)
    keep = []
    for o in flat:
        dom = False
        for i, k in enumerate(keep):
            if type(o) is SymExt or type(k) is SymExt:
                continue
            f = cmpv(o, k, '<=' if kind == 'max' else '>=')
            if f is True:
                dom = True
                break
            if cmpv(o, k, '>=' if kind == 'max' else '<=') is True:
                keep[i] = None
        keep = [k for k in keep if k is not None]
        if not dom:
            keep.append(o)
    if len(keep) == 1:
        return keep[0]
    return SymExt(kind, keep)


def ext_add(a, b):
    if type(a) is not SymExt:
        a, b = b, a
    if type(b) is SymExt:
        if len(b.opts) < len(a.opts):
            a, b = b, a
        b = b.resolve()
        if type(a) is not SymExt:
            return a + b
    return a.map(lambda o: o + b, False)


def ext_mul(a, b):
    if type(a) is not SymExt:
        a, b = b, a
    if type(b) is SymExt:
        return a.resolve() * b.resolve()
    if type(b) is SymReal:
        return a.resolve() * b
    if b == 0:
        return 0.0
    return a.map(lambda o: o * b, b < 0)


def ext_cmp(a, b, op):
    """a is a SymExt"""
    def sub(o):
        return cmpv(o, b, op) if type(o) is SymExt or True else None
    fs = [cmpv(o, b, op) for o in a.opts] if op not in ('==', '!=') else None
    if op in ('<', '<='):
        return f_and(fs) if a.kind == 'max' else f_or(fs)
    if op in ('>', '>='):
        return f_or(fs) if a.kind == 'max' else f_and(fs)
    bound = f_and([cmpv(o, b, '<=' if a.kind == 'max' else '>=') for o in a.opts])
    some = f_or([cmpv(o, b, '==') for o in a.opts])
    f = f_and([bound, some])
    return f if op == '==' else f_not(f)


# --------------------------------------------------------------------------
class Ex(object):
    """exact real for the oracles (symbolic mode)"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    @staticmethod
    def of(x):
        if isinstance(x, Ex):
            return x
        if type(x) is SymExt:
            x = x.resolve()
        return Ex(CTX.lift(x))

    def __add__(self, o):
        return Ex(P.add(self.p, Ex.of(o).p))

    __radd__ = __add__

    def __sub__(self, o):
        return Ex(P.sub(self.p, Ex.of(o).p))

    def __rsub__(self, o):
        return Ex(P.sub(Ex.of(o).p, self.p))

    def __neg__(self):
        return Ex(P.neg(self.p))

    def __mul__(self, o):
        return Ex(P.mul(self.p, Ex.of(o).p))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Ex) and P.is_const(o.p):
            o = P.const_val(o.p)
        if isinstance(o, Ex):
            raise Unsupported('oracle division by a symbolic value')
        return Ex(P.scale(self.p, Fraction(1) / Fraction(o)))

    def __pow__(self, n):
        r = Ex(P.const(1))
        for _ in range(n):
            r = r * self
        return r

    def _c(self, o, op):
        return mkbool(CTX.atom(P.sub(self.p, Ex.of(o).p), op))

    def __lt__(self, o):
        return self._c(o, '<')

    def __le__(self, o):
        return self._c(o, '<=')

    def __gt__(self, o):
        return self._c(o, '>')

    def __ge__(self, o):
        return self._c(o, '>=')

    def __eq__(self, o):
        return self._c(o, '==')

    def __ne__(self, o):
        return self._c(o, '!=')

    def __hash__(self):
        raise Unsupported('hash')

    def __deepcopy__(self, memo):
        return self
