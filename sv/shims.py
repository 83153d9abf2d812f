# -*- coding: utf-8 -*-
"""Replacements for builtins and library modules seen by the code under test."""
import builtins
import collections as _collections
import copy as _copy
import itertools as _itertools
import math as _math
import random as _random
import types
from fractions import Fraction

from . import core
from . import poly as P
from .core import SymReal, SymExt, SymBool, mkext, sround, sabs

SYM = (SymReal, SymExt)


# ------------------------------------------------------------------ hashing
class Token(object):
    """result of hash() : compared structurally, never by accident equal"""
    __slots__ = ('v', 'conc')

    def __init__(self, v, conc):
        self.v = v
        self.conc = conc          # True: v is natively hashable and concrete

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, o):
        if not isinstance(o, Token):
            return False
        return truth(tok_eq(self, o))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self.conc:
            return hash(self.v)
        raise core.Unsupported('native hash of a symbolic token')

    def __int__(self):
        if self.conc:
            return hash(self.v)
        raise core.Unsupported('integer use of a symbolic hash')

    __index__ = __int__

    def __xor__(self, o):
        return mixtok('^', self, o)

    __rxor__ = __add__ = __radd__ = __mul__ = __rmul__ = __xor__


def mixtok(op, a, b):
    b = b if isinstance(b, Token) else tok(b)
    if a.conc and b.conc:
        return Token((op, a.v, b.v), True)
    return Token([Token(op, True), a, b], False)


def truth(f):
    if f is True or f is False:
        return f
    return core.CTX.decide(f)


def tok_eq(a, b):
    """formula: the two hashes are equal (collisions are ignored)"""
    if a is b:
        return True
    if a.conc and b.conc:
        return a.v == b.v
    av, bv = a.v, b.v
    if isinstance(av, SYM) or isinstance(bv, SYM):
        if not (isinstance(av, SYM) or isinstance(av, (int, float))):
            return False
        if not (isinstance(bv, SYM) or isinstance(bv, (int, float))):
            return False
        return core.cmpv(av, bv, '==') if isinstance(av, SYM) else core.cmpv(bv, av, '==')
    la = av if isinstance(av, list) else None
    lb = bv if isinstance(bv, list) else None
    if la is None:
        if not isinstance(av, tuple):
            return False
        la = [tok(x) for x in av]
    if lb is None:
        if not isinstance(bv, tuple):
            return False
        lb = [tok(x) for x in bv]
    if len(la) != len(lb):
        return False
    fs = []
    for x, y in zip(la, lb):
        f = tok_eq(x, y)
        if f is False:
            return False
        fs.append(f)
    return core.f_and(fs)


def tok(o):
    """symbolic hash()"""
    t = type(o)
    if t in (int, float, str, bool, type(None), Fraction, bytes):
        return Token(o, True)
    if t is Token:
        return o
    if t in SYM:
        return Token(o, False)
    if t is SymBool:
        return Token(bool(o), True)
    if isinstance(o, tuple):
        ts = [tok(x) for x in o]
        if all(x.conc for x in ts):
            return Token(tuple(x.v for x in ts), True)
        return Token(ts, False)
    if isinstance(o, SVFrozen):
        raise core.Unsupported('hash of frozenset')
    if isinstance(o, (list, dict, set, SVSet, SVDict)):
        raise TypeError("unhashable type: '%s'" % t.__name__)
    h = t.__hash__
    if h is None:
        raise TypeError("unhashable type: '%s'" % t.__name__)
    if h is object.__hash__ or isinstance(o, (type, types.FunctionType, types.GeneratorType)):
        return Token(('id', id(o)), True)
    try:
        r = h(o)
    except core.Steer:
        raise
    if isinstance(r, Token):
        return r
    return Token(('h', r), True)


def sv_hash(o):
    return tok(o)


def same(t1, o1, t2, o2):
    """set/dict key identity: same object, or equal hash and =="""
    if o1 is o2:
        return True
    if t1.conc and t2.conc:
        if t1.v != t2.v:
            return False
    elif not truth(tok_eq(t1, t2)):
        return False
    return bool(o1 == o2)


# --------------------------------------------------------------------- sets
class _SetMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _SetBase) if cls is SVSet else type.__instancecheck__(cls, o)


class _SetBase(object):
    pass


class SVSet(_SetBase, metaclass=_SetMeta):
    """insertion ordered set (the order PyPy gives)"""

    def __init__(self, it=()):
        self._i = []       # [token, object]
        self._c = {}       # concrete token -> list of entries
        self._ns = 0       # number of symbolic tokens
        for x in it:
            self.add(x)

    def _find(self, x, t=None):
        if t is None:
            t = tok(x)
        if t.conc:
            for e in self._c.get(t.v, ()):
                if e[1] is x or e[1] == x:
                    return e
            if not self._ns:
                return None
            for e in self._i:
                if not e[0].conc and same(e[0], e[1], t, x):
                    return e
            return None
        for e in self._i:
            if e[1] is x and e[0] is t:
                return e
        for e in self._i:
            if same(e[0], e[1], t, x):
                return e
        return None

    def _ins(self, x, t):
        e = [t, x]
        self._i.append(e)
        if t.conc:
            self._c.setdefault(t.v, []).append(e)
        else:
            self._ns += 1

    def _del(self, e):
        for i, x in enumerate(self._i):
            if x is e:
                del self._i[i]
                break
        if e[0].conc:
            l = self._c[e[0].v]
            for i, x in enumerate(l):
                if x is e:
                    del l[i]
                    break
        else:
            self._ns -= 1

    def add(self, x):
        t = tok(x)
        if self._find(x, t) is None:
            self._ins(x, t)

    def discard(self, x):
        e = self._find(x)
        if e is not None:
            self._del(e)

    def remove(self, x):
        e = self._find(x)
        if e is None:
            raise KeyError(x)
        self._del(e)

    def pop(self):
        if not self._i:
            raise KeyError('pop from an empty set')
        e = self._i[-1]
        self._del(e)
        return e[1]

    def clear(self):
        self.__init__()

    def __iter__(self):
        n = len(self._i)
        for e in list(self._i):
            if len(self._i) != n:
                raise RuntimeError('Set changed size during iteration')
            yield e[1]

    def __len__(self):
        return len(self._i)

    def __contains__(self, x):
        return self._find(x) is not None

    def __repr__(self):
        return '{%s}' % ', '.join(repr(e[1]) for e in self._i)

    def copy(self):
        return type(self)(self)

    def _new(self):
        return type(self)()

    def intersection(self, *os):
        r = self
        for o in os:
            o = o if isinstance(o, _SetBase) else SVSet(o)
            a, b = r, o
            if len(a) > len(b):
                a, b = b, a
            n = self._new()
            for e in a._i:
                if b._find(e[1], e[0]) is not None:
                    n._ins(e[1], e[0])
            r = n
        return r if r is not self else self.copy()

    def union(self, *os):
        r = self.copy()
        for o in os:
            r.update(o)
        return r

    def update(self, *os):
        for o in os:
            for x in o:
                self.add(x)

    def difference(self, *os):
        n = self._new()
        os = [o if isinstance(o, _SetBase) else SVSet(o) for o in os]
        for e in self._i:
            if all(o._find(e[1], e[0]) is None for o in os):
                n._ins(e[1], e[0])
        return n

    def difference_update(self, *os):
        for o in os:
            for x in list(o):
                self.discard(x)

    def intersection_update(self, *os):
        r = self.intersection(*os)
        self.__init__(r)

    def symmetric_difference(self, o):
        o = o if isinstance(o, _SetBase) else SVSet(o)
        n = o.difference(self)
        for e in self.difference(o)._i:
            n._ins(e[1], e[0])
        return n

    def issubset(self, o):
        o = o if isinstance(o, _SetBase) else SVSet(o)
        if len(self) > len(o):
            return False
        return all(o._find(e[1], e[0]) is not None for e in self._i)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __and__(self, o):
        return self.intersection(o) if isinstance(o, _SetBase) else NotImplemented

    def __or__(self, o):
        return self.union(o) if isinstance(o, _SetBase) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if isinstance(o, _SetBase) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if isinstance(o, _SetBase) else NotImplemented

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, _SetBase):
            if isinstance(o, (builtins.set, builtins.frozenset)):
                o = SVSet(o)
            else:
                return False
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __deepcopy__(self, memo):
        n = self._new()
        memo[id(self)] = n
        for e in self._i:
            n.add(_copy.deepcopy(e[1], memo))
        return n

    def __copy__(self):
        return self.copy()


class SVFrozen(SVSet):
    def __hash__(self):
        raise core.Unsupported('hash of frozenset')


# -------------------------------------------------------------------- dicts
class _DictMeta(type):
    def __instancecheck__(cls, o):
        if cls is SVDict:
            return isinstance(o, (_DictBase, builtins.dict))
        return type.__instancecheck__(cls, o)


class _DictBase(object):
    pass


_MISSING = object()


class SVDict(_DictBase, metaclass=_DictMeta):
    def __init__(self, *a, **kw):
        self._i = []      # [token, key, value]
        self._c = {}
        self._ns = 0
        if a:
            self.update(a[0])
        for k, v in kw.items():
            self[k] = v

    @classmethod
    def fromkeys(cls, ks, v=None):
        d = cls()
        for k in ks:
            d[k] = v
        return d

    _find = SVSet._find

    def _ins(self, k, v, t):
        e = [t, k, v]
        self._i.append(e)
        if t.conc:
            self._c.setdefault(t.v, []).append(e)
        else:
            self._ns += 1

    _del = SVSet._del

    def __setitem__(self, k, v):
        t = tok(k)
        e = self._find(k, t)
        if e is None:
            self._ins(k, v, t)
        else:
            e[2] = v

    def __getitem__(self, k):
        e = self._find(k)
        if e is None:
            m = getattr(type(self), '__missing__', None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return e[2]

    def __delitem__(self, k):
        e = self._find(k)
        if e is None:
            raise KeyError(k)
        self._del(e)

    def __contains__(self, k):
        return self._find(k) is not None

    def __iter__(self):
        n = len(self._i)
        for e in list(self._i):
            if len(self._i) != n:
                raise RuntimeError('dictionary changed size during iteration')
            yield e[1]

    def __len__(self):
        return len(self._i)

    def keys(self):
        return _View(self, 1)

    def values(self):
        return _View(self, 2)

    def items(self):
        return _View(self, 0)

    def get(self, k, d=None):
        e = self._find(k)
        return d if e is None else e[2]

    def setdefault(self, k, d=None):
        t = tok(k)
        e = self._find(k, t)
        if e is None:
            self._ins(k, d, t)
            return d
        return e[2]

    def pop(self, k, d=_MISSING):
        e = self._find(k)
        if e is None:
            if d is _MISSING:
                raise KeyError(k)
            return d
        self._del(e)
        return e[2]

    def popitem(self):
        e = self._i[-1]
        self._del(e)
        return e[1], e[2]

    def update(self, *a, **kw):
        if a:
            o = a[0]
            if hasattr(o, 'keys'):
                for k in o.keys():
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self._i, self._c, self._ns = [], {}, 0

    def copy(self):
        n = type(self)()
        n.update(self)
        return n

    __copy__ = copy

    def __deepcopy__(self, memo):
        n = type(self)()
        memo[id(self)] = n
        for e in self._i:
            n[_copy.deepcopy(e[1], memo)] = _copy.deepcopy(e[2], memo)
        return n

    def __eq__(self, o):
        if isinstance(o, builtins.dict):
            o = SVDict(o)
        if not isinstance(o, _DictBase):
            return False
        if len(self) != len(o):
            return False
        for e in self._i:
            f = o._find(e[1], e[0])
            if f is None or not (f[2] is e[2] or f[2] == e[2]):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return '{%s}' % ', '.join('%r: %r' % (e[1], e[2]) for e in self._i)


class _View(object):
    def __init__(self, d, k):
        self.d = d
        self.k = k

    def __iter__(self):
        n = len(self.d._i)
        for e in list(self.d._i):
            if len(self.d._i) != n:
                raise RuntimeError('dictionary changed size during iteration')
            yield (e[1], e[2]) if self.k == 0 else e[self.k]

    def __len__(self):
        return len(self.d)

    def __contains__(self, x):
        if self.k == 1:
            return x in self.d
        return any(y is x or y == x for y in self)

    def __repr__(self):
        return repr(list(self))

    def _s(self):
        return SVSet(self)

    def __or__(self, o):
        return self._s().union(o)

    def __and__(self, o):
        return self._s().intersection(o)

    def __sub__(self, o):
        return self._s().difference(o)

    def __eq__(self, o):
        return self._s() == SVSet(o)


class SVCounter(SVDict):
    def __init__(self, it=()):
        SVDict.__init__(self)
        if hasattr(it, 'keys'):
            for k in it.keys():
                self[k] = it[k]
        else:
            for x in it:
                self[x] = self.get(x, 0) + 1

    def __missing__(self, k):
        return 0

    def most_common(self, n=None):
        l = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return l if n is None else l[:n]

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k


class SVDefaultDict(SVDict):
    def __init__(self, factory=None, *a, **kw):
        self.default_factory = factory
        SVDict.__init__(self, *a, **kw)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v

    def copy(self):
        n = SVDefaultDict(self.default_factory)
        n.update(self)
        return n

    def __deepcopy__(self, memo):
        n = SVDefaultDict(self.default_factory)
        memo[id(self)] = n
        for e in self._i:
            n[_copy.deepcopy(e[1], memo)] = _copy.deepcopy(e[2], memo)
        return n


# ----------------------------------------------------------------- builtins
class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.float) or type(o) in SYM

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class SVFloat(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if type(x) in SYM:
            return x
        return builtins.float(x)

    fromhex = builtins.float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class SVInt(metaclass=_IntMeta):
    def __new__(cls, *a):
        return builtins.int(*a)


class _TypeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.type)


def sv_type(*a):
    if len(a) == 1:
        if type(a[0]) in SYM:
            return builtins.float
        if isinstance(a[0], _SetBase):
            return SVSet
        return builtins.type(a[0])
    return builtins.type(*a)


def sv_isinstance(o, t):
    if isinstance(t, builtins.tuple):
        return any(sv_isinstance(o, x) for x in t)
    if t is sv_type:
        return isinstance(o, builtins.type)
    if t is builtins.float:
        return isinstance(o, SVFloat)
    if t is sv_range:
        return isinstance(o, range)
    return isinstance(o, t)


sv_range = builtins.range


def sv_round(x, n=None):
    if type(x) in SYM:
        return sround(x, n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def sv_abs(x):
    if type(x) in SYM:
        return sabs(x)
    return builtins.abs(x)


def _ext(kind, native):
    def fn(*a, **kw):
        items = list(a[0]) if len(a) == 1 else list(a)
        key = kw.get('key')
        if key is None and items and all(isinstance(x, (int, float) + SYM) for x in items) \
                and any(type(x) in SYM for x in items):
            return mkext(kind, items)
        if not items and 'default' not in kw:
            raise ValueError('%s() arg is an empty sequence' % kind)
        if not items:
            return kw['default']
        best, bk = items[0], key(items[0]) if key else items[0]
        for x in items[1:]:
            k = key(x) if key else x
            if (k > bk) if kind == 'max' else (k < bk):
                best, bk = x, k
        return best
    fn.__name__ = kind
    return fn


sv_max = _ext('max', builtins.max)
sv_min = _ext('min', builtins.min)


def _approx(k):
    if isinstance(k, (tuple, list)):
        return [_approx(x) for x in k]
    if isinstance(k, core.SymReal):
        c = core.ctx()
        lo, hi = c.interval(c.lift(k))
        return float(lo + hi) / 2
    return k


def sv_first(srt, it, key=None):
    """sorted(it, key=key)[0]"""
    if srt is not builtins.sorted:
        return srt(it, key=key)[0] if key is not None else srt(it)[0]
    l = list(it)
    ks = l if key is None else [key(x) for x in l]
    if not l:
        raise IndexError('list index out of range')
    n = len(l)
    try:
        ap = [_approx(k) for k in ks]
        c = builtins.min(range(n), key=lambda i: ap[i])
    except (TypeError, ValueError):
        c = 0
    if all(ks[c] < ks[i] for i in range(c)) and not any(ks[i] < ks[c] for i in range(c + 1, n)):
        return l[c]
    b = 0
    for i in range(1, n):
        if ks[i] < ks[b]:
            b = i
    return l[b]


def sv_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sv_pow(x, n, *m):
    return builtins.pow(x, n, *m)


def sv_print(*a, **kw):
    return None


def sv_divmod(a, b):
    if type(a) in SYM:
        a = float(a)
    return builtins.divmod(a, b)


def mkset(items):
    return SVSet(items)


def mkdict(items):
    d = SVDict()
    for k, v in items:
        d[k] = v
    return d


def mkdict_disp(ks, vs):
    d = SVDict()
    for k, v in zip(ks, vs):
        if k is _SPREAD:
            d.update(v)
        else:
            d[k] = v
    return d


_SPREAD = object()


# ------------------------------------------------------------------ modules
def _mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


DEG = Fraction(180) / Fraction(_math.pi)


class Angle(object):
    """bookkeeping of a symbolic angle variable (in radians)"""
    pass


def m_sqrt(x):
    if type(x) in SYM:
        return core.CTX.sqrt(x)
    return _math.sqrt(x)


def m_hypot(*a):
    if any(type(x) in SYM for x in a):
        s = 0.0
        for x in a:
            s = s + x * x
        return m_sqrt(s)
    return _math.hypot(*a)


def m_fabs(x):
    return sabs(x) if type(x) in SYM else _math.fabs(x)


def m_floor(x):
    return _math.floor(float(x)) if type(x) in SYM else _math.floor(x)


def m_ceil(x):
    return _math.ceil(float(x)) if type(x) in SYM else _math.ceil(x)


def m_isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    if type(a) in SYM or type(b) in SYM:
        d = sabs(a - b)
        return bool(d <= sv_max(rel_tol * sv_max(sabs(a), sabs(b)), abs_tol))
    return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def m_fsum(it):
    return sv_sum(it, 0.0)


def m_degrees(x):
    from . import trig
    return trig.degrees(x) if type(x) in SYM else _math.degrees(x)


def m_radians(x):
    from . import trig
    return trig.radians(x) if type(x) in SYM else _math.radians(x)


def _trig(name):
    nat = getattr(_math, name)

    def fn(*a):
        if any(type(x) in SYM for x in a):
            from . import trig
            return getattr(trig, name)(*a)
        return nat(*a)
    fn.__name__ = name
    return fn


def m_copysign(a, b):
    if type(a) in SYM or type(b) in SYM:
        a = sabs(a)
        return a if b >= 0 else -a
    return _math.copysign(a, b)


def m_pow(a, b):
    if type(a) in SYM or type(b) in SYM:
        return a ** b
    return _math.pow(a, b)


def m_finite(x):
    return True if type(x) in SYM else _math.isfinite(x)


def m_isnan(x):
    return False if type(x) in SYM else _math.isnan(x)


def m_isinf(x):
    return False if type(x) in SYM else _math.isinf(x)


def make_math():
    d = {k: getattr(_math, k) for k in dir(_math) if not k.startswith('__')}
    d.update(sqrt=m_sqrt, hypot=m_hypot, fabs=m_fabs, floor=m_floor, ceil=m_ceil, isclose=m_isclose,
             fsum=m_fsum, degrees=m_degrees, radians=m_radians, copysign=m_copysign, pow=m_pow,
             isfinite=m_finite, isnan=m_isnan, isinf=m_isinf)
    for n in ('sin', 'cos', 'tan', 'atan2', 'acos', 'asin', 'atan'):
        d[n] = _trig(n)
    return _mod('math', **d)


class RandomShim(object):
    """random.* : a hook of the harness supplies the draws"""

    def __init__(self):
        self.hook = None
        self.rng = _random.Random(12345)

    def reset(self):
        self.hook = None
        self.rng = _random.Random(12345)


RANDOM = RandomShim()


def r_uniform(a, b):
    if RANDOM.hook is not None:
        return RANDOM.hook('uniform', a, b)
    # a concrete position between the (possibly symbolic) limits
    t = RANDOM.rng.randrange(1, 4096) / 4096.0
    return a + t * (b - a)


def r_random():
    if RANDOM.hook is not None:
        return RANDOM.hook('uniform', 0.0, 1.0)
    return RANDOM.rng.randrange(1, 4096) / 4096.0


def r_choice(seq):
    if RANDOM.hook is not None:
        r = RANDOM.hook('choice', seq, None)
        if r is not None:
            return r[0]
    return RANDOM.rng.choice(list(seq))


def r_randint(a, b):
    return RANDOM.rng.randint(a, b)


def make_random():
    return _mod('random', uniform=r_uniform, random=r_random, choice=r_choice, randint=r_randint,
                seed=lambda *a: None, randrange=lambda *a: RANDOM.rng.randrange(*a),
                shuffle=lambda l: None, sample=lambda l, k: list(l)[:k], Random=_random.Random)


class cached_property(object):
    def __init__(self, func):
        self.func = func
        self.name = func.__name__
        self.__doc__ = func.__doc__

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, cls):
        if obj is None:
            return self
        v = obj.__dict__[self.func.__name__] = self.func(obj)
        return v


def make_collections():
    d = {k: getattr(_collections, k) for k in dir(_collections) if not k.startswith('__')}
    d.update(Counter=SVCounter, defaultdict=SVDefaultDict, OrderedDict=SVDict)
    return _mod('collections', **d)


def make_copy():
    def deepcopy(x, memo=None, _nil=[]):
        if memo is None:
            memo = {}
        return _copy.deepcopy(x, memo)
    return _mod('copy', copy=_copy.copy, deepcopy=deepcopy, Error=_copy.Error, error=_copy.error)


def make_pprint():
    return _mod('pprint', pprint=sv_print, pformat=lambda *a, **k: '')


def make_time():
    import time as _t
    return _mod('time', sleep=lambda s: None, time=_t.time, perf_counter=_t.perf_counter)


def make_functools():
    import functools as _f
    d = {k: getattr(_f, k) for k in dir(_f) if not k.startswith('__')}
    d['cached_property'] = cached_property
    return _mod('functools', **d)


def make_operator():
    import operator as _o
    return _o


class NDArray(list):
    """the little of numpy the code uses: asarray of nested lists"""

    def tolist(self):
        return [x.tolist() if isinstance(x, NDArray) else x for x in self]

    @property
    def shape(self):
        return (len(self),) + (self[0].shape if self and isinstance(self[0], NDArray) else ())


def asarray(x, dtype=None):
    if isinstance(x, (list, tuple)):
        return NDArray([asarray(y) for y in x])
    return x


def make_numpy():
    return _mod('numpy', asarray=asarray, array=asarray)


def make_triangle():
    from . import trimesh
    return _mod('triangle', triangulate=trimesh.triangulate)


MODULES = {}


def build_modules():
    MODULES.clear()
    MODULES.update({
        'math': make_math(), 'random': make_random(), 'collections': make_collections(),
        'copy': make_copy(), 'pprint': make_pprint(), 'time': make_time(),
        'cached_property': _mod('cached_property', cached_property=cached_property),
        'functools': make_functools(), 'numpy': make_numpy(), 'triangle': make_triangle(),
    })
    return MODULES


def builtins_dict():
    d = dict(builtins.__dict__)
    d.update({
        'float': SVFloat, 'int': SVInt, 'set': SVSet, 'frozenset': SVFrozen, 'dict': SVDict,
        'hash': sv_hash, 'round': sv_round, 'abs': sv_abs, 'max': sv_max, 'min': sv_min,
        'sum': sv_sum, 'print': sv_print, 'isinstance': sv_isinstance, 'type': sv_type,
        'divmod': sv_divmod, '_sv_first': sv_first,
        '_sv_set': mkset, '_sv_dict': mkdict, '_sv_dictd': mkdict_disp, '_sv_spread': _SPREAD,
    })
    return d
