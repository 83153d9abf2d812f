# -*- coding: utf-8 -*-
"""Angles.  An angle variable D is the value in degrees the program sees; the
radian value is D*pi/180.  Facts about D are those of the real functions: signs,
ranges and order of directions exactly (atan2 and acos are monotonic and the
inputs lie on grids far coarser than the rounding), equalities to 1e-11."""
import math
from fractions import Fraction

from . import core
from . import poly as P
from .core import SymReal, SymExt, f_and, f_or, f_not, mk

PI = Fraction(math.pi)
RAD = PI / 180
DNOISE = Fraction(1, 10 ** 12)


def imp(a, b):
    return f_or([f_not(a), b])


def lift(x):
    if type(x) is SymExt:
        x = x.resolve()
    return core.CTX.lift(x)


def raw(p, op):
    """formula without grid snapping or simplification"""
    if P.is_const(p):
        return core.cmpc(P.const_val(p), op, 0)
    q, k, c = P.primitive(p)
    t = P.norm(Fraction(-c) / k)
    return ('a', q, op if k > 0 else core.FLIP[op], t)


def at(p, op):
    c = core.CTX
    if P.is_const(p):
        return core.cmpc(P.const_val(p), op, 0)
    q, k, cc = P.primitive(p)
    t = P.norm(Fraction(-cc) / k)
    if k < 0:
        op = core.FLIP[op]
    return c.mkatom(q, op, t)


def radval(c, D):
    return SymReal({(D,): RAD})


def near(p, tol=DNOISE * 10):
    return f_and([raw(P.sub(p, P.const(tol)), '<='), raw(P.add(p, P.const(tol)), '>=')])


def rel(p, op, tol=DNOISE * 10):
    """p op 0, equality to the precision of the functions"""
    return near(p, tol) if op == '==' else raw(p, op)


def span(ys, xs):
    """the angles of the directions to a box, as far as it is above the axis"""
    (a, b), (c, d) = ys, xs
    a = max(a, 0)
    if a <= 0 and c <= 0 <= d or b < a:
        return Fraction(0), Fraction(180)
    w = [Fraction(math.degrees(math.atan2(float(y), float(x)))) for y in (a, b) for x in (c, d)]
    lo, hi = min(w), max(w)
    return max(Fraction(0), lo - lo * DNOISE), min(Fraction(180), hi + hi * DNOISE)


def atan2(y, x):
    c = core.CTX
    py, px = lift(y), lift(x)
    if P.is_const(py) and P.is_const(px):
        return math.atan2(float(P.const_val(py)), float(P.const_val(px)))
    if c.decide(c.atom(py, '==')):
        if c.decide(c.atom(px, '<')):
            return math.pi
        return 0.0
    if c.decide(c.atom(px, '==')):
        return math.pi / 2 if c.decide(c.atom(py, '>')) else -math.pi / 2
    up = c.decide(c.atom(py, '>'))
    angles = c.memo.setdefault('angles', [])
    for (qy, qx, D) in angles:
        cross = P.sub(P.mul(qx, py), P.mul(qy, px))
        dot = P.add(P.mul(qx, px), P.mul(qy, py))
        if c.decide(c.atom(cross, '==')) and c.decide(c.atom(dot, '>')):
            return radval(c, D)
    ev = lambda s, py=py, px=px: math.degrees(math.atan2(c.peval(py, s), c.peval(px, s)))
    lo, hi = span(c.interval(P.neg(py) if not up else py), c.interval(px))
    v = c.new_var('D', lo if up else -hi, hi if up else -lo, None, 'aux', ev)
    D = v.id
    d = {(D,): 1}
    facts = [raw(d, '>'), raw(P.sub(d, P.const(180)), '<')] if up else \
            [raw(d, '<'), raw(P.add(d, P.const(180)), '>')]
    s90 = P.const(90 if up else -90)
    off = P.sub(d, s90) if up else P.sub(s90, d)      # <0 : x>0
    facts += [imp(at(px, '>'), raw(off, '<')), imp(at(px, '<'), raw(off, '>'))]
    # the 45 degree lines
    sy = py if up else P.neg(py)
    for k, s in ((45, px), (135, P.neg(px))):
        dd = P.sub(d if up else P.neg(d), P.const(k))
        df = P.sub(sy, s)
        if k == 45:
            facts += [imp(f_and([at(px, '>'), at(df, o)]), rel(dd, o)) for o in ('<', '>', '==')]
        else:
            facts += [imp(f_and([at(px, '<'), at(df, o)]), rel(dd, core.FLIP[o])) for o in ('<', '>', '==')]
    # directions near the axes
    dab = d if up else P.neg(d)
    for a in (0.001, 0.01, 0.1, 1, 8, 25):
        for s, flat in ((px, False), (P.neg(px), True)):
            t = Fraction(math.tan(math.radians(a)))
            g = P.sub(sy, P.scale(s, t))
            w = P.sub(dab, P.const(180 - Fraction(a))) if flat else P.sub(P.const(Fraction(a)), dab)
            facts += [imp(f_and([at(s, '>'), at(g, '>')]), slack(w, '<=')), imp(f_and([at(s, '>'), at(g, '<')]), slack(w, '>='))]
    v.defs.extend(f for f in facts if f is not True)
    for (qy, qx, E) in angles:
        cross = P.sub(P.mul(qx, py), P.mul(qy, px))
        dot = P.add(P.mul(qx, px), P.mul(qy, py))
        df = P.sub(d, {(E,): 1})

        def rng(lo, hi):
            return f_and([raw(P.sub(df, P.const(lo)), '>'), raw(P.sub(df, P.const(hi)), '<')])

        def eq(*vals):
            return f_or([near(P.sub(df, P.const(w))) for w in vals])
        fs = [imp(at(cross, '>'), f_or([rng(0, 180), rng(-360, -180)])),
              imp(at(cross, '<'), f_or([rng(-180, 0), rng(180, 360)])),
              imp(at(dot, '>'), f_or([rng(-90, 90), rng(270, 360), rng(-360, -270)])),
              imp(at(dot, '<'), f_or([rng(90, 270), rng(-270, -90)])),
              imp(at(dot, '=='), eq(90, -90, 270, -270)),
              imp(at(cross, '=='), eq(0, 180, -180))]
        c.trig.append(({D, E}, [f for f in fs if f is not True]))
    angles.append((py, px, D))
    return radval(c, D)


def slack(p, op, tol=DNOISE * 10):
    """p op 0 up to the precision of the functions"""
    if op == '==':
        return near(p, tol)
    return raw(P.sub(p, P.const(tol)), '<=') if op in ('<', '<=') else raw(P.add(p, P.const(tol)), '>=')


def acos(x):
    c = core.CTX
    p = lift(x)
    if P.is_const(p):
        return math.acos(float(P.const_val(p)))
    one = P.const(1)
    if c.decide(c.atom(P.sub(p, one), '>')) or c.decide(c.atom(P.add(p, one), '<')):
        raise ValueError('math domain error')
    k = ('acos', P.key(p))
    D = c.memo.get(k)
    if D is None:
        ev = lambda s, p=p: math.degrees(math.acos(max(-1.0, min(1.0, c.peval(p, s)))))
        v = c.new_var('A', Fraction(0), Fraction(180), None, 'aux', ev)
        D = v.id
        v.info = ('acos', p)
        d = {(D,): 1}
        tiny = Fraction(1, 10 ** 12)
        # sign, and the steep ends (1 - cos D <= 1e-12 -> D < 1e-4)
        z = c.atom(p, '==')
        fs = [imp(c.atom(p, '<'), raw(P.sub(d, P.const(90)), '>')),
              imp(c.atom(p, '>'), raw(P.sub(d, P.const(90)), '<')),
              imp(z, near(P.sub(d, P.const(90))))]
        v.defs.extend(f for f in fs if f is not True)
        for tiny, e in ((tiny, Fraction(1, 10 ** 4)), (Fraction(1, 10 ** 9), Fraction(3, 1000))):
            fs = [imp(c.atom(P.sub(p, P.const(1 - tiny)), '>='), raw(P.sub(d, P.const(e)), '<')),
                  imp(c.atom(P.add(p, P.const(1 - tiny)), '<='), raw(P.sub(d, P.const(180 - e)), '>'))]
            c.heavy.setdefault(D, []).extend(f for f in fs if f is not True)
        for t, val in ((Fraction(1), 0), (Fraction(-1), 180), (Fraction(1, 2), 60), (Fraction(-1, 2), 120)):
            for o in ('<', '==', '>'):
                f = imp(at(P.sub(p, P.const(t)), o), slack(P.sub(d, P.const(val)), core.FLIP[o]))
                if f is not True:
                    v.defs.append(f)
        olds = c.memo.setdefault('acoses', [])
        for (q, E) in olds:
            df = P.sub(p, q)
            fs = [imp(at(df, o), slack(P.sub(d, {(E,): 1}), core.FLIP[o])) for o in ('<', '==', '>')]
            sm = P.add(p, q)
            fs += [imp(at(sm, o), slack(P.sub(P.add(d, {(E,): 1}), P.const(180)), core.FLIP[o]))
                   for o in ('<', '==', '>')]
            c.trig.append(({D, E}, [f for f in fs if f is not True]))
        olds.append((p, D))
        c.memo[k] = D
    return radval(c, D)


def asin(x):
    return math.pi / 2 - acos(x)


def atan(x):
    return atan2(x, 1.0)


def scaled(x, k, key):
    c = core.CTX
    if type(x) is SymExt:
        return x.map(lambda o: scaled(o, k, key), False)
    p = c.lift(x)
    r = P.scale(p, k)
    if len(p) == 1 and key == 'deg':
        (m, co), = p.items()
        if len(m) == 1 and co == RAD and c.vars[m[0]].name in 'DA':
            return SymReal(r)
    e, n = c.split_noise(r)
    # fold the noise into one variable
    b = c.mag(n) + c.mag(r) * core.U53 * 4
    v = c.noise((key, P.key(p)), b)
    return mk(P.add(e, {(v,): 1}))


def degrees(x):
    return scaled(x, Fraction(1) / RAD, 'deg')


def radians(x):
    return scaled(x, RAD, 'rad')


def sincos(x):
    c = core.CTX
    p = lift(x)
    e, n = c.split_noise(p)
    k = ('sincos', P.key(e))
    r = c.memo.get(k)
    if r is None:
        # angle = k*D with D = acos(p0)?
        if len(e) == 1:
            (m, co), = e.items()
            info = c.vars[m[0]].info if len(m) == 1 else None
            if info and info[0] == 'acos' and abs(co / RAD - 1) < Fraction(1, 10 ** 9):
                p0 = info[1]
                b = Fraction(1, 10 ** 14)
                n1 = c.noise(('cosn', P.key(p)), b)
                cs = mk(P.add(p0, {(n1,): 1}))
                sn = c.sqrt(mkmax0(1.0 - cs * cs))
                r = (sn, cs)
                c.memo[k] = r
                return r
        evp = lambda s, p=p: c.peval(p, s)
        vc = c.new_var('c', Fraction(-1), Fraction(1), None, 'aux', lambda s: math.cos(evp(s)))
        vs = c.new_var('n', Fraction(-1), Fraction(1), None, 'aux', lambda s: math.sin(evp(s)))
        d = P.sub(P.add({(vc.id, vc.id): 1}, {(vs.id, vs.id): 1}), P.const(1))
        b = Fraction(1, 10 ** 15)
        for v in (vc, vs):
            v.defs.append(core.rawle(P.sub(d, P.const(b))))
            v.defs.append(core.rawle(P.sub(P.neg(d), P.const(b))))
        r = (SymReal({(vs.id,): 1}), SymReal({(vc.id,): 1}))
        c.memo[k] = r
    return r


def mkmax0(x):
    from .shims import sv_max
    return sv_max(x, 0.0)


def sin(x):
    return sincos(x)[0]


def cos(x):
    return sincos(x)[1]


def tan(x):
    s, c = sincos(x)
    return s / c
