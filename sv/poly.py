# -*- coding: utf-8 -*-
"""Sparse multivariate polynomials with exact rational coefficients.

A polynomial is a dict {monomial: coefficient}; a monomial is a sorted tuple of
variable ids (with repetition); the empty tuple is the constant monomial.
Coefficients are ints or Fractions (ints whenever the value is integral).
"""
from fractions import Fraction


def norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def const(c):
    c = norm(c)
    return {(): c} if c else {}


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def const_val(p):
    return p.get((), 0)


def add(a, b, kb=1):
    if len(a) < len(b) and kb == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        c = c * kb
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = norm(v) if type(v) is Fraction else v
            else:
                del r[m]
    return r


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: norm(c * k) for m, c in a.items()}


def neg(a):
    return {m: -c for m, c in a.items()}


def mul(a, b):
    if not a or not b:
        return {}
    if is_const(a):
        return scale(b, a[()])
    if is_const(b):
        return scale(a, b[()])
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                m = tuple(sorted(m1 + m2))
            v = r.get(m)
            c = c1 * c2
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
    return {m: norm(c) for m, c in r.items()}


def key(p):
    return tuple(sorted(p.items()))


def vars_of(p):
    s = set()
    for m in p:
        s.update(m)
    return s


def degree(p):
    return max([len(m) for m in p] or [0])


def lead(p):
    return max(p, key=lambda m: (len(m), m))


def primitive(p):
    """split p = k*(q) + c where q has no constant term and lead coeff of q is 1.
    returns (qkey, k, c)"""
    c = p.get((), 0)
    q = {m: v for m, v in p.items() if m}
    l = lead(q)
    k = q[l]
    if k != 1:
        inv = Fraction(1) / k
        q = {m: norm(v * inv) for m, v in q.items()}
    return q, k, c


def subst(p, sub_):
    """substitute variables by polynomials; sub_: {var: poly}"""
    if not sub_:
        return p
    hit = False
    for m in p:
        for v in m:
            if v in sub_:
                hit = True
                break
        if hit:
            break
    if not hit:
        return p
    r = {}
    for m, c in p.items():
        if any(v in sub_ for v in m):
            t = {(): c}
            for v in m:
                t = mul(t, sub_[v] if v in sub_ else {(v,): 1})
            r = add(r, t)
        else:
            r = add(r, {m: c})
    return r


def exact_div(n, d):
    """exact polynomial quotient n/d or None"""
    if not n:
        return {}
    ld = lead(d)
    cd = d[ld]
    r = dict(n)
    q = {}
    steps = 0
    while r:
        steps += 1
        if steps > 60:
            return None
        lr = lead(r)
        m = list(lr)
        for v in ld:
            if v in m:
                m.remove(v)
            else:
                return None
        m = tuple(m)
        c = norm(Fraction(r[lr]) / cd)
        q = add(q, {m: c})
        r = sub(r, mul({m: c}, d))
    return q
