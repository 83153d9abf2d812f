# -*- coding: utf-8 -*-
from harness.common import *
from harness.c02 import GRIDS

ASSUMPTIONS = ['segments of nonzero length, coordinates on dyadic grids stated per scenario']


def scenarios(tier):
    out = []
    for n, B, q in GRIDS:
        if tier == 'thorough':
            B = B * 2
        b = 'both segments free, coordinates +-%d step 2^-%d' % (B, q)
        p = dict(B=B, q=q)
        out += [
            dict(name='parallel-' + n, fn='parallel', params=p, bounds=b, covers=['par', 'not']),
            dict(name='point-' + n, fn='point', params=p, bounds=b, covers=['none', 'point']),
            dict(name='swapped-' + n, fn='swapped', params=p, bounds=b),
        ]
    return out


def two(env, B, q):
    a, b = seg(env, 'a', B, q), seg(env, 'b', B, q)
    ux, uy = env.ex(a.j.x) - env.ex(a.i.x), env.ex(a.j.y) - env.ex(a.i.y)
    vx, vy = env.ex(b.j.x) - env.ex(b.i.x), env.ex(b.j.y) - env.ex(b.i.y)
    return a, b, ux * vy - uy * vx


def parallel(env, B, q):
    a, b, c = two(env, B, q)
    L = env.api.LineSegment
    p = a.is_parallel(b)
    env.check(env.Iff(p, c == 0), 'parallel')
    env.check(env.Iff(b.is_parallel(a), c == 0), 'parallel swapped')
    env.check(env.Iff(a.line_reversed.is_parallel(b), c == 0), 'parallel reversed')
    env.check(env.Iff(a.is_intersecting(b), c != 0), 'intersecting')
    env.check(a.is_parallel(a) and a.is_parallel(a.line_reversed), 'parallel to itself')
    col = env.And(crossx(env, a.i, a.j, b.i) == 0, crossx(env, a.i, a.j, b.j) == 0)
    env.check(env.Iff(a.is_collinear(b), col), 'collinear')
    env.check(env.Iff(b.is_collinear(a), col), 'collinear swapped')
    env.cover('par' if env.truth(p) else 'not')


def online(env, s, r, tol):
    c = crossx(env, s.i, s.j, r)
    return near(env, c, 0, tol)


def point(env, B, q):
    a, b, c = two(env, B, q)
    r = a.intersection_point(b)
    env.check(env.Iff(r is None, c == 0), 'none exactly for parallel lines')
    env.observe('none', r is None)
    if r is None:
        env.cover('none')
        return
    env.cover('point')
    env.check(isinstance(r, env.api.Point), 'point')
    # |cross| <= distance * length; the coordinates are rounded to 8 decimals, the quotients carry a relative error
    tol = 4 * B * Fraction(2, 10 ** 8) + Fraction(B * B, 10 ** 8)
    if q == 0:
        tol = tol * B
    env.check(online(env, a, r, tol), 'on the first line')
    env.check(online(env, b, r, tol), 'on the second line')


def swapped(env, B, q):
    a, b, c = two(env, B, q)
    r = a.intersection_point(b)
    s = b.intersection_point(a)
    env.check((r is None) == (s is None), 'defined for both')
    t = a.line_reversed.intersection_point(b)
    env.check((r is None) == (t is None), 'defined for the reversed')
    if r is None:
        return
    # the point may lie far away: the quotients carry a relative error
    TOL = Fraction(B ** 3 * 4 ** q, 2 ** 46) + Fraction(3, 10 ** 8)
    env.check(env.And(near(env, r.x, s.x, TOL), near(env, r.y, s.y, TOL)), 'same for swapped')
    env.check(env.And(near(env, r.x, t.x, TOL), near(env, r.y, t.y, TOL)), 'same for reversed')
