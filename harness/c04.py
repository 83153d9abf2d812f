# -*- coding: utf-8 -*-
from harness.common import *

ASSUMPTIONS = ['segments of nonzero length, coordinates on dyadic grids stated per scenario']
# closed under reversal: the statement about swapped and reversed operands is the same oracle on those operands
VECS = [(1, 0), (-1, 0), (0, 2), (3, 2), (-3, -2), (-2, 3), (6, 4), (2, -2)]
MORE = VECS + [(0, -2), (2, -3), (-6, -4), (-2, 2), (-5, 0), (0, -1), (7, 1), (-1, -6), (4, -6)]


def scenarios(tier):
    out = []
    K = ['none', 'Point', 'LineSegment']
    v = VECS if tier == 'quick' else MORE
    for n, B, q, s in [('mid', 16, 3, 1), ('fine', 2, 6, Fraction(1, 8)), ('large', 64, 0, 10)]:
        vs = [(float(x * s), float(y * s)) for x, y in v]
        b = 'positions free +-%d step 2^-%d, vectors of both from a list of %d times %s' % (B, q, len(v), s)
        p = dict(B=B, q=q, how='t', vs=vs)
        out += [dict(name='common-' + n, fn='common', params=p, bounds=b, covers=K)]
        if n == 'mid' or tier == 'thorough':
            out += [dict(name='overlap-' + n, fn='overlap', params=p, bounds=b, covers=['none', 'some'])]
    b = 'one segment axis-parallel of free position and length, the other free; coordinates +-16 step 1/8'
    for how in 'hv':
        p = dict(B=16, q=3, how=how)
        ms = 8000 if tier == 'quick' else 60000
        out += [dict(name='common-' + how, fn='common', params=p, bounds=b, covers=K, check_ms=ms)]
        if tier == 'thorough':
            out += [dict(name='overlap-' + how, fn='overlap', params=p, bounds=b, covers=['none', 'some'])]
    if tier == 'thorough':
        b = 'all eight coordinates free, +-16 step 1/8'
        p = dict(B=16, q=3, how='f')
        for fn in ('common', 'overlap'):
            out.append(dict(name=fn + '-free', fn=fn, params=p, bounds=b))
    return out


WALL = dict(quick=90, thorough=1500)


def two(env, B, q, how, vs):
    if how == 'f':
        a, b = seg(env, 'a', B, q), seg(env, 'b', B, q)
    elif how == 't':
        a, b = tseg(env, 'a', B, q, vs), tseg(env, 'b', B, q, vs)
    else:
        x, y, z = env.real('ax', -B, B, q), env.real('ay', -B, B, q), env.real('az', -B, B, q)
        P = env.api.Point
        if how == 'h':
            env.assume(env.ex(x) != env.ex(z))
            a = env.api.LineSegment(P((x, y)), P((z, y)))
        else:
            env.assume(env.ex(y) != env.ex(z))
            a = env.api.LineSegment(P((x, y)), P((x, z)))
        b = seg(env, 'b', B, q)
    ux, uy = env.ex(a.j.x) - env.ex(a.i.x), env.ex(a.j.y) - env.ex(a.i.y)
    vx, vy = env.ex(b.j.x) - env.ex(b.i.x), env.ex(b.j.y) - env.ex(b.i.y)
    return a, b, ux * vy - uy * vx


def opp(env, u, v):
    return env.Or(env.And(u <= 0, v >= 0), env.And(u >= 0, v <= 0))


def stretch(env, a, b):
    """shared stretch of collinear segments as parameters along a: (lo, hi)"""
    t1 = dotx(env, a.i, a.j, a.j)
    s0, s1 = dotx(env, a.i, a.j, b.i), dotx(env, a.i, a.j, b.j)
    if env.truth(s0 > s1):
        s0, s1 = s1, s0
    lo = s0 if env.truth(s0 > 0) else env.ex(0)
    hi = s1 if env.truth(s1 < t1) else t1
    return lo, hi


def is_stretch(env, a, r, lo, hi):
    """segment r covers exactly [lo, hi] along a"""
    u, v = dotx(env, a.i, a.j, r.i), dotx(env, a.i, a.j, r.j)
    return env.And(crossx(env, a.i, a.j, r.i) == 0, crossx(env, a.i, a.j, r.j) == 0,
                   env.Or(env.And(u == lo, v == hi), env.And(u == hi, v == lo)))


def kind(r):
    return 'none' if r is None else type(r).__name__


def common(env, B, q, how, vs=None):
    a, b, c = two(env, B, q, how, vs)
    before = a.i.xy + a.j.xy + b.i.xy + b.j.xy
    r = a.common_part(b)
    env.observe('kind', kind(r))
    env.check(a.common_part_type(b) == (None if r is None else kind(r)), 'type')
    after = a.i.xy + a.j.xy + b.i.xy + b.j.xy
    env.check(all(x is y or env.truth(x == y) for x, y in zip(before, after)), 'operands unchanged')
    if env.truth(c == 0):
        if env.truth(crossx(env, a.i, a.j, b.i) != 0):
            env.check(r is None, 'parallel lines share nothing')
        else:
            lo, hi = stretch(env, a, b)
            if env.truth(lo > hi):
                env.check(r is None, 'apart')
            elif env.truth(lo == hi):
                env.check(isinstance(r, env.api.Point), 'touching in a point')
                env.check(env.And(crossx(env, a.i, a.j, r) == 0, dotx(env, a.i, a.j, r) == lo), 'touching point')
            else:
                env.check(isinstance(r, env.api.LineSegment), 'overlapping in a segment')
                env.check(is_stretch(env, a, r, lo, hi), 'shared stretch')
    else:
        straddle = env.And(opp(env, crossx(env, a.i, a.j, b.i), crossx(env, a.i, a.j, b.j)),
                           opp(env, crossx(env, b.i, b.j, a.i), crossx(env, b.i, b.j, a.j)))
        env.check(env.Iff(r is not None, straddle), 'crossing')
        if r is not None:
            env.check(isinstance(r, env.api.Point), 'crossing in a point')
            tol = 8 * B * Fraction(1, 10 ** 7)
            env.check(near(env, crossx(env, a.i, a.j, r), 0, tol), 'on the first')
            env.check(near(env, crossx(env, b.i, b.j, r), 0, tol), 'on the second')
    env.cover(kind(r))


def overlap(env, B, q, how, vs=None):
    a, b, c = two(env, B, q, how, vs)
    r = a.overlap(b)
    col = env.And(c == 0, crossx(env, a.i, a.j, b.i) == 0)
    if env.truth(env.Not(col)):
        env.check(not r[0] and r[1] is None, 'not collinear')
        env.cover('none')
        return
    lo, hi = stretch(env, a, b)
    if env.truth(lo > hi):
        env.check(not r[0] and r[1] is None, 'apart')
    elif env.truth(lo < hi):
        env.check(r[0] and isinstance(r[1], env.api.LineSegment), 'overlap')
        env.check(is_stretch(env, a, r[1], lo, hi), 'shared stretch')
        env.cover('some')
