# -*- coding: utf-8 -*-
from harness.common import *

ASSUMPTIONS = ['segments of nonzero length, coordinates on dyadic grids stated per scenario; divided points to 2e-8']
WALL = dict(quick=60, thorough=900)
T = Fraction(2, 10 ** 8)


def scenarios(tier):
    out = []
    ns = [1, 2, 3, 5, 7] if tier == 'quick' else list(range(1, 25)) + [100]
    for n, B, q in [('mid', 16, 3), ('fine', 2, 8), ('large', 1024, 0)]:
        b = 'free segment, coordinates +-%d step 2^-%d' % (B, q)
        p = dict(B=B, q=q)
        for k in ns:
            out.append(dict(name='divide-%s-%d' % (n, k), fn='divide', params=dict(p, n=k), bounds=b + ', %d parts' % k))
        out.append(dict(name='equal-' + n, fn='equal', params=p, bounds=b + ', 2..5 parts'))
        out.append(dict(name='ratio-' + n, fn='ratio', params=p, bounds=b + ', ratio 0..1 step 2^-16',
                        covers=['start', 'end', 'inside']))
        out.append(dict(name='decimal-' + n, fn='decimal', params=p, bounds=b + ', decimal ratios'))
        out.append(dict(name='insert-' + n, fn='insert', params=p, bounds=b + ', free point', covers=['in', 'out']))
    return out


def divide(env, B, q, n):
    s = seg(env, 's', B, q)
    i, j = s.i, s.j
    a, b, c, d = [env.ex(t) for t in i.xy + j.xy]
    num = env.pick('num', [n, float(n)])
    r = env.api.line.divide_line(s, num)
    env.check(len(r) == n, 'number of parts')
    env.check(r[0].i is i and r[-1].j is j, 'ends are the ends of the segment')
    env.check(s.i is i and s.j is j, 'segment kept')
    env.check(env.And(near_xy(env, xy(env, i), (a, b)), near_xy(env, xy(env, j), (c, d))), 'segment unchanged')
    for k, p in enumerate(r):
        env.check(isinstance(p, env.api.LineSegment), 'segments')
        f = Fraction(k, n)
        env.check(near_xy(env, xy(env, p.i), (a + (c - a) * f, b + (d - b) * f), T), 'start of a part')
        f = Fraction(k + 1, n)
        env.check(near_xy(env, xy(env, p.j), (a + (c - a) * f, b + (d - b) * f), T), 'end of a part')
        if k:
            env.check(r[k - 1].j is p.i or env.truth(same(env, r[k - 1].j, p.i)), 'consecutive')


def equal(env, B, q):
    """the lengths of the parts are equal and sum up to the length"""
    s = seg(env, 's', B, q)
    n = env.pick('n', [2, 3, 4, 5])
    r = env.api.line.divide_line(s, n)
    a, b, c, d = [env.ex(t) for t in s.i.xy + s.j.xy]
    u, v = c - a, d - b
    for p in r:
        x, y = env.ex(p.j.x) - env.ex(p.i.x), env.ex(p.j.y) - env.ex(p.i.y)
        env.check(near_xy(env, (x * n, y * n), (u, v), T * 2 * n), 'parts of equal length and direction')


def ratio(env, B, q):
    s = seg(env, 's', B, q)
    a, b, c, d = [env.ex(t) for t in s.i.xy + s.j.xy]
    t = env.real('t', 0, 1, 16)
    p = env.api.line.point_on_line_at_ratio(s, t)
    x = env.ex(t)
    if env.truth(x == 0):
        env.check(p is s.i or env.truth(same(env, p, s.i)), 'start')
        env.cover('start')
    elif env.truth(x == 1):
        env.check(p is s.j or env.truth(same(env, p, s.j)), 'end')
        env.cover('end')
    else:
        env.check(near_xy(env, xy(env, p), (a + (c - a) * x, b + (d - b) * x), T), 'at the ratio')
        env.cover('inside')
    for k in range(0, 65, 8):
        p = env.api.line.point_on_line_at_ratio(s, k / 64.)
        f = Fraction(k, 64)
        env.check(near_xy(env, xy(env, p), (a + (c - a) * f, b + (d - b) * f), T), 'at a given ratio')


def decimal(env, B, q):
    s = seg(env, 's', B, q)
    a, b, c, d = [env.ex(t) for t in s.i.xy + s.j.xy]
    for t in (0.1, 0.3, 1 / 3., 0.7, 0.999, 1e-3, 1e-6, 1 - 1e-6):
        p = env.api.line.point_on_line_at_ratio(s, t)
        f = Fraction(t)
        env.check(near_xy(env, xy(env, p), (a + (c - a) * f, b + (d - b) * f), T), 'at a given ratio')
    for t in (-0.1, 1.5, 2, -1):
        r = env.attempt(env.api.line.point_on_line_at_ratio, s, t)
        env.check(getattr(r, 'name', '') == 'AssertionError', 'ratios beyond 0..1 are refused')


def insert(env, B, q):
    s = seg(env, 's', B, q)
    p = pt(env, 'p', B, q)
    env.assume(env.And(distinct(env, p, s.i), distinct(env, p, s.j)))
    i, j = s.i, s.j
    w = between(env, i, j, p)
    r = env.api.line.add_point_on_line(s, p)
    env.check(env.Iff(r is not False, w), 'inserted exactly when in the box')
    if r is not False:
        env.check(len(r) == 2, 'two parts')
        env.check(env.And(same(env, r[0].i, i), same(env, r[0].j, p), same(env, r[1].i, p), same(env, r[1].j, j)), 'parts')
        env.cover('in')
    else:
        env.cover('out')
    env.check(s.i is i and s.j is j, 'segment kept')
