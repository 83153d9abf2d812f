# -*- coding: utf-8 -*-
from harness.common import *

ASSUMPTIONS = ['coordinates on dyadic grids (stated per scenario), so that no point is nearer to a line than the '
               'tolerance without being on it']

GRIDS = [('mid', 16, 3), ('fine', 2, 8), ('large', 1024, 0)]


def scenarios(tier):
    out = []
    for n, B, q in GRIDS:
        if tier == 'thorough':
            B = B * 4
        b = 'all coordinates free, +-%d step 2^-%d' % (B, q)
        p = dict(B=B, q=q)
        out += [
            dict(name='sides-' + n, fn='sides', params=p, bounds=b, covers=['left', 'right', 'on']),
            dict(name='reversed-' + n, fn='reverse', params=p, bounds=b),
            dict(name='distance-' + n, fn='dist', params=p, bounds=b, covers=['on', 'off']),
        ]
    out.append(dict(name='distance-short', fn='short', params=dict(B=2, q=4, s=1000), covers=['off'],
                    bounds='a short line: second point within 0.01 of the first, step 0.00001; point +-2 step 1/16'))
    out.append(dict(name='vectors', fn='vectors', params=dict(B=16, q=3), bounds='all coordinates free, +-16 step 1/8'))
    return out


def sides(env, B, q):
    a, b, p = pt(env, 'a', B, q), pt(env, 'b', B, q), pt(env, 'p', B, q)
    env.assume(distinct(env, a, b))
    l = env.api.LineSegment(a, b)
    c = crossx(env, a, b, p)
    r = l.is_point_to_right(p)
    env.check(env.Iff(r, c < 0), 'right')
    r2 = l.is_point_to_left(p)
    env.check(env.Iff(r2, c > 0), 'left')
    r3 = l.is_point_on_line(p)
    env.check(env.Iff(r3, c == 0), 'on')
    env.check((bool(r) + bool(r2) + bool(r3)) == 1, 'exactly one')
    env.cover('right' if env.truth(r) else 'left' if env.truth(r2) else 'on')
    env.observe('r', (bool(r), bool(r2), bool(r3)))
    env.check(env.And(not l.is_point_to_right(a), not l.is_point_to_left(b)), 'endpoints')
    env.check(env.And(l.is_point_on_line(a), l.is_point_on_line(b)), 'endpoints on the line')


def reverse(env, B, q):
    a, b, p = pt(env, 'a', B, q), pt(env, 'b', B, q), pt(env, 'p', B, q)
    env.assume(distinct(env, a, b))
    l = env.api.LineSegment(a, b)
    m = env.api.LineSegment(b, a)
    env.check(env.Iff(l.is_point_to_right(p), m.is_point_to_left(p)), 'right is left of the reversed')
    env.check(env.Iff(l.is_point_to_left(p), m.is_point_to_right(p)), 'left is right of the reversed')
    env.check(env.Iff(l.is_point_on_line(p), m.is_point_on_line(p)), 'on the reversed')


def dist(env, B, q):
    a, b, p = pt(env, 'a', B, q), pt(env, 'b', B, q), pt(env, 'p', B, q)
    env.assume(distinct(env, a, b))
    l = env.api.LineSegment(a, b)
    c = crossx(env, a, b, p)
    d = env.ex(l.line_point_distance(p))
    n = env.ex(l.norm)           # decided by the scenario vectors
    t = Fraction(B * B, 10 ** 11)
    env.check(d >= 0, 'nonnegative')
    env.check(env.Or(near(env, d * n, c, t), near(env, d * n, -c, t)), 'perpendicular distance')
    env.check(env.Iff(d == 0, c == 0), 'zero exactly on the line')
    e = env.ex(env.api.LineSegment(b, a).line_point_distance(p))
    env.check(near(env, e, d, Fraction(B, 10 ** 10)), 'same for the reversed line')
    env.cover('on' if env.truth(c == 0) else 'off')


def short(env, B, q, s):
    a, p = pt(env, 'a', B, q), pt(env, 'p', B, q)
    u, v = env.real('u', -s, s, 0), env.real('v', -s, s, 0)
    env.assume(env.Or(env.ex(u) != 0, env.ex(v) != 0))
    b = env.api.Point((a.x + u * 0.00001, a.y + v * 0.00001))
    l, m = env.api.LineSegment(a, b), env.api.LineSegment(b, a)
    c = crossx(env, a, b, p)
    d, e, n = env.ex(l.line_point_distance(p)), env.ex(m.line_point_distance(p)), env.ex(l.norm)
    t = Fraction(1, 10 ** 9)
    env.check(d >= 0, 'nonnegative')
    env.check(env.Or(near(env, d * n, c, t), near(env, d * n, -c, t)), 'perpendicular distance')
    env.check(env.Or(near(env, e * n, c, t), near(env, e * n, -c, t)), 'perpendicular distance, reversed line')
    env.cover('off')


def vectors(env, B, q):
    a, b, c, d = pt(env, 'a', B, q), pt(env, 'b', B, q), pt(env, 'c', B, q), pt(env, 'd', B, q)
    env.assume(env.And(distinct(env, a, b), distinct(env, c, d)))
    L = env.api.LineSegment
    l, m = L(a, b), L(c, d)
    ux, uy = env.ex(b.x) - env.ex(a.x), env.ex(b.y) - env.ex(a.y)
    vx, vy = env.ex(d.x) - env.ex(c.x), env.ex(d.y) - env.ex(c.y)
    env.check(env.ex(l.crossproduct(m)) == ux * vy - uy * vx, 'cross product')
    env.check(env.ex(l.dotproduct(m)) == ux * vx + uy * vy, 'dot product')
    env.check(near_xy(env, (env.ex(l.delta_x), env.ex(l.delta_y)), (ux, uy)), 'projections')
    n = env.ex(l.norm)
    env.check(near(env, n * n, ux * ux + uy * uy, Fraction(1, 10 ** 8)), 'length')
    u = l.unitvector
    env.check(near(env, env.ex(u[0]) * n, ux, Fraction(1, 10 ** 8)), 'unit vector x')
    env.check(near(env, env.ex(u[1]) * n, uy, Fraction(1, 10 ** 8)), 'unit vector y')
    env.check(env.ex(l.crossproduct_commonstart(L(a, c))) == crossx(env, a, b, c), 'common start')
    bb = l.bounding_box
    ax, ay, bx, by = xy(env, a) + xy(env, b)
    for lo, hi, u, v, s in ((bb[0][0], bb[0][1], ax, bx, 'x'), (bb[1][0], bb[1][1], ay, by, 'y')):
        lo, hi = env.ex(lo), env.ex(hi)
        env.check(env.And(lo <= u, lo <= v, env.Or(lo == u, lo == v)), 'box low ' + s)
        env.check(env.And(hi >= u, hi >= v, env.Or(hi == u, hi == v)), 'box high ' + s)
