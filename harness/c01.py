# -*- coding: utf-8 -*-
from harness.common import *

ASSUMPTIONS = ['coordinates within +-64 (distance: +-16) on a grid of 1/8; for the tolerance of equality a second '
               'coordinate offset of up to 2e-5 in steps of 2^-22, excluding a band of 2e-8 around the tolerance']


def scenarios(tier):
    B = 64 if tier == 'quick' else 256
    g = 'coordinates +-%d step 1/8' % B
    return [
        dict(name='equality', fn='equality', params=dict(B=B), bounds=g, covers=['eq', 'ne']),
        dict(name='tolerance', fn='tolerance', params=dict(B=B), bounds=g + ' plus fine offset', covers=['in', 'out']),
        dict(name='rounding', fn='rounding', params=dict(B=B), bounds='coordinates +-%d step 2^-40' % B),
        dict(name='arithmetic', fn='arithmetic', params=dict(B=B), bounds=g),
        dict(name='sets', fn='sets', params=dict(B=B), bounds=g, covers=['one', 'two', 'three']),
        dict(name='invalid', fn='invalid', params=dict(B=B), bounds=g),
        dict(name='overwrite', fn='overwrite', params=dict(B=B), bounds=g),
        dict(name='distance', fn='dist', params=dict(B=16), bounds='coordinates +-16 step 1/8'),
        dict(name='distance-shift', fn='dist_shift', params=dict(B=16), bounds='coordinates +-16 step 1/8'),
        dict(name='intex', fn='intex', params=dict(B=B), bounds=g),
    ]


def equality(env, B):
    a, b = pt(env, 'a', B), pt(env, 'b', B)
    eq = a == b
    want = same(env, a, b)
    env.check(env.Iff(eq, want), 'eq')
    env.check(env.Iff(b == a, want), 'symmetric')
    env.check(env.Iff(a != b, env.Not(want)), 'ne')
    env.check(a == a, 'reflexive')
    env.check(env.api.Point((a.x, a.y)) == a, 'same coordinates')
    env.cover('eq' if env.truth(want) else 'ne')
    env.observe('eq', bool(eq))


def tolerance(env, B):
    P = env.api.Point
    x, y = env.real('x', -B, B, 3), env.real('y', -B, B, 3)
    dx = env.real('dx', Fraction(-84, 2 ** 22), Fraction(84, 2 ** 22), 22)
    dy = env.real('dy', Fraction(-84, 2 ** 22), Fraction(84, 2 ** 22), 22)
    a, b = P((x, y)), P((x + dx, y + dy))
    t = Fraction(1, 100000)
    m = Fraction(2, 10 ** 8)
    ex, ey = env.ex(dx), env.ex(dy)
    inside = env.And(ex < t - m, ex > m - t, ey < t - m, ey > m - t)
    outside = env.Or(ex > t + m, ex < -t - m, ey > t + m, ey < -t - m)
    env.assume(env.Or(inside, outside))
    eq = a == b
    env.check(env.Iff(eq, inside), 'tolerance')
    env.check(env.Iff(b == a, inside), 'tolerance symmetric')
    env.check(env.Iff(a != b, env.Not(inside)), 'tolerance ne')
    env.cover('in' if env.truth(inside) else 'out')


def rounding(env, B):
    x, y = env.real('x', -B, B, 40), env.real('y', -B, B, 40)
    p = env.api.Point((x, y))
    t = Fraction(51, 10 ** 10)
    env.check(env.And(near(env, p.x, x, t), near(env, p.y, y, t)), 'rounded to 8 decimals')
    env.check(isinstance(p.x, float) and isinstance(p.y, float), 'floats')
    q = env.api.Point((round(x, 8), round(y, 8)))
    env.check(env.And(near(env, p.x, q.x, Fraction(1, 10 ** 14)), near(env, p.y, q.y, Fraction(1, 10 ** 14))),
              'exactly the 8 decimals')
    r = env.api.Point((p.x, p.y))
    env.check(same(env, r, p), 'rounding twice')
    env.check(p.xy == (p.x, p.y), 'xy')
    bb = p.bounding_box()
    env.check(env.And(bb[0][0] == p.x, bb[0][1] == p.x, bb[1][0] == p.y, bb[1][1] == p.y), 'box')
    k = env.api.Point((3, -2))
    env.check(k.xy == (3.0, -2.0) and isinstance(k.x, float), 'ints')


def arithmetic(env, B):
    a, b = pt(env, 'a', B), pt(env, 'b', B)
    ax, ay, bx, by = xy(env, a) + xy(env, b)
    s, d, e = a + b, a - b, b - a
    env.check(near_xy(env, xy(env, s), (ax + bx, ay + by)), 'sum')
    env.check(near_xy(env, xy(env, d), (ax - bx, ay - by)), 'difference')
    env.check(near_xy(env, xy(env, e), (bx - ax, by - ay)), 'difference swapped')
    env.check(near_xy(env, xy(env, a), (ax, ay)), 'left operand unchanged')
    env.check(near_xy(env, xy(env, b), (bx, by)), 'right operand unchanged')
    env.check(b + a == s, 'commutative')
    env.check(d + b == a, 'inverse')
    env.check(isinstance(s, env.api.Point) and s.isvalid and d.isvalid, 'valid')


def sets(env, B):
    P = env.api.Point
    a, b, c = pt(env, 'a', B), pt(env, 'b', B), pt(env, 'c', B)
    n = len({a, b, c})
    ab, bc, ac = same(env, a, b), same(env, b, c), same(env, a, c)
    if env.truth(ab):
        want = 1 if env.truth(bc) else 2
    elif env.truth(env.Or(bc, ac)):
        want = 2
    else:
        want = 3
    env.check(n == want, 'distinct points')
    env.cover(['one', 'two', 'three'][want - 1])
    env.check(hash(a) == hash(P((a.x, a.y))), 'hash of equal points')
    d = {a: 1}
    env.check(env.Iff(b in d, ab), 'lookup')
    env.check(env.Iff(b in [a], ab), 'list membership')


def invalid(env, B):
    P = env.api.Point
    a = pt(env, 'a', B)
    e = P()
    env.check(a.isvalid and not e.isvalid, 'validity')
    env.check(not (e == a) and not (a == e) and not (e == e), 'empty equals nothing')
    env.check((e != a) and (a != e), 'empty differs')
    env.check(e._isempty() and not a._isempty(), 'isempty')
    for bad in ((None, None), (a.x, None), (None, a.y), (a.x,), ('x', 'y')):
        r = env.attempt(lambda: P(bad))
        if not hasattr(r, 'exc'):
            v = env.attempt(lambda: r.isvalid)
            env.check(hasattr(v, 'exc') or not v, 'malformed coordinates')
    b = P((a.x, a.y))
    env.check(b == a, 'before')
    b._empty()
    env.check(not b.isvalid, 'emptied is invalid')
    env.check(not (b == a) and not (a == b), 'emptied equals nothing')
    c = P((a.x, a.y))
    c.isvalid
    c._empty()
    env.check(not c.isvalid, 'emptied after asking is invalid')
    c._set_coords((a.x, a.y))
    env.check(c.isvalid and c == a, 'valid again')


def overwrite(env, B):
    a, b = pt(env, 'a', B), pt(env, 'b', B)
    bx, by = xy(env, b)
    a._set_coords((b.x, b.y))
    env.check(near_xy(env, xy(env, a), (bx, by)), 'overwritten')
    env.check(a == b and len({a, b}) == 1, 'equal after overwriting')
    env.check(a.isvalid, 'valid')


def dist(env, B):
    d_ = env.api.point.distance
    a, b = pt(env, 'a', B), pt(env, 'b', B)
    ax, ay, bx, by = xy(env, a) + xy(env, b)
    d = d_(a, b)
    want = (ax - bx) * (ax - bx) + (ay - by) * (ay - by)
    env.check(near(env, d * d, want, Fraction(1, 10 ** 8)), 'euclidean')
    env.check(env.ex(d) >= 0, 'nonnegative')
    e = d_(b, a)
    env.check(near(env, d, e, Fraction(1, 10 ** 10)), 'symmetric')
    env.check(near(env, a.distance(b), d, Fraction(1, 10 ** 10)), 'method')
    env.check(env.Iff(d == 0, same(env, a, b)), 'zero only for coincident points')


def dist_shift(env, B):
    d_ = env.api.point.distance
    P = env.api.Point
    a, b = pt(env, 'a', B), pt(env, 'b', B)
    t = pt(env, 't', B)
    env.check(near(env, d_(a + t, b + t), d_(a, b), Fraction(1, 10 ** 9)), 'position independent')
    env.check(near(env, d_(P((a.y, a.x)), P((b.y, b.x))), d_(a, b), Fraction(1, 10 ** 9)), 'mirrored')


def intex(env, B):
    I = env.api.point.IntexPoint
    a = pt(env, 'a', B)
    s = env.api.LineSegment(a, env.api.Point((0, 0)))
    i = I((a.x, a.y), segment=s)
    env.check(i.xy == a.xy and i.segment is s and i.isvalid, 'marker point')
    env.check(isinstance(i, env.api.Point), 'is a point')
