# -*- coding: utf-8 -*-
from itertools import permutations
from harness.common import *

ASSUMPTIONS = ['vertices on the dyadic grids stated; area to 1e-9 of its size, angles to 1e-6 degrees']
WALL = dict(quick=60, thorough=1200)
FAM = [[(0, 0), (3, 0), (0, 4)], [(0, 0), (4, 0), (1, 3)], [(0, 0), (1, 5), (-2, 1)], [(0, 0), (8, 1), (4, 1)], [(0, 0), (2, 0), (1, 1)]]


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    b = 'one vertex free +-%d step %s, the others at listed places, orders and directions of the sides listed'
    for k in range(3 if quick else 6):
        out.append(dict(name='area-%d' % k, fn='area', params=dict(k=k, q=2 if quick else 4), covers=['plain', 'degenerate'],
                        bounds=b % (8, '1/4' if quick else '1/16')))
    for k in range(len(FAM)):
        out.append(dict(name='place-%d' % k, fn='place', params=dict(k=k, orders=12 if quick else 48),
                        bounds='listed triangle anywhere +-64 step 1/8, %d orders and directions of the sides' % (12 if quick else 48)))
        out.append(dict(name='size-%d' % k, fn='size', params=dict(k=k),
                        bounds='listed triangle at the origin, stretched by a factor 1/8..32 step 1/8'))
    for k in range(2 if quick else len(FAM)):
        out.append(dict(name='tiny-%d' % k, fn='tiny', params=dict(k=k),
                        bounds='listed triangle anywhere +-16 step 1/8, shrunk by a factor 0.0001, 0.0013 or 0.0032, listed orders and directions of the sides'))
    out.append(dict(name='collinear', fn='collinear', params=dict(B=16), bounds='three points on a line: free base point, listed directions, free positions'))
    return out


BASES = [((0, 0), (4, 0)), ((-3, -2), (1, 3)), ((-5, 2), (-5, -4)), ((2, 7), (7, 2)), ((0, -8), (-8, 0)), ((1, 1), (3, 5))]
FLIPS = [(0, 0, 0), (1, 0, 1), (1, 1, 1), (0, 0, 1), (0, 1, 0), (1, 1, 0), (1, 0, 0), (0, 1, 1)]
ORDERS = [(o, f) for o in permutations(range(3)) for f in FLIPS]
ORDERS = [ORDERS[(k * 17) % 48] for k in range(48)]


def build(env, pts, order, flips, share=True):
    """the three sides in the given order and directions"""
    P, L = env.api.Point, env.api.LineSegment
    ps = [P(c) for c in pts]
    out = []
    for k in range(3):
        a, b = ps[k], ps[(k + 1) % 3]
        if not share:
            a, b = P(pts[k]), P(pts[(k + 1) % 3])
        out.append(L(b, a) if flips[k] else L(a, b))
    return env.api.Triangle([out[k] for k in order])


def area(env, k, q):
    (a, b), (c, d) = BASES[k]
    x, y = env.real('x', -8, 8, q), env.real('y', -8, 8, q)
    ex, ey = env.ex(x), env.ex(y)
    env.assume(env.And(env.Or(ex != a, ey != b), env.Or(ex != c, ey != d)))
    o = env.pick('o', ORDERS[:3])
    cr = (c - a) * (ey - b) - (d - b) * (ex - a)
    r = env.attempt(build, env, [(a, b), (c, d), (x, y)], *o)
    if env.truth(cr == 0):
        env.check(getattr(r, 'name', None) == 'Exception', 'collinear points are no triangle')
        env.cover('degenerate')
        return
    env.check(isinstance(r, env.api.Triangle), 'accepted')
    env.cover('plain')
    s = env.ex(r.area)
    w = Fraction(1, 10 ** 9)
    env.check(env.Or(env.And(cr > 0, near(env, s * 2, cr, w)), env.And(cr < 0, near(env, s * 2, -cr, w))), 'half the cross product')
    env.check(len(r.segments) == 3 and r.isclosed, 'closed')


def two_area(pts):
    return sum(pts[j][0] * pts[(j + 1) % 3][1] - pts[j][1] * pts[(j + 1) % 3][0] for j in range(3))


def corner(pts):
    """oracle: the corners' cosines as (dot, |u|^2 |v|^2)"""
    out = []
    for k in range(3):
        (ox, oy), (ax, ay), (bx, by) = pts[k], pts[(k + 1) % 3], pts[(k + 2) % 3]
        u, v, w, z = ax - ox, ay - oy, bx - ox, by - oy
        out.append((u * w + v * z, (u * u + v * v) * (w * w + z * z)))
    return out


def checks(env, t, pts, scale=1):
    import math
    an = t.angles
    env.check(len(an) == 3, 'three angles')
    env.check(near(env, sum(an), 180, Fraction(1, 10 ** 6)), 'sum of the angles')
    want = sorted(math.degrees(math.acos(max(-1., min(1., d / math.sqrt(n))))) for d, n in corner(pts))
    # the angles, in whatever order of the corners
    for w in want:
        env.check(env.Or(*[near(env, a, Fraction(w), Fraction(1, 10 ** 6)) for a in an]), 'the angle of every corner')
    for a in an:
        env.check(env.Or(*[near(env, a, Fraction(w), Fraction(1, 10 ** 6)) for w in want]), 'no other angle')
    env.check(near(env, t.quality, Fraction(sum(abs(w - 60) for w in want)), Fraction(1, 10 ** 5)), 'quality')


def place(env, k, orders):
    x, y = env.real('x', -64, 64, 3), env.real('y', -64, 64, 3)
    o = env.pick('o', ORDERS[k:] + ORDERS[:k] if orders == 48 else (ORDERS[k * 8:] + ORDERS)[:orders])
    t = build(env, [(x + a, y + b) for a, b in FAM[k]], *o, share=env.pick('share', [True, False]))
    before = coords(t)
    cr = abs(two_area(FAM[k]))
    env.check(near(env, env.ex(t.area) * 2, cr, Fraction(1, 10 ** 8)), 'area')
    n = Fraction(0)
    import math
    for j in range(3):
        (a, b), (c, d) = FAM[k][j], FAM[k][(j + 1) % 3]
        n += Fraction(math.sqrt((a - c) ** 2 + (b - d) ** 2))
    env.check(near(env, sum(s.norm for s in t.segments), n, Fraction(1, 10 ** 8)), 'perimeter')
    checks(env, t, FAM[k])
    env.check(coords(t) == before, 'asking leaves the triangle alone')
    v = t.detailled_area
    env.check(all(env.truth(near(env, w, env.ex(t.area), Fraction(1, 10 ** 8))) for w in v.values()), 'detailed area')


def size(env, k):
    f = env.real('f', 0.125, 32, 3)
    t = build(env, [(f * a, f * b) for a, b in FAM[k]], *ORDERS[k])
    e = env.ex(f)
    cr = abs(two_area(FAM[k]))
    env.check(near(env, env.ex(t.area) * 2, e * e * cr, Fraction(1, 10 ** 7)), 'area of a scaled triangle')


def tiny(env, k):
    x, y = env.real('x', -16, 16, 3), env.pick('y', [-3.0, 0.0, 7.125])
    f = env.pick('f', [1, 13, 32])
    o = env.pick('o', ORDERS[k:k + 3])
    t = env.attempt(build, env, [(x + f * a * 0.0001, y + f * b * 0.0001) for a, b in FAM[k]], *o)
    env.check(isinstance(t, env.api.Triangle), 'a tiny triangle is a triangle')
    e = Fraction(f, 10000)
    cr = abs(two_area(FAM[k]))
    env.check(near(env, env.ex(t.area) * 2, e * e * cr, Fraction(1, 10 ** 10)), 'area of a tiny triangle')
    env.check(env.ex(t.area) > 0, 'positive')


def collinear(env, B):
    x, y = env.real('x', -B, B, 3), env.real('y', -B, B, 3)
    u, v = env.pick('d', [(1, 0), (0, 1), (1, 1), (-3, 1), (5, 3), (-2, 7)])
    k, l = env.pick('kl', [(1, 2), (2, -1), (-1, 3), (3, 5), (7, -2)])
    r = env.attempt(build, env, [(x, y), (x + k * u, y + k * v), (x + l * u, y + l * v)], *env.pick('o', ORDERS[:4]))
    env.check(getattr(r, 'name', None) == 'Exception', 'collinear points are no triangle')
