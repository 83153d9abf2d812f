# -*- coding: utf-8 -*-
import math
from harness.common import *

ASSUMPTIONS = ['points on the sphere and the line to 1e-6 plus 1e-9 of the size of the numbers (roundings of the square root)']
WALL = dict(quick=90, thorough=1800)
DIRS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, -1), (2, -1, 2), (0, 3, 4), (1, 2, 3)]


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for k in range(len(DIRS)):
        out.append(dict(name='line-%d' % k, fn='meet', params=dict(k=k, B=32 if quick else 64), path_s=60, covers=['none', 'one', 'two'],
                        bounds='lines along %s through any point, second point at any multiple, all spheres, +-%d step 1/2' % (DIRS[k], 32 if quick else 64)))
    for k in range(3):
        out.append(dict(name='graze-%d' % k, fn='graze', params=dict(k=k, q=14 if quick else 20), path_s=60, covers=['none', 'one', 'two'],
                        bounds='lines along an axis at distances 1..8 from the centre, spheres of radius 1..8, step 2^-%d' % (14 if quick else 20)))
    out.append(dict(name='centre', fn='centre', params=dict(k=1 if quick else 3), path_s=60, covers=['none', 'one', 'two'],
                    bounds='all directions in %s of the axes' % ('one plane' if quick else 'the planes') + ', sphere about the origin, +-4 step 1'))
    out.append(dict(name='far', fn='far', params={}, path_s=60, covers=['none', 'one', 'two'],
                    bounds='the points giving the line next to each other, the sphere 4096..8192 away from them, up to 8 large, step 1/2'))
    out.append(dict(name='kinds', fn='kinds', params={}, bounds='points as lists and tuples, arguments unchanged'))
    return out


def judge(env, l1, l2, sp, r, chord=True):
    """exact distance of the centre from the line against the radius"""
    e = env.ex
    d = [e(b) - e(a) for a, b in zip(l1, l2)]
    w = [e(c) - e(a) for a, c in zip(l1, sp)]
    dd = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
    dw = d[0] * w[0] + d[1] * w[1] + d[2] * w[2]
    ww = w[0] * w[0] + w[1] * w[1] + w[2] * w[2]
    gap = dd * (ww - e(r) * e(r)) - dw * dw      # > 0: misses
    got = env.api.extra.sphere_line_intersection(l1, l2, sp, r)
    env.check(len(got) == 2, 'a pair of points')
    pts = [p for p in got if p is not None]
    if env.truth(gap > 0):
        env.cover('none')
        env.check(not pts, 'a line missing the sphere has no common point')
    elif env.truth(gap == 0):
        env.cover('one')
        env.check(len(pts) == 1, 'a tangent has one common point')
    else:
        env.cover('two')
        env.check(len(pts) == 2, 'a secant has two common points')
    tol = Fraction(1, 10 ** 5)
    for p in pts:
        v = [e(x) - e(a) for x, a in zip(p, l1)]
        for i, j in ((0, 1), (1, 2), (0, 2)):
            env.check(near(env, v[i] * d[j], v[j] * d[i], tol), 'on the line')
    if len(pts) == 2:
        # the middle of the two is the foot of the perpendicular, each is as far from it as the other
        for k in range(3):
            m = (e(pts[0][k]) + e(pts[1][k])) - 2 * e(l1[k])
            env.check(near(env, m * dd, 2 * dw * d[k], tol), 'the middle is the foot of the perpendicular')
        s = sum(((e(pts[0][k]) - e(pts[1][k])) * d[k] for k in range(3)), e(0))
        env.check(s > 0, 'the first one is farther along the line')
        # half the chord squared times dd is -gap
        if chord:
            env.check(near(env, s * s, -4 * gap, tol), 'on the sphere')
    elif len(pts) == 1:
        for k in range(3):
            env.check(near(env, (e(pts[0][k]) - e(l1[k])) * dd, dw * d[k], tol), 'the foot of the perpendicular')


def meet(env, k, B):
    u = DIRS[k]
    l1 = tuple(env.real('l%d' % i, -B, B, 1) for i in range(3))
    n = env.pick('n', [1, -2, 0.5, 4])
    l2 = tuple(l1[i] + n * u[i] for i in range(3))
    sp = tuple(env.real('s%d' % i, -B, B, 1) for i in range(3))
    r = env.real('r', 0.5, B, 1)
    judge(env, l1, l2, sp, r)


def graze(env, k, q):
    """distance and radius almost the same"""
    u = [0.0, 0.0, 0.0]
    u[k] = env.pick('n', [1.0, -4.0])
    l1 = (0.0, 0.0, 0.0)
    s = [0.0, 0.0, 0.0]
    s[k] = 2.0
    s[(k + 1) % 3] = env.real('s', 1, 8, q) * env.pick('side', [1, -1])
    judge(env, l1, tuple(u), tuple(s), env.real('r', 1, 8, q))


def far(env):
    """the points giving the line are far from the sphere, and close to each other"""
    k = env.pick('k', [0, 1, 2])
    s = [0.0, 0.0, 0.0]
    s[k] = env.real('d', 4096, 8192, 1) * env.pick('side', [1, -1])
    s[(k + 1) % 3] = env.real('s', -8, 8, 1)
    l1, l2 = [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]
    l2[k] = env.pick('n', [1.0, -0.5])
    judge(env, l1, l2, s, env.real('r', 0.5, 8, 1))


def centre(env, k):
    i, j = env.pick('ax', [(0, 1), (1, 2), (0, 2)][:k])
    z = env.real('z', -3, 3, 0)
    l1, l2 = [z, z, z], [z, z, z]
    l1[i], l1[j] = env.real('a', -4, 4, 0), env.real('b', -4, 4, 0)
    l2[i], l2[j] = env.real('c', -4, 4, 0), env.real('d', -4, 4, 0)
    env.assume(env.Or(env.ex(l1[i]) != env.ex(l2[i]), env.ex(l1[j]) != env.ex(l2[j])))
    judge(env, l1, l2, (0, 0, 0), env.pick('r', [1, 5]), False)


def kinds(env):
    x, r = env.real('x', -8, 8, 2), env.real('r', 0.25, 8, 2)
    kind = env.pick('kind', [list, tuple])
    a, b, s = kind([x, -3.0, 1.0]), kind([x, 5.0, 1.0]), kind([0.0, 0.0, 1.0])
    judge(env, a, b, s, r)
    for p, w in ((a, (x, -3, 1)), (b, (x, 5, 1)), (s, (0, 0, 1))):
        env.check(len(p) == 3 and env.truth(env.And(*[env.ex(u) == env.ex(v) for u, v in zip(p, w)])), 'arguments unchanged')
