# -*- coding: utf-8 -*-
import math
from harness.common import *

ASSUMPTIONS = ['arcs: listed angles and numbers of chords, nodes to 4e-8 (two roundings of coordinates to 8 decimals)']
WALL = dict(quick=60, thorough=1200)
ARCS = [(0, 90, 3), (0, 180, 4), (0, 360, 4), (30, 100, 5), (90, 270, 2), (200, 340, 3), (315, 360, 1), (0, 1, 2), (10, 359, 7), (0.5, 90, 3), (0.01, 0.75, 2), (12.25, 13, 1), (180, 360, 2), (359.5, 359.875, 1),
        (0, 360, 5), (45, 135, 1), (120, 121.5, 4), (0, 270, 9), (359, 360, 2), (80, 100, 20)]


FAR = [(4096, 512, 0, 90, 6), (4096, 1024, 10, 350, 24), (1024, 4, 0, 350, 32), (16384, 128, 45, 46, 3)]


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    out.append(dict(name='square', fn='squared', params=dict(q=3 if quick else 6), covers=['cw', 'ccw'], bounds='side 1/8..64, place +-64, step 1/%d' % (8 if quick else 64)))
    for k, (a, b, n) in enumerate(ARCS[:14] if quick else ARCS):
        out.append(dict(name='arc-%d-%s-%s-%d' % (k, a, b, n), fn='arced', params=dict(k=k), path_s=60,
                        bounds='radius 1/8..32 step 1/8, centre +-64 step 1/8, given as a point, a list or a tuple, both directions'))
    for k in range(len(FAR)):
        if not quick or k < 3:
            out.append(dict(name='far-%d' % k, fn='arced', params=dict(k=k, far=True), path_s=60,
                            bounds='%d chords, radius %d..%d step 1/8, centre +-%d step 1/8, given as a point, a list or a tuple, both directions' % (FAR[k][4], FAR[k][1] // 2, FAR[k][1], FAR[k][0])))
    for n in (2, 3, 4) if quick else (2, 3, 4, 5, 6):
        out.append(dict(name='nodes-%d' % n, fn='nodes', params=dict(n=n), bounds='%d nodes anywhere +-16 step 1/8' % n))
        if n > 2:
            out.append(dict(name='ring-%d' % n, fn='ring', params=dict(n=n), bounds='%d different nodes anywhere +-16 step 1/8, the first repeated at the end or not' % n))
    out.append(dict(name='reject', fn='reject', params={}, bounds='arcs with listed impossible values'))
    return out


def squared(env, q):
    a = env.real('a', 0.125, 64, q)
    x, y = env.real('x', -64, 64, q), env.real('y', -64, 64, q)
    cw = env.pick('cw', [False, True])
    env.cover('cw' if cw else 'ccw')
    s = env.api.polygon.square(a=a, x0=x, y0=y, cw=cw)
    ea, ex, ey = env.ex(a), env.ex(x), env.ex(y)
    h = ea / 2
    want = [(ex, ey), (ex + h, ey), (ex + h, ey + ea), (ex - h, ey + ea), (ex - h, ey)]
    if cw:
        want = [want[0]] + want[:0:-1]
    env.check(len(s.segments) == 5, 'five segments')
    for k in range(5):
        g = s.segments[k]
        env.check(near_xy(env, xy(env, g.i), want[k]), 'the vertices in order')
        env.check(near_xy(env, xy(env, g.j), want[(k + 1) % 5]), 'the vertices in order')
    env.check(s.isclosed, 'closed')
    env.check(bool(s.iscw) == cw, 'direction')


def arced(env, k, far=False):
    a, b, n = FAR[k][2:] if far else ARCS[k]
    B, R = FAR[k][:2] if far else (64, 32)
    r = env.real('r', R // 2 if far else 0.125, R, 3)
    x, y = env.real('x', -B, B, 3), env.real('y', -B, B, 3)
    cw = env.pick('cw', [False, True])
    how = env.pick('how', ['point', 'list', 'tuple'])
    c = env.api.Point((x, y)) if how == 'point' else [x, y] if how == 'list' else (x, y)
    p = env.api.polygon.arc(P=c, r=r, alpha_start=a, alpha_end=b, n=n, cw=cw)
    er, ex, ey = env.ex(r), env.ex(x), env.ex(y)
    want = []
    for j in range(n + 1):
        t = math.radians(a + (b - a) * j / float(n))
        want.append((ex + er * Fraction(math.cos(t)), ey + er * Fraction(math.sin(t))))
    if cw:
        want = want[::-1]
    tol = Fraction(4, 10 ** 8)
    env.check(len(p.segments) == n, 'as many chords as asked for')
    for j in range(n):
        s = p.segments[j]
        env.check(near_xy(env, xy(env, s.i), want[j], tol), 'node on the circle at its angle')
        env.check(near_xy(env, xy(env, s.j), want[j + 1], tol), 'node on the circle at its angle')
        if j:
            env.check(near_xy(env, xy(env, s.i), xy(env, p.segments[j - 1].j)), 'the chords are joined')
    if how == 'point':
        env.check(near_xy(env, xy(env, c), (ex, ey)), 'the centre is left alone')
    else:
        env.check(env.And(env.ex(c[0]) == ex, env.ex(c[1]) == ey), 'the centre is left alone')


def chain(env, p):
    return [xy(env, p.segments[0].i)] + [xy(env, s.j) for s in p.segments]


def nodes(env, n):
    ps = [(env.real('x%d' % k, -16, 16, 3), env.real('y%d' % k, -16, 16, 3)) for k in range(n)]
    keep = [(env.ex(a), env.ex(b)) for a, b in ps]
    given = list(ps)
    p = env.api.polygon.polygon_from_nodes(given if env.pick('how', ['list', 'lists']) == 'list' else [list(q) for q in given])
    env.check(len(p.segments) == n - 1, 'a segment from node to node')
    for k in range(n - 1):
        env.check(near_xy(env, xy(env, p.segments[k].i), keep[k]), 'the nodes in the given order')
        env.check(near_xy(env, xy(env, p.segments[k].j), keep[k + 1]), 'the nodes in the given order')
    env.check(len(given) == n and all(g is q for g, q in zip(given, ps)), 'the list is left alone')


def ring(env, n):
    """the clockwise variant of a ring is the ring run backwards from the same node"""
    ps = [(env.real('x%d' % k, -16, 16, 3), env.real('y%d' % k, -16, 16, 3)) for k in range(n)]
    keep = [(env.ex(a), env.ex(b)) for a, b in ps]
    # different neighbours are enough
    for k in range(n):
        env.assume(env.Not(near_xy(env, keep[k], keep[(k + 1) % n])))
    again = env.pick('again', [False, True])
    given = ps + [ps[0]] if again else list(ps)
    p = env.api.polygon.polygon_from_nodes(given, cw=True)
    if not again:
        p.close()
    want = [keep[0]] + keep[::-1]
    env.check(len(p.segments) == n, 'as many segments as the ring has')
    for k in range(n):
        env.check(near_xy(env, xy(env, p.segments[k].i), want[k]), 'backwards from the same node')
        env.check(near_xy(env, xy(env, p.segments[k].j), want[k + 1]), 'backwards from the same node')


def reject(env):
    r = env.real('r', 0, 8, 3)
    a, b, n = env.pick('v', [(-1, 90, 3), (360, 380, 3), (90, 90, 3), (100, 90, 2), (0, 361, 3), (0, 90, 0), (0, 0, 3), (0, 90, 3)])
    res = env.attempt(env.api.polygon.arc, P=(0, 0), r=r, alpha_start=a, alpha_end=b, n=n)
    good = env.And(env.ex(r) > 0, (a, b, n) == (0, 90, 3))
    env.check(env.Iff(good, not hasattr(res, 'name')), 'impossible arcs are rejected')
