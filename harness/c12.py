# -*- coding: utf-8 -*-
from harness.common import *

ASSUMPTIONS = ['clouds with at least three points not on one line; coordinates on the grids stated']
WALL = dict(quick=90, thorough=1500)
CLOUDS = dict(
    GRID=[(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1), (0, 2), (1, 2), (2, 2)],
    TWICE=[(3, 1), (0, 0), (3, 1), (1, 2), (0, 0), (1, 1), (1, 2)],
    RING=[(2, 0), (4, 1), (5, 3), (4, 5), (2, 6), (0, 5), (-1, 3), (0, 1), (2, 3)],
    LINE1=[(0, 0), (1, 1), (2, 2), (3, 3), (0, 3)],
    LINE2=[(0, 0), (1, 1), (2, 2), (3, 3), (3, 0)],
    VERT=[(0, 0), (0, 1), (0, 2), (0, 5), (1, 1), (1, 2), (1, 0)],
    SMALL=[(0.000244140625 * a, 0.000244140625 * b) for a, b in ((0, 0), (1, 3), (2, 0), (2, 2), (3, 1), (0, 2), (1, 1))],
    CLOSE=[(0, 0), (0.000244140625, 6), (-0.000244140625, 3), (0, 8), (8, 0), (8.5, 0.000244140625), (8, 8), (8 + 0.000244140625, 4)],
    HUGE=[(1024 * a, 4096 * b) for a, b in ((0, 0), (1, 3), (2, 0), (2, 2), (3, 1), (0, 2), (1, 1))],
    MANY=ring_of(40) + ring_of(12, r=9),
    FEW=ring_of(48, dent=0.5)[::5] + ring_of(48, dent=0.5)[1::7],
    NEAR=[(0, 0), (8, 0), (4, 0.0078125), (8, 8), (0, 8), (4, 7.9921875), (0.0078125, 4), (7.9921875, 4)],
)


def scenarios(tier):
    out = []
    for n in sorted(CLOUDS):
        out.append(dict(name='cloud-' + n, fn='cloud', params=dict(name=n), bounds='cloud %s at +-64 step 1/8, listed orders' % n))
    b = '%d fixed and %d free points of +-%d step 1/8'
    out.append(dict(name='free3', fn='free', params=dict(base=[], n=3), bounds=b % (0, 3, 8)))
    out.append(dict(name='free2', fn='free', params=dict(base=[(0, 0), (4, 1)], n=2), bounds=b % (2, 2, 8)))
    out.append(dict(name='free1', fn='free', params=dict(base=[(0, 0), (4, 0), (5, 3), (2, 5), (2, 2)], n=1), bounds=b % (5, 1, 8)))
    out.append(dict(name='line1', fn='free', params=dict(base=[(0, 0), (2, 1), (4, 2), (1, 3)], n=1), bounds=b % (4, 1, 8)))
    if tier == 'thorough':
        out.append(dict(name='free4', fn='free', params=dict(base=[], n=4), bounds=b % (0, 4, 8)))
        out.append(dict(name='free32', fn='free', params=dict(base=[(0, 0), (4, 0), (1, 3)], n=2), bounds=b % (3, 2, 8)))
    return out


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def judge(env, pts, tol=None):
    raw = [(env.ex(a), env.ex(b)) for a, b in pts]
    h = env.api.polygon.convex_hull(pts)
    env.check(isinstance(h, env.api.PolygonLine), 'a polygon')
    s = h.segments
    n = len(s)
    env.check(n >= 3, 'at least three sides')
    v = [xy(env, t.i) for t in s]
    env.check(bool(h.isclosed), 'closed')
    for k in range(n):
        env.check(near_xy(env, xy(env, s[k].j), v[(k + 1) % n]), 'head to tail')
        env.check(cross(v[k], v[(k + 1) % n], v[(k + 2) % n]) > 0, 'strict left turn')
        env.check(env.Or(*[near_xy(env, v[k], p, tol) for p in raw]), 'vertices are points of the cloud')
        for p in raw:
            env.check(cross(v[k], v[(k + 1) % n], p) >= -(tol or 0) * 16, 'contains the cloud')
    for p in raw:
        env.check(env.Or(v[0][0] < p[0] - (tol or 0), env.And(near(env, v[0][0], p[0], tol or 0), v[0][1] <= p[1] + (tol or 0))), 'starts at the smallest point')
    for k in range(n):
        env.check(s[k].j is s[(k + 1) % n].i, 'vertices are shared')
    return h


def cloud(env, name):
    x, y = env.real('x', -64, 64, 3), env.real('y', -64, 64, 3)
    pts = [(x + a, y + b) for a, b in CLOUDS[name]]
    how = env.pick('order', [0, 1, 2, 3])
    n = len(pts)
    if how == 1:
        pts = pts[::-1]
    elif how == 2:
        pts = [pts[(k * 2) % n] for k in range(n)] + pts[:3]
        if n % 2 == 0:
            pts += [p for p in [(x + a, y + b) for a, b in CLOUDS[name]]]
    elif how == 3:
        pts = pts[n // 2:] + pts[:n // 2] + pts
    c = list(pts)
    h = judge(env, pts, Fraction(1, 10 ** 7) if name in ('SMALL', 'CLOSE') else None)
    env.check(len(c) == len(pts) and all(a is b for a, b in zip(c, pts)), 'the cloud is left as it is')
    if how == 0:
        env.check(bool(h.isvalid and h.isconvex and h.isccw), 'valid, convex and counter-clockwise')


def free(env, base, n):
    pts = [(float(a), float(b)) for a, b in base]
    for k in range(n):
        pts.append((env.real('x%d' % k, -8, 8, 3), env.real('y%d' % k, -8, 8, 3)))
    raw = [(env.ex(a), env.ex(b)) for a, b in pts]
    m = len(pts)
    env.assume(env.Or(*[cross(raw[a], raw[b], raw[c]) != 0 for a in range(m) for b in range(a) for c in range(b)]))
    judge(env, pts)
