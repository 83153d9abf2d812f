# -*- coding: utf-8 -*-
from harness.common import *

ASSUMPTIONS = ['closed simple outlines: templates at a free position, or fixed vertices and one free vertex',
               'coordinates on the grids stated']
WALL = dict(quick=90, thorough=1500)
COMB = [(0, 0), (9, 0), (9, 3), (8, 3), (8, 1), (7, 1), (7, 3), (6, 3), (6, 1), (5, 1), (5, 3), (4, 3), (4, 1), (3, 1), (3, 3), (0, 3)]
NOTCH = [(0, 0), (6, 0), (6, 4), (3, 1), (0, 4)]
STAR = [(0, 0), (3, 1), (6, 0), (5, 3), (6, 6), (3, 5), (0, 6), (1, 3)]          # as many left as right turns
SPIRAL = [(0, 0), (7, 0), (7, 7), (2, 7), (2, 3), (4, 3), (4, 5), (3, 5), (3, 6), (5, 6), (5, 2), (1, 2), (1, 8), (0, 8)]
SAW = [(0, 0), (1, 1), (2, 0), (3, 1), (4, 0), (5, 1), (6, 0), (6, 9), (0, 9)]
MID2 = [(0, 0), (1, 0), (2, 0), (3, 0), (3, 2), (0, 2), (0, 1)]
ALL = dict(SHAPES, COMB=COMB, NOTCH=NOTCH, STAR=STAR, SPIRAL=SPIRAL, SAW=SAW, MID2=MID2)
CONVEX = ('TRI', 'RTRI', 'SQ', 'TRAP', 'PENT', 'MIDS', 'MID2')


def scenarios(tier):
    out = []
    for n in sorted(ALL):
        out.append(dict(name='shape-' + n, fn='shape', params=dict(shape=n), covers=['ccw', 'cw'],
                        bounds='outline %s at +-64 step 1/8, every starting vertex, both directions, mirrored, shared or separate vertices' % n))
    b = '%d fixed vertices and one free vertex +-%d step %s'
    for n, base, at in [('triangle', [(0, 0), (4, 1)], 2), ('quad', [(0, 0), (4, 0), (3, 4)], 2), ('penta', [(-3, 0), (0, -2), (3, 0), (1, 3)], 3),
                        ('straight', [(0, 0), (2, 0), (4, 0), (4, 3)], 1)]:
        out.append(dict(name='free-' + n, fn='free', params=dict(base=base, at=at), bounds=b % (len(base), 8, '1/4')))
    for n in sorted(FINE):
        out.append(dict(name='fine-' + n, fn='fine', params=dict(shape=n), covers=['ccw', 'cw'],
                        bounds='outline %s in units of 0.0001 anywhere +-20 step 0.0001, every starting vertex, both directions' % FINE[n]))
    for n, d in ((24, 1.0), (20, 0.5)):
        out.append(dict(name='many-%d' % n, fn='many', params=dict(n=n, dent=d), covers=['ccw', 'cw'], bounds='outline of %d vertices at +-64 step 1/8, both directions' % n))
    if tier == 'thorough':
        out.append(dict(name='free2', fn='free2', params={}, bounds='quadrangle with two free vertices +-8 step 1/4'))
    out.append(dict(name='tri-free', fn='tri', params={}, bounds='triangle of free vertices +-16 step 1/8', covers=['ccw', 'cw']))
    return out


def turns(env, ps):
    n = len(ps)
    out = []
    for k in range(n):
        (a, b), (c, d), (e, f) = ps[k], ps[(k + 1) % n], ps[(k + 2) % n]
        out.append((c - a) * (f - d) - (d - b) * (e - c))
    return out


def judge(env, pl, convex=None):
    ps = [xy(env, s.i) for s in pl.segments]
    t = turns(env, ps)
    c = env.Or(env.And(*[k >= 0 for k in t]), env.And(*[k <= 0 for k in t]))
    r = pl.isconvex
    env.check(env.Iff(r, c), 'convex')
    if convex is not None:
        env.check(bool(r) == convex, 'convexity of the template')
    a = shoelace2(env, ps)
    cw = pl.iscw
    env.check(env.Iff(cw, a < 0), 'clockwise')
    env.check(env.Iff(pl.isccw, env.Not(cw)), 'exactly one of both')
    env.cover('cw' if env.truth(cw) else 'ccw')


def build(env, pts, share):
    P, L = env.api.Point, env.api.LineSegment
    n = len(pts)
    ps = [P(c) for c in pts]
    if share:
        return env.api.PolygonLine([L(ps[k], ps[(k + 1) % n]) for k in range(n)])
    return env.api.PolygonLine([L(P(pts[k]), P(pts[(k + 1) % n])) for k in range(n)])


def shape(env, shape):
    x, y = env.real('x', -64, 64, 3), env.real('y', -64, 64, 3)
    pts = ALL[shape]
    n = len(pts)
    starts = list(range(n)) if n < 7 else [0, 1, n // 2, n - 1]
    k = env.pick('start', starts)
    m = env.pick('mirror', [1, -1])
    pts = [(x + a, y + m * b) for a, b in pts[k:] + pts[:k]]
    if env.pick('back', [0, 1]):
        pts = pts[::-1]
    judge(env, build(env, pts, env.pick('share', [True, False])), shape in CONVEX)


def proper(env, a, b, c, d):
    """the closed segments ab and cd have a common point (pairs)"""
    def cr(o, p, q):
        return (p[0] - o[0]) * (q[1] - o[1]) - (p[1] - o[1]) * (q[0] - o[0])

    def opp(u, v):
        return env.Or(env.And(u <= 0, v >= 0), env.And(u >= 0, v <= 0))

    def boxes(i):
        return env.And(env.Or(a[i] <= c[i], a[i] <= d[i], b[i] <= c[i], b[i] <= d[i]),
                       env.Or(a[i] >= c[i], a[i] >= d[i], b[i] >= c[i], b[i] >= d[i]))
    return env.And(boxes(0), boxes(1), opp(cr(a, b, c), cr(a, b, d)), opp(cr(c, d, a), cr(c, d, b)))


def simple(env, ps):
    """the closed outline through ps (pairs) is simple"""
    n = len(ps)

    def cr(o, p, q):
        return (p[0] - o[0]) * (q[1] - o[1]) - (p[1] - o[1]) * (q[0] - o[0])
    out = []
    for k in range(n):
        a, b = ps[k], ps[(k + 1) % n]
        c = ps[(k + 2) % n]
        # no spike: a straight turn goes on
        dot = (b[0] - a[0]) * (c[0] - b[0]) + (b[1] - a[1]) * (c[1] - b[1])
        out.append(env.Or(cr(a, b, c) != 0, dot > 0))
        for m in range(k + 2, n):
            if (m + 1) % n != k:
                out.append(env.Not(proper(env, a, b, ps[m], ps[(m + 1) % n])))
    return env.And(*out)


def free(env, base, at):
    p = (env.real('px', -8, 8, 2), env.real('py', -8, 8, 2))
    pts = [(float(a), float(b)) for a, b in base]
    pts.insert(at, p)
    ps = [(env.ex(a), env.ex(b)) for a, b in pts]
    n = len(pts)
    for k in range(n):
        if k != at:
            env.assume(env.Or(ps[k][0] != ps[at][0], ps[k][1] != ps[at][1]))
    env.assume(simple(env, ps))
    judge(env, build(env, pts, True))


def free2(env):
    p, r = (env.real('px', -8, 8, 2), env.real('py', -8, 8, 2)), (env.real('rx', -8, 8, 2), env.real('ry', -8, 8, 2))
    pts = [(0.0, 0.0), p, (4.0, 3.0), r]
    ps = [(env.ex(a), env.ex(b)) for a, b in pts]
    for k in range(4):
        for m in range(k):
            env.assume(env.Or(ps[k][0] != ps[m][0], ps[k][1] != ps[m][1]))
    env.assume(simple(env, ps))
    judge(env, build(env, pts, True))


def tri(env):
    a, b, c = pt(env, 'a'), pt(env, 'b'), pt(env, 'c')
    env.assume(crossx(env, a, b, c) != 0)
    L = env.api.LineSegment
    judge(env, env.api.PolygonLine([L(a, b), L(b, c), L(c, a)]), True)


# in units of 0.0001
FINE = dict(DENT=[(0, 0), (80, 10), (160, 0), (160, 200), (0, 200)], BUMP=[(0, 0), (80, -10), (160, 0), (160, 200), (0, 200)],
            NICK=[(0, 0), (30000, 1), (60000, 0), (60000, 40000), (0, 40000)], SLIVER=[(0, 0), (80000, 0), (80000, 1)],
            SPECK=[(0, 0), (3, 0), (3, 2), (0, 2)], SPLIT=[(0, 0), (4, 0), (4, 4), (2, 1), (0, 4)])


def fine(env, shape):
    """very small and very flat outlines, in real numbers (the coordinates are the nearest floats)"""
    x, y = env.real('x', -200000, 200000, 0), env.real('y', -200000, 200000, 0)
    raw = FINE[shape]
    n = len(raw)
    k = env.pick('start', list(range(n)))
    raw = raw[k:] + raw[:k]
    if env.pick('back', [0, 1]):
        raw = raw[::-1]
    pl = build(env, [((x + a) * 0.0001, (y + b) * 0.0001) for a, b in raw], env.pick('share', [True, False]))
    a = sum(p[0] * q[1] - p[1] * q[0] for p, q in zip(raw, raw[1:] + raw[:1]))
    env.check(bool(pl.iscw) == (a < 0), 'clockwise')
    env.check(bool(pl.isccw) == (a > 0), 'exactly one of both')
    t = [(q[0] - p[0]) * (r[1] - q[1]) - (q[1] - p[1]) * (r[0] - q[0]) for p, q, r in zip(raw, raw[1:] + raw[:1], raw[2:] + raw[:2])]
    env.check(bool(pl.isconvex) == (min(t) >= 0 or max(t) <= 0), 'convex')
    env.cover('cw' if a < 0 else 'ccw')


def many(env, n, dent):
    x, y = env.real('x', -64, 64, 3), env.real('y', -64, 64, 3)
    pts = [(x + a, y + b) for a, b in ring_of(n, 20, dent)]
    if env.pick('back', [0, 1]):
        pts = pts[::-1]
    judge(env, build(env, pts, True))
