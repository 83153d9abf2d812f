# -*- coding: utf-8 -*-
from harness.common import *

ASSUMPTIONS = ['chains are the listed ones; what merely touches another piece of the chain may be taken or refused']
WALL = dict(quick=60, thorough=1200)
CHAINS = dict(
    ONE=[(0, 0), (4, 1)],
    UP=[(0, 0), (0, 3)],
    BEND=[(0, 0), (4, 0), (4, 3)],
    HOOK=[(0, 0), (6, 0), (6, 4), (2, 4)],
    ZIG=[(0, 0), (2, 3), (4, 0), (6, 3)],
    BACK=[(0, 0), (-3, 1), (-3, 5)],
    LONG=[(2 * k, k % 2) for k in range(9)],
)
# the second chain starts on a straight way: from (relative to the end of the first one), direction
WAYS = [((0, 0), (1, 0)), ((0, 0), (0, 1)), ((0, 0), (1, 1)), ((-1, 2), (1, -1)), ((3, -1), (0, 1)), ((0, -2), (1, 0.5))]
TWO = [('ONE', 'ONE', 0), ('ONE', 'UP', 1), ('BEND', 'ONE', 2), ('HOOK', 'UP', 3), ('ZIG', 'BACK', 4), ('BACK', 'BEND', 5), ('UP', 'ZIG', 0), ('BEND', 'BEND', 3), ('HOOK', 'BACK', 1), ('LONG', 'ONE', 4)]
THREE = [('ONE', 'UP', 'BACK'), ('BEND', 'BACK', 'UP'), ('UP', 'ONE', 'ZIG'), ('ONE', 'ONE', 'ONE')]


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for k, (a, b, w) in enumerate(TWO):
        for v in (w,) if quick else range(len(WAYS)):
            out.append(dict(name='two-%s-%s-%d' % (a, b, v), fn='two', params=dict(a=a, b=b, w=v, k=k, q=3 if quick else 5), path_s=60, covers=['joined'],
                            bounds='chain %s at a listed place, %s beginning anywhere on a listed straight way about its end, +-12 step 1/%d' % (a, b, 8 if quick else 32)))
        out.append(dict(name='place-%s-%s' % (a, b), fn='place', params=dict(a=a, b=b, k=k), path_s=60,
                        bounds='chain %s 48..64 from the axes, %s beginning at its end or at listed places' % (a, b)))
    out.append(dict(name='free', fn='two', params=dict(a='ONE', b='UP', w=None, k=0, q=1 if quick else 3), path_s=60, covers=['joined', 'refused'],
                    bounds='two segments, the second one beginning anywhere within 8 of the end of the first one, step 1/%d' % (2 if quick else 8)))
    for k in range(len(THREE)):
        out.append(dict(name='three-%d' % k, fn='three', params=dict(k=k), path_s=60, covers=['joined'],
                        bounds='chains %s, %s and %s; the gap between the second and the third one free, 0..8 step 1/8, and anywhere +-64' % THREE[k]))
    out.append(dict(name='closed', fn='closed', params={}, path_s=60, bounds='a square and a chain at free places +-64 step 1/8'))
    return out


def build(env, name, x, y, shared=True):
    P, L = env.api.Point, env.api.LineSegment
    c = [(x + a, y + b) for a, b in CHAINS[name]]
    ps = [P(p) for p in c]
    n = len(c)
    return env.api.PolygonLine([L(ps[k], ps[k + 1] if shared else P(c[k + 1])) for k in range(n - 1)]), [(env.ex(p), env.ex(q)) for p, q in c]


def side(o, a, p):
    return (a[0] - o[0]) * (p[1] - o[1]) - (a[1] - o[1]) * (p[0] - o[0])




def crossing(env, a, b, c, d):
    """ab and cd cross in a point inside both"""
    s1, s2, s3, s4 = side(a, b, c), side(a, b, d), side(c, d, a), side(c, d, b)
    return env.And(env.Or(env.And(s1 > 0, s2 < 0), env.And(s1 < 0, s2 > 0)), env.Or(env.And(s3 > 0, s4 < 0), env.And(s3 < 0, s4 > 0)))


def apart(env, a, b, c, d):
    """no common point: one of the lines, or one of the boxes, separates the two"""
    s1, s2, s3, s4 = side(a, b, c), side(a, b, d), side(c, d, a), side(c, d, b)
    out = [env.And(s1 > 0, s2 > 0), env.And(s1 < 0, s2 < 0), env.And(s3 > 0, s4 > 0), env.And(s3 < 0, s4 < 0)]
    for k in (0, 1):
        out.append(env.And(a[k] < c[k], a[k] < d[k], b[k] < c[k], b[k] < d[k]))
        out.append(env.And(a[k] > c[k], a[k] > d[k], b[k] > c[k], b[k] > d[k]))
    return env.Or(*out)


def judge(env, polys, nodes):
    """nodes: the vertices of every chain"""
    before = [(list(p.segments), coords(p)) for p in polys]
    # the whole walk; a chain that begins where the last one ends has no bridge
    walk = list(nodes[0])
    for n in nodes[1:]:
        e, s = walk[-1], n[0]
        walk += n[1:] if env.truth(env.And(e[0] == s[0], e[1] == s[1])) else n
    segs = list(zip(walk, walk[1:]))
    m = len(segs)
    pairs = [(i, j) for i in range(m) for j in range(i)]
    cross = env.Or(*[crossing(env, *(segs[i] + segs[j])) for i, j in pairs if i - j > 1])
    # neighbours that do not turn back and others that have no common point
    clear = env.And(*[apart(env, *(segs[i] + segs[j])) if i - j > 1 else side(segs[j][0], segs[j][1], segs[i][1]) != 0 for i, j in pairs])
    r = env.attempt(env.api.polygon.add, *polys)
    if hasattr(r, 'exc'):
        env.check(env.Not(clear), 'chains that do not cross are joined')
        env.cover('refused')
    else:
        env.check(env.Not(cross), 'crossing chains are refused')
        env.check(isinstance(r, env.api.PolygonLine), 'a polygon')
        env.check(len(r.segments) == m, 'all segments, and a bridge for every gap')
        for s, (a, b) in zip(r.segments, segs):
            env.check(env.And(near_xy(env, xy(env, s.i), a), near_xy(env, xy(env, s.j), b)), 'end to end, in the order given')
        for s, t in zip(r.segments, r.segments[1:]):
            env.check(s.j is t.i, 'neighbours share their vertex')
        env.check(bool(r.isvalid), 'the result is valid')
        env.cover('joined')
    for say in ('the chains are left as they are', 'the result can be moved without them'):
        if 'moved' in say and not hasattr(r, 'exc'):
            r.move(x0=1, y0=-2)
        for p, (ls, c) in zip(polys, before):
            env.check(len(p.segments) == len(ls) and all(s is t for s, t in zip(p.segments, ls)), say)
            env.check(coords(p) == c, say)


def two(env, a, b, w, k, q):
    x, y = [(-20.5, 7.0), (3.0, 11.25), (0.0, 0.0), (30.0, -9.5)][k % 4]
    e = CHAINS[a][-1]
    if w is None:
        u, v = env.real('u', -8, 8, q), env.real('v', -8, 8, q)
    else:
        t = env.real('t', -12, 12, q)
        (u0, v0), (du, dv) = WAYS[w]
        u, v = u0 + du * t, v0 + dv * t
    A, na = build(env, a, x, y, k % 2 == 0)
    B, nb = build(env, b, x + e[0] + u, y + e[1] + v, k % 3 == 0)
    judge(env, [A, B], [na, nb])


def place(env, a, b, k):
    sx, sy = [(1, 1), (-1, 1), (-1, -1), (1, -1)][k % 4]
    x, y = env.real('x', 48, 64, 3) * sx, env.real('y', 48, 64, 3) * sy
    u, v = env.pick('gap', [(0, 0), (1, 0), (0.125, 2), (-1, 9), (9, -0.5)])
    e = CHAINS[a][-1]
    A, na = build(env, a, x, y, k % 3 == 0)
    B, nb = build(env, b, x + e[0] + u, y + e[1] + v, k % 2 == 0)
    judge(env, [A, B], [na, nb])


def three(env, k):
    a, b, c = THREE[k]
    how = env.pick('how', ['gap', 'place'])
    if how == 'gap':
        x, y, t = -7.5, 4.0, env.real('t', 0, 8, 3)
    else:
        x, y, t = env.real('x', 48, 64, 3), -env.real('y', 48, 64, 3), env.pick('t', [0.0, 1.5])
    A, na = build(env, a, x, y)
    e = CHAINS[a][-1]
    x, y = x + e[0], y + e[1]
    if k % 2:
        x = x + 1
    B, nb = build(env, b, x, y, False)
    e = CHAINS[b][-1]
    x, y = x + e[0], y + e[1]
    C, nc = build(env, c, x + t, y + 8, False) if k == 2 else build(env, c, x + t, y)
    judge(env, [A, B, C], [na, nb, nc])


def closed(env):
    """a closed chain has no end"""
    x, y = env.real('x', -64, 64, 3), env.real('y', -64, 64, 3)
    P, L = env.api.Point, env.api.LineSegment
    sq = lambda a, b: env.api.PolygonLine([L(P((a + p[0], b + p[1])), P((a + r[0], b + r[1]))) for p, r in zip(SQ, SQ[1:] + SQ[:1])])
    A, B = sq(x, y), sq(x + env.pick('by', [8.0, 0.0, 2.0]), y)
    ca, cb = coords(A), coords(B)
    env.check(hasattr(env.attempt(env.api.polygon.add, A, B), 'exc'), 'closed outlines are not joined')
    env.check(coords(A) == ca and coords(B) == cb, 'the outlines are left as they are')
