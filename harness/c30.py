# -*- coding: utf-8 -*-
import itertools
from harness.common import *

ASSUMPTIONS = ['outlines are the listed shapes at free places; listed or all orders and directions of their segments as stated per scenario']
WALL = dict(quick=120, thorough=1800)
SHAPES = dict(
    TRI=[(0, 0), (4, 1), (1, 3)],
    FLAT=[(0, 0), (8, 0.5), (4, 0.375)],
    SQUARE=[(0, 0), (2, 0), (2, 2), (0, 2)],
    DART=[(0, 0), (4, 4), (0, 1), (-4, 4)],
    LSHAPE=[(0, 0), (4, 0), (4, 1), (1, 1), (1, 4), (0, 4)],
    MANY=ring_of(18, r=10, dent=0.75),
    HEX=[(2, 0), (4, 1), (4, 3), (2, 5), (0, 3), (0, 1)],
)
# two outlines: places of the second relative to the first
PAIRS = [('TRI', 'SQUARE', (8, 0)), ('SQUARE', 'SQUARE', (5, 5)), ('TRI', 'TRI', (-8, 3)), ('SQUARE', 'TRI', (-1, 9)), ('HEX', 'TRI', (7, -2)), ('TRI', 'TRI', (0, 7)), ('TRI', 'TRI', (9, 0)), ('SQUARE', 'SQUARE', (0, -6))]
IN = [('BIG', 'SQUARE', (2, 2)), ('BIG', 'SQUARE', (3, 3)), ('BIG', 'TRI', (1, 1.5))]
SHAPES['BIG'] = [(0, 0), (8, 0), (8, 8), (0, 8)]
# outlines with common segments: points, segments, the loops as lists of segments
THETA = dict(
    DOOR=([(0, 0), (4, 0), (4, 3), (0, 3), (0, 7), (4, 7)], [(0, 1), (1, 2), (2, 3), (3, 0), (3, 4), (4, 5), (5, 2)],
          [[0, 1, 2, 3], [2, 4, 5, 6], [0, 1, 3, 4, 5, 6]]),
    ROOF=([(0, 0), (4, 0), (2, 3), (2, 5)], [(0, 1), (1, 2), (2, 0), (2, 3)], [[0, 1, 2]]),
    BUTTERFLY=([(0, 0), (4, 1), (4, -1), (-4, 1), (-4, -2)], [(0, 1), (1, 2), (2, 0), (0, 3), (3, 4), (4, 0)], [[0, 1, 2], [3, 4, 5]]),
)


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for k, n in enumerate(sorted(SHAPES)):
        m = len(SHAPES[n])
        every = m == 3 if quick else m <= 4
        out.append(dict(name='walk-' + n, fn='walk', params=dict(name=n, few=quick, k=k, every=every), covers=['closed'],
                        bounds='shape %s at %s, %s orders, all directions' % (n, '48..64 from the axes' if quick else '+-64', 'all' if every else 'listed')))
        out.append(dict(name='open-' + n, fn='chain', params=dict(name=n, few=quick, k=k, every=every),
                        bounds='shape %s without one segment, %s orders, all directions' % (n, 'all' if every else 'listed')))
        if m <= 4:
            out.append(dict(name='start-' + n, fn='start', params=dict(name=n, few=quick, k=k),
                            bounds='shape %s walked from any of its vertices, all directions' % n))
    for k, (a, b, d) in enumerate(PAIRS + IN):
        out.append(dict(name='pair-%d' % k, fn='pair', params=dict(k=k, few=quick), path_s=90,
                        bounds='%s and %s at %s from it, at free places, listed orders and directions' % (a, b, d)))
    for k, n in enumerate(sorted(THETA)):
        out.append(dict(name='loops-' + n, fn='theta', params=dict(name=n, few=quick, k=k), path_s=90,
                        bounds='segments of %s at free places, listed orders and directions' % n))
    for k, n in enumerate(sorted(SHAPES)[:2] if quick else sorted(SHAPES)):
        out.append(dict(name='single-' + n, fn='single', params=dict(name=n, few=quick, k=k), path_s=90,
                        bounds='%s alone at free places, listed orders and directions' % n))
    return out


def somewhere(env, few, k):
    if not few:
        return env.real('x', -64, 64, 3), env.real('y', -64, 64, 3)
    sx, sy = [(1, 1), (-1, 1), (-1, -1), (1, -1)][k % 4]
    return env.real('x', 48, 64, 3) * sx, env.real('y', 48, 64, 3) * sy


def segs(env, pts, ends, flips, perm):
    P, L = env.api.Point, env.api.LineSegment
    out = []
    for (a, b), f in zip(ends, flips):
        if f:
            a, b = b, a
        out.append(L(P(pts[a]), P(pts[b])))
    return [out[k] for k in perm]


def orders(n, every):
    if every:
        return list(itertools.permutations(range(n)))
    r = list(range(n))
    return [r, r[::-1], r[n // 2:] + r[:n // 2], r[::2] + r[1::2], r[1::2] + r[::2][::-1]]


def ring(n):
    return [(k, (k + 1) % n) for k in range(n)]


def flips(env, n):
    return [env.pick('f%d' % k, [False, True]) for k in range(n)]


def like(env, s, a, b):
    u, v = xy(env, s.i), xy(env, s.j)
    return env.Or(env.And(near_xy(env, u, a), near_xy(env, v, b)), env.And(near_xy(env, u, b), near_xy(env, v, a)))


def outline(env, p, pts, ends):
    """p is a closed, ordered walk along exactly these segments"""
    n = len(ends)
    env.check(len(p.segments) == n, 'all segments of the outline')
    raw = [(env.ex(a), env.ex(b)) for a, b in pts]
    s = p.segments
    for k in range(n):
        env.check(near_xy(env, xy(env, s[k].j), xy(env, s[(k + 1) % n].i)), 'head to tail and closed')
        env.check(env.Or(*[like(env, s[k], raw[a], raw[b]) for a, b in ends]), 'nothing but the segments of the outline')
    for a, b in ends:
        env.check(env.Or(*[like(env, t, raw[a], raw[b]) for t in s]), 'every segment of the outline')


def kept(env, lst, before, coords):
    env.check(len(lst) == len(before) and all(u is v for u, v in zip(lst, before)), 'the list is left as it was')
    for s, c in zip(lst, coords):
        env.check(env.And(near_xy(env, xy(env, s.i), c[0]), near_xy(env, xy(env, s.j), c[1])), 'the segments are left as they were')


def note(env, lst):
    return list(lst), [(xy(env, s.i), xy(env, s.j)) for s in lst]


def walk(env, name, few, k, every):
    x, y = somewhere(env, few, k)
    base = SHAPES[name]
    n = len(base)
    pts = [(x + a, y + b) for a, b in base]
    perm = env.pick('order', orders(n, every))
    fl = flips(env, n) if n <= 4 else env.pick('flips', [[False] * n, [True] * n, [True, False] * (n // 2), [False, True, True] * (n // 3)])
    lst = segs(env, pts, ring(n), fl, perm)
    b, c = note(env, lst)
    p = env.api.polygon.walk_segments(lst)
    env.check(isinstance(p, env.api.PolygonLine), 'the outline is found')
    env.cover('closed')
    outline(env, p, pts, ring(n))
    kept(env, lst, b, c)


def start(env, name, few, k):
    x, y = somewhere(env, few, k)
    base = SHAPES[name]
    n = len(base)
    pts = [(x + a, y + b) for a, b in base]
    perm = env.pick('order', orders(n, False)[1:3])
    lst = segs(env, pts, ring(n), flips(env, n), perm)
    b, c = note(env, lst)
    at = env.pick('at', list(range(n)))
    p = env.api.polygon.walk_segments(lst, env.api.Point(pts[at]))
    env.check(isinstance(p, env.api.PolygonLine), 'the outline is found')
    outline(env, p, pts, ring(n))
    kept(env, lst, b, c)


def chain(env, name, few, k, every):
    x, y = somewhere(env, few, k)
    base = SHAPES[name]
    n = len(base)
    pts = [(x + a, y + b) for a, b in base]
    out = env.pick('out', [0, n // 2])
    ends = [e for j, e in enumerate(ring(n)) if j != out]
    n -= 1
    perm = env.pick('order', orders(n, every))
    fl = flips(env, n) if n <= 3 else env.pick('flips', [[False] * n, [True] * n, ([True, False] * n)[:n], ([False, True, True] * n)[:n]])
    lst = segs(env, pts, ends, fl, perm)
    b, c = note(env, lst)
    p = env.api.polygon.walk_segments(lst)
    env.check(p is False, 'an open chain is reported as a failure')
    kept(env, lst, b, c)


class Part(object):
    def __init__(self, graph):
        self.graph = graph


class Whole(object):
    def __init__(self, polygons):
        self.polygons = polygons


def loops(env, lists):
    g = env.api.group.BehalterGraph(behalter=Whole([Part(env.api.PolygonLine(s)) for s in lists]))
    return g.find_loops()


def alike(env, p, pts, ends):
    """p consists of exactly these segments (decided, not checked)"""
    raw = [(env.ex(a), env.ex(b)) for a, b in pts]
    if len(p.segments) != len(ends):
        return False
    return all(env.truth(env.Or(*[like(env, t, raw[a], raw[b]) for t in p.segments])) for a, b in ends)


def found(env, res, pts, want):
    env.check(len(res) == len(want), 'as many loops as there are')
    for w in want:
        m = [p for p in res if alike(env, p, pts, w)]
        env.check(len(m) == 1, 'each loop is found once')
        outline(env, m[0], pts, w)
    for u, v in zip(res, res[1:]):
        env.check(len(u.segments) <= len(v.segments), 'the shorter loops first')


def spread(env, n, listed=4):
    perm = env.pick('order', orders(n, False)[:listed])
    fl = env.pick('flips', [[False] * n, ([True, False] * n)[:n], ([False, True, True] * n)[:n]])
    return perm, fl


def pair(env, k, few):
    a, b, d = (PAIRS + IN)[k]
    x, y = somewhere(env, few, k)
    A, B = SHAPES[a], SHAPES[b]
    na, nb = len(A), len(B)
    pts = [(x + u, y + v) for u, v in A] + [(x + u + d[0], y + v + d[1]) for u, v in B]
    ends = ring(na) + [(i + na, j + na) for i, j in ring(nb)]
    n = na + nb
    perm, fl = spread(env, n)
    how = env.pick('how', ['one', 'two'])
    lst = segs(env, pts, ends, fl, perm)
    if how == 'one':
        res = loops(env, [lst])
    else:
        res = loops(env, [lst[:3], lst[3:]])
    found(env, res, pts, [ends[:na], ends[na:]])


def theta(env, name, few, k):
    base, ends, want = THETA[name]
    x, y = somewhere(env, few, k)
    pts = [(x + u, y + v) for u, v in base]
    perm, fl = spread(env, len(ends))
    lst = segs(env, pts, ends, fl, perm)
    res = loops(env, [lst])
    found(env, res, pts, [[ends[j] for j in w] for w in want])


def single(env, name, few, k):
    base = SHAPES[name]
    x, y = somewhere(env, few, k)
    pts = [(x + u, y + v) for u, v in base]
    n = len(base)
    perm, fl = spread(env, n)
    lst = segs(env, pts, ring(n), fl, perm)
    res = loops(env, [lst])
    found(env, res, pts, [ring(n)])
