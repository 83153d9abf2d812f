# -*- coding: utf-8 -*-
import math
from harness.common import *

ASSUMPTIONS = ['outlines are templates (see bounds) at a free position, sharing of vertices varied; rotation angles from a list, '
               'rotation results to 1e-6 (results are rounded to 8 decimals)']
WALL = dict(quick=60, thorough=900)
PHIS = [90, 180, -90, 30, 45, 137.5, 360, 0]
R = Fraction(1, 10 ** 6)


def scenarios(tier):
    out = []
    names = ['TRI', 'SQ', 'ELL', 'DART', 'MIDS', 'OPEN', 'FIG8'] if tier == 'quick' else sorted(ALL)
    for n in names:
        for share in ('shared', 'unshared', 'mixed') if tier != 'quick' or n in ('TRI', 'ELL', 'FIG8') else ('mixed',):
            p = dict(shape=n, share=share)
            b = 'outline %s, vertices %s, at +-16 step 1/8, moved by +-16 step 1/8' % (n, share)
            out.append(dict(name='move-%s-%s' % (n, share), fn='move', params=p, bounds=b))
            out.append(dict(name='mirror-%s-%s' % (n, share), fn='mirror', params=p, bounds=b + ', axis likewise'))
            out.append(dict(name='rotate-%s-%s' % (n, share), fn='rotate', params=p, bounds=b + ', angles %s' % PHIS))
            out.append(dict(name='chain-%s-%s' % (n, share), fn='chain', params=p, bounds=b))
        out.append(dict(name='grown-' + n, fn='grown', params=dict(shape=n),
                        bounds='outline %s closed by hand with a separate point, after or before a motion' % n))
    for n, B, q in [('mid', 16, 3), ('fine', 2, 8), ('large', 1024, 0)]:
        out.append(dict(name='segment-' + n, fn='segment', params=dict(B=B, q=q), bounds='free segment +-%d step 2^-%d' % (B, q)))
    out.append(dict(name='free', fn='free', params={}, bounds='open chain of three free vertices, +-16 step 1/8'))
    return out


OPEN = [(0, 0), (2, 1), (4, 0), (3, 5)]
FIG8 = [(0, 0), (2, 2), (4, 0), (4, 2), (2, 2), (0, 3)]     # visits a vertex twice
ALL = dict(SHAPES, OPEN=OPEN, FIG8=FIG8)


def build(env, shape, share, x, y):
    P, L = env.api.Point, env.api.LineSegment
    pts = ALL[shape]
    n = len(pts)
    objs = {}
    ls = []
    for k in range(n - 1 if shape == 'OPEN' else n):
        e = []
        for m, c in enumerate((pts[k], pts[(k + 1) % n])):
            if share == 'shared' or (share == 'mixed' and (k % 2 == 0 or m)):
                if c not in objs:
                    objs[c] = P((x + c[0], y + c[1]))
                e.append(objs[c])
            else:
                e.append(P((x + c[0], y + c[1])))
        ls.append(L(*e))
    return env.api.PolygonLine(ls)


def free_move(env, shape, share):
    x, y = env.real('x', -16, 16, 3), env.real('y', -16, 16, 3)
    return x, y, build(env, shape, share, x, y)


def snapshot(env, pl):
    return [(env.ex(a), env.ex(b), env.ex(c), env.ex(d)) for a, b, c, d in coords(pl)]


def count(pl):
    """number of distinct vertices"""
    seen = []
    for s in pl.segments:
        for p in s.ij:
            if not any(p is o or p == o for o in seen):
                seen.append(p)
    return len(seen)


class Before(list):
    pass


def start(env, pl):
    b = Before(snapshot(env, pl))
    b.points = count(pl)
    b.closed = pl.isclosed
    b.segments = list(pl.segments)
    return b


def keeps(env, pl, b, label):
    env.check(len(pl.segments) == len(b) and all(s is t for s, t in zip(pl.segments, b.segments)), label + ': segments')
    env.check(pl.isclosed == b.closed and pl.iscontinuous, label + ': connected')
    env.check(count(pl) == b.points, label + ': vertices')


def expect(env, pl, b, f, label, tol=None):
    for s, (x1, y1, x2, y2) in zip(pl.segments, b):
        env.check(near_xy(env, xy(env, s.i), f(x1, y1), tol), label)
        env.check(near_xy(env, xy(env, s.j), f(x2, y2), tol), label)


def move(env, shape, share):
    x, y, pl = free_move(env, shape, share)
    b = start(env, pl)
    u, v = env.real('u', -16, 16, 3), env.real('v', -16, 16, 3)
    pl.move(x0=u, y0=v)
    expect(env, pl, b, lambda a, c: (a + env.ex(u), c + env.ex(v)), 'moved')
    keeps(env, pl, b, 'move')
    pl.move(x0=-u, y0=-v)
    expect(env, pl, b, lambda a, c: (a, c), 'moved back')
    pl.move(x0=3, y0=-2)
    expect(env, pl, b, lambda a, c: (a + 3, c - 2), 'moved again')
    keeps(env, pl, b, 'moves')


def mirror(env, shape, share):
    x, y, pl = free_move(env, shape, share)
    b = start(env, pl)
    u = env.real('u', -16, 16, 3)
    pl.mirror_vertical(x0=u)
    expect(env, pl, b, lambda a, c: (2 * env.ex(u) - a, c), 'mirrored')
    keeps(env, pl, b, 'mirror')
    pl.mirror_vertical(x0=u)
    expect(env, pl, b, lambda a, c: (a, c), 'mirrored back')


def turn(phi, x0, y0):
    c, s = Fraction(math.cos(math.radians(phi))), Fraction(math.sin(math.radians(phi)))
    return lambda a, b: (x0 + (a - x0) * c - (b - y0) * s, y0 + (a - x0) * s + (b - y0) * c)


def rotate(env, shape, share):
    x, y, pl = free_move(env, shape, share)
    b = start(env, pl)
    phi = env.pick('phi', PHIS)
    if env.pick('how', [0, 1]):
        pl.rotate_about_origin(phi=phi)
        expect(env, pl, b, turn(phi, 0, 0), 'rotated about the origin', R)
    else:
        u, v = env.real('u', -16, 16, 3), env.real('v', -16, 16, 3)
        pl.rotate_about_xy(x0=u, y0=v, phi=phi)
        expect(env, pl, b, turn(phi, env.ex(u), env.ex(v)), 'rotated about a point', R)
    keeps(env, pl, b, 'rotation')
    if env.pick('set', [0, 1]) and shape == 'TRI':
        env.check(len(pl.point_set) == b.points, 'rotation: set of vertices')


def chain(env, shape, share):
    x, y, pl = free_move(env, shape, share)
    b = start(env, pl)
    u = env.real('u', -16, 16, 3)
    phi = env.pick('phi', [90, -90, 30])
    pl.mirror_vertical(x0=u)
    pl.rotate_about_origin(phi=phi)
    pl.move(x0=1, y0=u)
    t = turn(phi, 0, 0)

    def f(a, c):
        p, q = t(2 * env.ex(u) - a, c)
        return p + 1, q + env.ex(u)
    expect(env, pl, b, f, 'motions one after the other', R)
    keeps(env, pl, b, 'motions')


def grown(env, shape):
    """the outline is closed by a separate point that coincides with the first one"""
    x, y = env.real('x', -16, 16, 3), env.real('y', -16, 16, 3)
    P, L = env.api.Point, env.api.LineSegment
    pts = ALL[shape]
    ps = [P((x + a, y + c)) for a, c in pts]
    pl = env.api.PolygonLine([L(ps[k], ps[k + 1]) for k in range(len(ps) - 1)])
    if env.pick('early', [0, 1]):
        pl.move(x0=2, y0=1)
    if env.pick('end', [0, 1]):
        pl.append_point_at_end(P(pl.first_point.xy))
    else:
        pl.append_point_at_beginning(P(pl.last_point.xy))
    b = start(env, pl)
    env.check(bool(b.closed), 'closed by hand')
    u, v = env.real('u', -16, 16, 3), env.real('v', -16, 16, 3)
    pl.move(x0=u, y0=v)
    expect(env, pl, b, lambda a, c: (a + env.ex(u), c + env.ex(v)), 'moved')
    keeps(env, pl, b, 'move')
    pl.mirror_vertical(x0=u)
    expect(env, pl, b, lambda a, c: (env.ex(u) - a, c + env.ex(v)), 'mirrored')
    keeps(env, pl, b, 'mirror')


def free(env):
    a, b, c = pt(env, 'a'), pt(env, 'b'), pt(env, 'c')
    env.assume(env.And(distinct(env, a, b), distinct(env, b, c)))
    L, P = env.api.LineSegment, env.api.Point
    pl = env.api.PolygonLine([L(a, b), L(P(b.xy), c)])
    st = start(env, pl)
    u = env.real('u', -16, 16, 3)
    if env.pick('how', [0, 1]):
        pl.move(x0=u, y0=1)
        expect(env, pl, st, lambda a, c: (a + env.ex(u), c + 1), 'moved')
    else:
        pl.mirror_vertical(x0=u)
        expect(env, pl, st, lambda a, c: (2 * env.ex(u) - a, c), 'mirrored')
    keeps(env, pl, st, 'motion')


def segment(env, B, q):
    s = seg(env, 's', B, q)
    i, j = s.i, s.j
    a, b, c, d = [env.ex(t) for t in i.xy + j.xy]
    u, v = env.real('u', -B, B, q), env.real('v', -B, B, q)
    how = env.pick('how', ['move', 'mirror', 'reverse', 'copy'])
    if how == 'move':
        s.move(x0=u, y0=v)
        env.check(env.And(near_xy(env, xy(env, s.i), (a + env.ex(u), b + env.ex(v))),
                          near_xy(env, xy(env, s.j), (c + env.ex(u), d + env.ex(v)))), 'moved')
        s.move(x0=-u, y0=-v)
    elif how == 'mirror':
        s.mirror_vertical(x0=u)
        env.check(env.And(near_xy(env, xy(env, s.i), (2 * env.ex(u) - a, b)),
                          near_xy(env, xy(env, s.j), (2 * env.ex(u) - c, d))), 'mirrored')
        s.mirror_vertical(x0=u)
    elif how == 'reverse':
        s.reverse()
        env.check(s.i is j and s.j is i, 'reversed')
        s.reverse()
    else:
        t = s.line_reversed
        env.check(s.i is i and s.j is j, 'original of the reversed copy')
        env.check(env.And(same(env, t.i, j), same(env, t.j, i)), 'reversed copy')
    env.check(s.i is i and s.j is j, 'endpoint objects')
    env.check(env.And(near_xy(env, xy(env, s.i), (a, b)), near_xy(env, xy(env, s.j), (c, d))), 'restored')
