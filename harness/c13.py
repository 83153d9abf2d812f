# -*- coding: utf-8 -*-
from harness.common import *
from harness.c11 import ALL, SAW, COMB, STAR, NOTCH, SPIRAL

ASSUMPTIONS = ['outlines are templates at listed positions in all quadrants; the point is at least a grid step off the outline',
               'draws of the random rays: fixed pseudo-random ones with a free point, or free ones (including rays through vertices) '
               'with listed points as long as one ray of three misses all vertices']
ALL = dict(ALL, WIDE=[(0, 0), (16, -8), (20, 6)], SLIM=[(0, 0), (48, 16), (64, 24), (40, 15)])
WALL = dict(quick=100, thorough=1500)
OFFS = [(0.0, 0.0), (-2.0, -3.0), (-40.0, -30.0), (-40.0, 8.0), (10.0, -50.0), (-1.0, -1.0)]
# fractions of the range of a draw
DRAWS = [tuple(k / 128. for k in d) for d in ((49, 79, 18, 35, 93, 53), (2, 126, 71, 9, 117, 42), (1, 3, 7, 5, 127, 13))]


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    names = ['TRI', 'SQ', 'ELL', 'DART', 'MIDS', 'UU', 'NOTCH', 'WIDE', 'SLIM'] if quick else sorted(ALL)
    for n in names:
        for k, off in enumerate(OFFS if not quick else OFFS[1:4] if n in ('TRI', 'DART') else OFFS[2:4]):
            out.append(dict(name='line-%s-%d' % (n, k), fn='line', params=dict(shape=n, q=3, off=off, k=k + len(n), few=False), covers=['in', 'out'],
                            bounds='outline %s at a listed position, point free on listed horizontal and vertical lines, step 1/8, listed draws' % n))
        if not quick or n not in ('WIDE', 'SLIM'):
            out.append(dict(name='rays-' + n, fn='rays', params=dict(shape=n, free=1 if quick else 2), covers=['in', 'out'],
                        bounds='outline %s at a listed position, listed points, %s of the three first rays drawn freely (step 1/128 of the range)'
                        % (n, 'one (or two equal ones)' if quick else 'two')))
        out.append(dict(name='boundary-' + n, fn='boundary', params=dict(shape=n), covers=['on', 'off'],
                        bounds='outline %s at listed positions, point free within 2 of it, step 1/4' % n))
        if not quick:
            out.append(dict(name='point-' + n, fn='point', params=dict(shape=n, q=2, offs=OFFS), covers=['in', 'out'],
                            bounds='outline %s at listed positions, point free within 3 of it, step 1/4, listed draws' % n))
    for k in range(len(CLOSE)):
        out.append(dict(name='close-%d' % k, fn='close', params=dict(k=k), covers=['in', 'out'],
                        bounds='a listed side of a listed outline, the point 0.00003..0.003 beside it, step 0.00001'))
    out.append(dict(name='many', fn='many', params={}, covers=['in', 'out'], bounds='outline of 36 vertices at a listed place, point free on a horizontal line, step 1/8'))
    out.append(dict(name='place', fn='place', params={}, covers=['in', 'out'],
                    bounds='triangle and square anywhere +-64 step 1/8, listed points relative to them, listed draws'))
    return out


def enclosed(env, pts, x, y):
    """crossings of the ray to the right, half-open rule"""
    n = len(pts)
    odd = False
    for k in range(n):
        (a, b), (c, d) = pts[k], pts[(k + 1) % n]
        if b == d:
            continue
        if b > d:
            (a, b), (c, d) = (c, d), (a, b)
        # crossing if b <= y < d and the point is left of the upward side
        hit = env.And(y >= b, y < d, (c - a) * (y - b) - (d - b) * (x - a) > 0)
        odd = env.Or(env.And(odd, env.Not(hit)), env.And(env.Not(odd), hit))
    return odd


def on_outline(env, pts, x, y):
    out = []
    n = len(pts)
    for k in range(n):
        (a, b), (c, d) = pts[k], pts[(k + 1) % n]
        out.append(env.And((c - a) * (y - b) - (d - b) * (x - a) == 0, x >= min(a, c), x <= max(a, c), y >= min(b, d), y <= max(b, d)))
    return env.Or(*out)


def draws(env, seq):
    """the draws of the rays: the given fractions of their range first, fixed ones after them"""
    st = dict(k=0)

    def hook(kind, a=0, b=1):
        k = st['k']
        st['k'] = k + 1
        if kind != 'uniform':
            return None
        t = seq[k] if k < len(seq) else (k * k * 37 + k * 61 + 11) % 127 / 128.
        return a + (b - a) * t
    env.on_random(hook)
    return st


def poly(env, shape, off, back=False, share=True):
    P, L = env.api.Point, env.api.LineSegment
    pts = [(a + off[0], b + off[1]) for a, b in ALL[shape]]
    if back:
        pts = pts[::-1]
    n = len(pts)
    ps = [P(c) for c in pts]
    if share:
        return env.api.PolygonLine([L(ps[k], ps[(k + 1) % n]) for k in range(n)]), pts
    return env.api.PolygonLine([L(P(pts[k]), P(pts[(k + 1) % n])) for k in range(n)]), pts


def box(pts, m):
    xs, ys = [a for a, _ in pts], [b for _, b in pts]
    return min(xs) - m, max(xs) + m, min(ys) - m, max(ys) + m


def point(env, shape, q, offs):
    k = env.pick('off', list(range(len(offs))))
    pl, pts = poly(env, shape, offs[k], back=bool(k % 2), share=k % 3 > 0)
    x0, x1, y0, y1 = box(pts, 3)
    x, y = env.real('x', x0, x1, q), env.real('y', y0, y1, q)
    ex, ey = env.ex(x), env.ex(y)
    draws(env, DRAWS[k % len(DRAWS)])
    p = env.api.Point((x, y))
    env.assume(env.Not(on_outline(env, pts, ex, ey)))
    w = enclosed(env, pts, ex, ey)
    env.check(env.Iff(pl.is_internal_point(p), w), 'internal')
    env.cover('in' if env.truth(w) else 'out')


def line(env, shape, q, off, k, few):
    """a point anywhere on a horizontal or a vertical line"""
    pl, pts = poly(env, shape, off, back=bool(k % 2), share=k % 3 > 0)
    x0, x1, y0, y1 = box(pts, 3)
    d = env.pick('dir', ['h', 'v'])
    lo, hi = (y0, y1) if d == 'h' else (x0, x1)
    c = env.pick('c', [lo + 3.5, lo + 3.0, (lo + hi) / 2.0 + 0.125] if few else
                 [lo + 3.5, lo + 3.0, lo + 4.25, (lo + hi) / 2.0 + 0.125, hi - 3.0, hi - 3.375, hi - 4])
    if d == 'h':
        x, y = env.real('t', x0, x1, q), c
    else:
        x, y = c, env.real('t', y0, y1, q)
    ex, ey = env.ex(x), env.ex(y)
    draws(env, DRAWS[k % len(DRAWS)])
    env.assume(env.Not(on_outline(env, pts, ex, ey)))
    w = enclosed(env, pts, ex, ey)
    p = env.api.Point((x, y))
    env.check(env.Iff(pl.is_internal_point(p), w), 'internal')
    env.cover('in' if env.truth(w) else 'out')


PROBES = dict(TRI=[(1, 1), (3, 2), (-1, -1), (2, 0.5), (0, 3)], SQ=[(1, 1), (0.5, 1.75), (3, 3), (-1, 1), (1, -2)],
              ELL=[(0.5, 0.5), (2, 2), (0.5, 2.5), (3, 0.5), (-2, 0.5)], DART=[(2, 1), (0.25, 1), (1.5, 1.25), (-1, 1), (0.5, 0.25)],
              MIDS=[(2, 1), (-1, 0), (1, 2.5), (2, -1), (5, 5)], UU=[(0.5, 2), (2.5, 2), (4.5, 2), (2.5, 0.5), (6, 6)],
              NOTCH=[(3, 0.5), (3, 3), (1, 1.5), (5, 3), (-1, -1)],
              WIDE=[(9, -1), (17, 3), (-2, 1), (20, -10), (1, 5)], SLIM=[(40, 14.5), (60, 22), (50, 25), (-3, -1), (38, 14)])


def rays(env, shape, free):
    off = env.pick('off', [(0.0, 0.0), (-9.0, -7.0)])
    pl, pts = poly(env, shape, off)
    pr = PROBES.get(shape) or [(1.25, 0.5), (0.5, 2.25), (-1, -1), (2.5, 2.75), (20, 20)]
    a, b = env.pick('p', pr)
    p = env.api.Point((a + off[0], b + off[1]))
    bad = env.pick('bad', [(0,), (1,), (2,), (0, 1), (1, 2)] if free == 1 else [(0, 1), (0, 2), (1, 2)])
    seq = []
    if free == 1:
        # along one of the coordinates of the target; the same for both if there are two
        t, u, ax = env.real('t', 0, 1, 7), env.pick('u', [0.0, 3 / 128., 0.5]), env.pick('axis', [0, 1])
    for k in range(3):
        if k in bad:
            if free == 1:
                seq += [t, u] if ax else [u, t]
            else:
                seq += [env.real('tx%d' % k, 0, 1, 7), env.real('ty%d' % k, 0, 1, 7)]
        else:
            seq += [(49 + k) / 128., (79 + k) / 128.]
    draws(env, seq)
    c, d = env.ex(a + off[0]), env.ex(b + off[1])
    if env.truth(on_outline(env, pts, c, d)):
        return
    w = env.truth(enclosed(env, pts, c, d))
    env.check(bool(pl.is_internal_point(p)) == w, 'internal whatever the rays')
    env.cover('in' if w else 'out')


def boundary(env, shape):
    off = env.pick('off', [(0.0, 0.0), (-9.0, -7.0)])
    pl, pts = poly(env, shape, off)
    x0, x1, y0, y1 = box(pts, 2)
    x, y = env.real('x', x0, x1, 2), env.real('y', y0, y1, 2)
    draws(env, DRAWS[0])
    p = env.api.Point((x, y))
    w = on_outline(env, pts, env.ex(x), env.ex(y))
    env.check(env.Iff(pl.is_on_boundary(p), w), 'on the boundary')
    if env.truth(w):
        v = env.Or(*[env.And(env.ex(x) == a, env.ex(y) == b) for a, b in pts])
        if env.truth(v):
            env.check(not pl.is_internal_point(p), 'vertices are not internal')
    env.cover('on' if env.truth(w) else 'off')


def place(env):
    shape = env.pick('shape', ['TRI', 'SQ'])
    x, y = env.real('x', -64, 64, 3), env.real('y', -64, 64, 3)
    P = env.api.Point
    pl = outline(env, SHAPES[shape], x, y)
    draws(env, env.pick('draws', DRAWS))
    a, b = env.pick('p', PROBES[shape])
    w = env.truth(enclosed(env, SHAPES[shape], env.ex(a), env.ex(b)))
    if env.truth(on_outline(env, SHAPES[shape], env.ex(a), env.ex(b))):
        return
    env.check(bool(pl.is_internal_point(P((x + a, y + b)))) == w, 'internal wherever it lies')
    env.check(bool(pl.is_external_point(P((x + a, y + b)))) != w, 'external wherever it lies')
    env.cover('in' if w else 'out')


# outline, the point of the outline as multiples of 0.00001, the direction away from the side
CLOSE = [('SQ', (0.75, 2.0), (0, 1)), ('SQ', (0.75, 0.0), (0, -1)), ('SQ', (2.0, 1.25), (1, 0)), ('SQ', (0.0, 1.25), (-1, 0)),
         ('ELL', (1.0, 2.25), (1, 0)), ('DART', (0.5, 0.5), (1, -1)), ('DART', (2.0, 0.5), (1, -4)), ('TRI', (2.0, 2.0), (1, 1))]


def close(env, k):
    """points next to a side"""
    shape, (a, b), (u, v) = CLOSE[k]
    off = env.pick('off', OFFS[:4])
    pl, pts = poly(env, shape, off)
    draws(env, DRAWS[k % len(DRAWS)])
    t = env.real('t', -300, 300, 0)
    env.assume(env.Or(env.ex(t) >= 3, env.ex(t) <= -3))
    ax, ay = int(round((a + off[0]) * 100000)), int(round((b + off[1]) * 100000))
    p = env.api.Point(((ax + t * u) * 0.00001, (ay + t * v) * 0.00001))
    w = enclosed(env, pts, Fraction(ax, 10 ** 5) + env.ex(t) * u / 10 ** 5, Fraction(ay, 10 ** 5) + env.ex(t) * v / 10 ** 5)
    env.check(env.Iff(pl.is_internal_point(p), w), 'internal')
    env.check(env.Iff(pl.is_external_point(p), env.Not(w)), 'external')
    env.check(not pl.is_on_boundary(p), 'not on the boundary')
    env.cover('in' if env.truth(w) else 'out')


def many(env):
    pts = ring_of(36, 20, 0.75)
    P, L = env.api.Point, env.api.LineSegment
    ps = [P((a - 30, b + 7)) for a, b in pts]
    pl = env.api.PolygonLine([L(ps[k], ps[(k + 1) % 36]) for k in range(36)])
    draws(env, DRAWS[0])
    x, y = env.real('x', -51, -9, 3), env.pick('y', [7.0625, 18.0625, -8.5625])
    w = enclosed(env, [(a - 30, b + 7) for a, b in pts], env.ex(x), Fraction(y))
    env.check(env.Iff(pl.is_internal_point(P((x, y))), w), 'internal')
    env.cover('in' if env.truth(w) else 'out')
