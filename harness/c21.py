# -*- coding: utf-8 -*-
from harness.common import *

ASSUMPTIONS = ['the marker points of the parts are not computed here (they are the subject of C23)',
               'coordinates to 1e-8 (a rounding to 8 decimals) plus float noise when sizes are decimal fractions']
WALL = dict(quick=100, thorough=1500)
TOL = Fraction(15, 10 ** 9)
QUADS = [(1, 1), (-1, 1), (-1, -1), (1, -1)]


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    grids = ['dyadic', 'decimal', 'mm']
    for g in grids:
        step = '1/8' if g == 'dyadic' else '1/10' if g == 'decimal' else '1/8, all of it 64 times as big'
        for cls in ('Mantel', 'StandZarge'):
            out.append(dict(name='%s-%s' % (cls, g), fn='shell', params=dict(cls=cls, grid=g), path_s=60, covers=['cylinder', 'cone', 'wide'],
                            bounds='diameters 1..64, height 1/8..64, place +-64, step %s' % step))
            out.append(dict(name='valid-%s-%s' % (cls, g), fn='valid', params=dict(cls=cls, grid=g, few=quick), path_s=120, covers=['cylinder', 'cone', 'wide'],
                            bounds='diameters and height of listed parts, place 1..64 in all quadrants, step %s; and %s at listed places' % (step, 'one free diameter' if quick and g == 'decimal' else 'free sizes')))
        for cls in ('Flachboden', 'RaumEnde'):
            out.append(dict(name='%s-%s' % (cls, g), fn='flat', params=dict(cls=cls, grid=g), path_s=60, bounds='diameter 1/8..64, place +-64, step %s' % step))
    for cls in ('Mantel', 'StandZarge', 'Flachboden', 'RaumEnde'):
        out.append(dict(name='dict-' + cls, fn='described', params=dict(cls=cls), path_s=60, bounds='descriptions with values of a grid, every entry left out, extra entries'))
    return out


class bare(object):
    """no marker points while a part is built"""

    def __init__(self, env):
        self.g = env.api.group.Graph

    def __enter__(self):
        self.old = self.g.__dict__.get('add_intex_points')
        if self.old is not None:
            self.g.add_intex_points = lambda s: None

    def __exit__(self, *a):
        if self.old is not None:
            self.g.add_intex_points = self.old


def num(env, grid, name, lo, hi):
    if grid == 'dyadic':
        return env.real(name, lo, hi, 3)
    if grid == 'mm':
        return env.real(name, lo, hi, 3) * 64
    return env.real(name, lo * 10, hi * 10, 0) / 10.


def tol(env, grid):
    return TOL if grid == 'decimal' else Fraction(0)


def sizes(env, grid):
    kind = env.pick('kind', ['cylinder', 'cone', 'wide'])
    env.cover(kind)
    a = num(env, grid, 'a', 1, 64)
    b = a
    if kind != 'cylinder':
        b = num(env, grid, 'b', 1, 64)
        env.assume((env.ex(a) < env.ex(b)) if kind == 'cone' else (env.ex(a) > env.ex(b)))
    return a, b, num(env, grid, 'h', Fraction(1, 8) if grid != 'decimal' else Fraction(1, 10), 64)


def corners(env, x, y, a, b, h):
    x, y, a, b, h = [env.ex(v) for v in (x, y, a, b, h)]
    return [(x + a / 2, y), (x + b / 2, y + h), (x - b / 2, y + h), (x - a / 2, y)]


def side(env, s, u, v, t):
    p, q = xy(env, s.i), xy(env, s.j)
    return env.Or(env.And(near_xy(env, p, u, t), near_xy(env, q, v, t)), env.And(near_xy(env, p, v, t), near_xy(env, q, u, t)))


def outline(env, m, cls, c, t):
    V = env.api.vessel
    env.check(len(m.segments) == 4, 'four sides')
    for k in range(4):
        u, v = c[k], c[(k + 1) % 4]
        s = [s for s in m.segments if env.truth(side(env, s, u, v, t))]
        env.check(len(s) == 1, 'each side of the trapezoid once')
        wall = k in (0, 2) or (k == 3 and cls == 'StandZarge')
        env.check(isinstance(s[0], V.Wall if wall else V.NonWall), 'sides are walls, ends are not (the lower end of a skirt is)')
    for s, n in zip(m.segments, m.segments[1:] + m.segments[:1]):
        env.check(near_xy(env, xy(env, s.j), xy(env, n.i)), 'head to tail and closed')
    env.check(len(m.wall_segments) == (3 if cls == 'StandZarge' else 2), 'walls')
    env.check(len(m.wall_segments) + len(m.nonwall_segments) == 4, 'walls and others')
    env.check(len(m.graph.segments) == len(m.wall_segments), 'the replacement outline has the walls')
    for s in m.graph.segments:
        env.check(any(env.truth(side(env, s, xy(env, w.i), xy(env, w.j), t)) for w in m.wall_segments), 'the replacement outline has the walls')


def shell(env, cls, grid):
    a, b, h = sizes(env, grid)
    x, y = num(env, grid, 'x', -64, 64), num(env, grid, 'y', -64, 64)
    with bare(env):
        m = getattr(env.api.vessel, cls)(name='m', pos_v=y, pos_h=x, d=(a, b), h=h)
    outline(env, m, cls, corners(env, x, y, a, b, h), tol(env, grid))


LISTED = [(2.0, 2.0, 4.0), (2.0, 3.0, 0.5), (8.0, 1.0, 1.0), (0.8, 4.3, 1.7), (3.3, 3.3, 0.1), (0.7, 0.3, 5.9)]


def valid(env, cls, grid, few):
    how = env.pick('how', ['place', 'size'])
    env.cover(how)
    if how == 'place':
        k = env.pick('part', list(range(len(LISTED)))[:3] if grid != 'decimal' else [3, 4, 5])
        a, b, h = [v * (64 if grid == 'mm' else 1) for v in LISTED[k]]
        sx, sy = QUADS[k % 4] if few else env.pick('quad', QUADS)
        x, y = num(env, grid, 'x', 1, 64) * sx, num(env, grid, 'y', 1, 64) * sy
    else:
        if few and grid == 'decimal':
            # the smaller diameter is listed, the other and the height are free
            kind = env.pick('kind', ['cylinder', 'cone', 'wide'])
            env.cover(kind)
            a = num(env, grid, 'a', 5, 64)
            b = a if kind == 'cylinder' else 4.3
            a, b = (b, a) if kind == 'cone' else (a, b)
            h = 1.7
        else:
            a, b, h = sizes(env, grid)
        x, y = env.pick('at', [(-6.5, 3.25), (0.0, 0.0)] if grid != 'decimal' else [(-0.1, 0.3), (9.1, -2.2)])
    with bare(env):
        m = getattr(env.api.vessel, cls)(name='m', pos_v=y, pos_h=x, d=(a, b), h=h)
    env.check(bool(m.isvalid), 'valid')
    env.check(bool(m.isclosed), 'closed')
    env.check(bool(m.isconvex), 'convex')


def flat(env, cls, grid):
    d = num(env, grid, 'd', 1, 64)
    x, y = num(env, grid, 'x', -64, 64), num(env, grid, 'y', -64, 64)
    with bare(env):
        f = getattr(env.api.vessel, cls)(name='f', pos_v=y, pos_h=x, d=d)
    t = tol(env, grid)
    X, Y, D = env.ex(x), env.ex(y), env.ex(d)
    env.check(len(f.segments) == 1 and isinstance(f.segments[0], env.api.vessel.Wall), 'one wall')
    env.check(side(env, f.segments[0], (X - D / 2, Y), (X + D / 2, Y), t), 'from edge to edge')
    env.check(bool(f.isvalid), 'valid')
    env.check(len(f.graph.segments) == 1, 'the replacement outline is the wall')
    env.check(side(env, f.graph.segments[0], xy(env, f.segments[0].i), xy(env, f.segments[0].j), t), 'the replacement outline is the wall')


def described(env, cls):
    C = getattr(env.api.vessel, cls)
    n = [env.real('v%d' % k, 1, 16, 3) for k in range(5)]
    shell = cls in ('Mantel', 'StandZarge')
    ad = dict(name='part', pos_v=n[0], pos_h=n[1])
    if shell:
        ad['d'], ad['h'] = (n[2], n[3]), n[4]
    else:
        ad['d'] = n[2]
    how = env.pick('how', ['good'] + sorted(ad) + ['more', 'height'])
    keys = sorted(ad)
    with bare(env):
        if how == 'good':
            m = C.from_dict(ad)
            w = C(**ad)
            env.check(type(m) is C, 'a part of its own kind')
            env.check(m.name == 'part' and sorted(ad) == keys, 'name kept, description unchanged')
            env.check(len(m.segments) == len(w.segments), 'the same part as from the values')
            for s, u in zip(m.segments, w.segments):
                env.check(type(s) is type(u), 'the same part as from the values')
                env.check(env.And(near_xy(env, xy(env, s.i), xy(env, u.i)), near_xy(env, xy(env, s.j), xy(env, u.j))), 'the same part as from the values')
        else:
            if how in ad:
                del ad[how]
            else:
                ad['colour' if how == 'more' else 'hight'] = 1.0
            r = env.attempt(C.from_dict, ad)
            env.check(hasattr(r, 'exc'), 'a missing or unknown entry is refused')
