# -*- coding: utf-8 -*-
import math
from harness.common import *
from harness.c21 import bare, num, side, QUADS

ASSUMPTIONS = ['the marker points of the heads are not computed here (they are the subject of C23)', 'listed diameters',
               'nodes to 6e-8: three to four roundings of coordinates to 8 decimals']
WALL = dict(quick=100, thorough=1500)
TOL = Fraction(6, 10 ** 8)
DIAM = [2.0, 3.5, 1.0, 0.7, 4.0, 16.0, 0.5, 2.4, 120.0, 1000.0]
KIND = dict(Klopperboden=(1.0, 0.1), Korbbogenboden=(0.8, 0.154))


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for cls in sorted(KIND):
        for k, d in enumerate(DIAM):
            for o in (1, -1):
                g = ['dyadic', 'decimal'][(k + (o < 0)) % 2]
                out.append(dict(name='%s-%s%s' % (cls, d, '+' if o > 0 else '-'), fn='head', params=dict(cls=cls, d=d, o=o, grid=g, k=k, free=False, few=quick), path_s=90,
                                bounds='diameter %s, listed flange, place +-64 step %s' % (d, '1/8' if g == 'dyadic' else '1/10')))
                if quick and (o < 0 or k > 2):
                    continue
                out.append(dict(name='flange-%s-%s%s' % (cls, d, '+' if o > 0 else '-'), fn='head', params=dict(cls=cls, d=d, o=o, grid=g, k=k, free=True, few=quick), path_s=90,
                                bounds='diameter %s, flange %s..8, listed place' % (d, '1/8' if g == 'dyadic' else '1/10')))
                if quick and k > 0:
                    continue
                out.append(dict(name='valid-%s-%s%s' % (cls, d, '+' if o > 0 else '-'), fn='valid', params=dict(cls=cls, d=d, o=o, grid=g, k=k, few=quick), path_s=120,
                                bounds='diameter %s, listed flange, place 48..64 from the axes, step %s' % (d, '1/8' if g == 'dyadic' else '1/10')))
        out.append(dict(name='dict-' + cls, fn='described', params=dict(cls=cls), path_s=60, bounds='descriptions at all places, every entry left out, extra entries'))
    return out


def build(env, cls, **kw):
    with bare(env):
        return getattr(env.api.vessel, cls)(name='h', **kw)


def setting(env, cls, d, o, grid, k, free, few):
    if free:
        x, y = [(3.25, -7.5), (-0.1, 0.3), (0.0, 0.0)][k % 3]
        h1 = num(env, grid, 'h1', Fraction(1, 8) if grid == 'dyadic' else Fraction(1, 10), 8)
    else:
        h1 = 0.125 if grid == 'dyadic' else [0.1, 0.05, 0.3][k % 3]
        x, y = num(env, grid, 'x', -64, 64), num(env, grid, 'y', -64, 64)
    return x, y, h1


def on_circle(env, p, c, r):
    """distance from the centre is r up to TOL (to first order)"""
    dx, dy = p[0] - c[0], p[1] - c[1]
    q = dx * dx + dy * dy
    r = Fraction(r)
    return env.And(q <= (r + TOL) * (r + TOL), q >= (r - TOL) * (r - TOL))


def head(env, cls, d, o, grid, k, free, few):
    x, y, h1 = setting(env, cls, d, o, grid, k, free, few)
    m = build(env, cls, pos_v=y, pos_h=x, d=d, h1=h1, orient=o)
    V = env.api.vessel
    R1, R2 = KIND[cls][0] * d, KIND[cls][1] * d
    h = math.sqrt((R1 - R2) ** 2 - (d / 2. - R2) ** 2)
    X, Y, H = env.ex(x), env.ex(y), env.ex(h1)
    half = Fraction(d) / 2
    s = m.segments
    walls = [t for t in s if isinstance(t, V.Wall)]
    rest = [t for t in s if not isinstance(t, V.Wall)]
    env.check(len(rest) == 1 and isinstance(rest[0], V.NonWall), 'only the base is no wall')
    env.check(side(env, rest[0], (X - half, Y), (X + half, Y), TOL), 'the base')
    kr, ka = V.KREMPE_SEGMENTS, V.KALOTTE_SEGMENTS
    env.check(len(walls) == 2 + 2 * kr + ka, 'flanges, knuckles and crown')
    # walls from one end of the base to the other
    for a, b in zip(s, s[1:] + s[:1]):
        env.check(near_xy(env, xy(env, a.j), xy(env, b.i), TOL), 'joined without gaps')
    first = walls[0] if o > 0 else walls[0]
    sgn = 1 if o > 0 else -1        # a head downwards is turned by half a turn
    pts = [xy(env, t.i) for t in walls] + [xy(env, walls[-1].j)]
    env.check(near_xy(env, pts[0], (X + sgn * half, Y), TOL), 'starts at the base')
    env.check(near_xy(env, pts[1], (X + sgn * half, Y + sgn * H), TOL), 'straight flange')
    env.check(near_xy(env, pts[-2], (X - sgn * half, Y + sgn * H), TOL), 'straight flange')
    env.check(near_xy(env, pts[-1], (X - sgn * half, Y), TOL), 'ends at the base')
    c1 = (X, Y + sgn * (H - Fraction(h)))
    for j, p in enumerate(pts[1:-1]):
        right = j <= kr
        left = j >= kr + ka
        if right or left:
            cx = (half - Fraction(R2)) * (1 if right else -1) * sgn
            env.check(on_circle(env, p, (X + cx, Y + sgn * H), R2), 'knuckle nodes on their circle')
        if not (j < kr or j > kr + ka):
            env.check(on_circle(env, p, c1, R1), 'crown nodes on their circle')
        # equal steps along the curve, seen from the centre: mirrored nodes
        q = pts[1:-1][len(pts) - 3 - j]
        env.check(near_xy(env, p, (2 * X - q[0], q[1]), 2 * TOL), 'axisymmetric')
    # monotonic along the axis from the edge to the apex and never outside the diameter
    mid = 1 + kr + ka // 2
    for a, b in zip(pts[:mid], pts[1:mid + 1]):
        env.check((b[1] - a[1]) * sgn > 0, 'bulges to the requested side')
    env.check(near(env, pts[mid][1], c1[1] + sgn * Fraction(R1), TOL), 'the apex')
    g = m.graph.segments
    hg = Fraction(max(0.1, d / 1000.))
    ends = [(X - half, Y), (X, Y + sgn * hg), (X + half, Y)]
    env.check(len(g) == 2, 'two sides in the replacement outline')
    env.check(side(env, g[0], ends[0], ends[1], TOL), 'the replacement outline')
    env.check(side(env, g[1], ends[1], ends[2], TOL), 'the replacement outline')


def valid(env, cls, d, o, grid, k, few):
    h1 = 0.125 if grid == 'dyadic' else [0.1, 0.05, 0.3][k % 3]
    sx, sy = QUADS[k % 4] if few else env.pick('quad', QUADS)
    x, y = num(env, grid, 'x', 48, 64) * sx, num(env, grid, 'y', 48, 64) * sy
    m = build(env, cls, pos_v=y, pos_h=x, d=d, h1=h1, orient=o)
    env.check(bool(m.isclosed), 'closed')
    if not few:
        env.check(bool(m.isvalid), 'valid')


def described(env, cls):
    C = getattr(env.api.vessel, cls)
    ad = dict(name='part', pos_v=env.real('y', -16, 16, 3), pos_h=env.real('x', -16, 16, 3), d=2.0, h1=0.125, orient=env.pick('orient', [1, -1]))
    how = env.pick('how', ['good'] + sorted(ad) + ['more'])
    keys = sorted(ad)
    with bare(env):
        if how == 'good':
            m = C.from_dict(ad)
            w = C(**ad)
            env.check(type(m) is C, 'a part of its own kind')
            env.check(m.name == 'part' and sorted(ad) == keys, 'name kept, description unchanged')
            env.check(len(m.segments) == len(w.segments), 'the same part as from the values')
            for s, u in zip(m.segments, w.segments):
                env.check(type(s) is type(u), 'the same part as from the values')
                env.check(env.And(near_xy(env, xy(env, s.i), xy(env, u.i)), near_xy(env, xy(env, s.j), xy(env, u.j))), 'the same part as from the values')
        else:
            if how in ad:
                del ad[how]
            else:
                ad['colour'] = 1.0
            r = env.attempt(C.from_dict, ad)
            env.check(hasattr(r, 'exc'), 'a missing or unknown entry is refused')
