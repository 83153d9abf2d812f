# -*- coding: utf-8 -*-
"""helpers shared by the harnesses (Python 3.9, no z3 here)"""
from fractions import Fraction


def pt(env, n, B=16, q=3):
    return env.api.Point((env.real(n + 'x', -B, B, q), env.real(n + 'y', -B, B, q)))


def xy(env, p):
    return env.ex(p.x), env.ex(p.y)


def distinct(env, a, b):
    """the two points differ (on the grid: by at least one grid step)"""
    ax, ay = xy(env, a)
    bx, by = xy(env, b)
    return env.Or(ax != bx, ay != by)


def same(env, a, b, tol=None):
    """the two points coincide (to a tolerance)"""
    ax, ay = xy(env, a)
    bx, by = xy(env, b)
    return near_xy(env, (ax, ay), (bx, by), tol)


def near_xy(env, a, b, tol=None):
    if tol is None:
        return env.And(a[0] == b[0], a[1] == b[1])
    return env.And(near(env, a[0], b[0], tol), near(env, a[1], b[1], tol))


def near(env, u, v, tol):
    d = env.ex(u) - env.ex(v)
    return env.And(d <= tol, d >= -tol)


def crossx(env, o, a, b):
    """cross product (a-o) x (b-o), exact"""
    ox, oy = xy(env, o)
    ax, ay = xy(env, a)
    bx, by = xy(env, b)
    return (ax - ox) * (by - oy) - (ay - oy) * (bx - ox)


def dotx(env, o, a, b):
    ox, oy = xy(env, o)
    ax, ay = xy(env, a)
    bx, by = xy(env, b)
    return (ax - ox) * (bx - ox) + (ay - oy) * (by - oy)


def between(env, a, b, p):
    """p lies in the box spanned by a and b, exact"""
    ax, ay = xy(env, a)
    bx, by = xy(env, b)
    px, py = xy(env, p)
    return env.And(env.Or(env.And(ax <= px, px <= bx), env.And(bx <= px, px <= ax)),
                   env.Or(env.And(ay <= py, py <= by), env.And(by <= py, py <= ay)))


def on_seg(env, a, b, p):
    return env.And(crossx(env, a, b, p) == 0, between(env, a, b, p))


def seg(env, n, B=16, q=3, cls=None):
    a, b = pt(env, n + 'i', B, q), pt(env, n + 'j', B, q)
    env.assume(distinct(env, a, b))
    return env.api.LineSegment(a, b)


def tseg(env, n, B=16, q=3, dirs=((1, 0), (0, 1), (3, 2), (-2, 3))):
    """segment of one of a few fixed directions and lengths at a free position"""
    x, y = env.real(n + 'x', -B, B, q), env.real(n + 'y', -B, B, q)
    dx, dy = env.pick(n + 'd', list(dirs))
    return env.api.LineSegment(env.api.Point((x, y)), env.api.Point((x + dx, y + dy)))


def coords(poly):
    return [(s.i.x, s.i.y, s.j.x, s.j.y) for s in poly.segments]


def shoelace2(env, pts):
    """twice the signed area of the closed outline through pts (pairs), exact"""
    t = env.ex(0)
    n = len(pts)
    for k in range(n):
        x1, y1 = pts[k]
        x2, y2 = pts[(k + 1) % n]
        t = t + (env.ex(x1) * env.ex(y2) - env.ex(x2) * env.ex(y1))
    return t


def outline(env, shape, x=0, y=0, sx=1, sy=1, cls=None):
    """closed polygon through the vertices of shape, moved to (x, y); every vertex is one shared object"""
    P, L = env.api.Point, env.api.LineSegment
    ps = [P((x + sx * a, y + sy * b)) for a, b in shape]
    return env.api.PolygonLine([L(ps[k], ps[(k + 1) % len(ps)]) for k in range(len(ps))])


def unshared(env, shape, x=0, y=0, close=True):
    """like outline, but every segment has its own point objects"""
    P, L = env.api.Point, env.api.LineSegment
    n = len(shape)
    ls = []
    for k in range(n if close else n - 1):
        a, b = shape[k], shape[(k + 1) % n]
        ls.append(L(P((x + a[0], y + a[1])), P((x + b[0], y + b[1]))))
    return env.api.PolygonLine(ls)


# shapes: counter-clockwise, simple
TRI = [(0, 0), (4, 0), (1, 3)]
RTRI = [(0, 0), (3, 0), (0, 4)]
SQ = [(0, 0), (2, 0), (2, 2), (0, 2)]
TRAP = [(0, 0), (4, 0), (3, 2), (1, 2)]
ELL = [(0, 0), (4, 0), (4, 1), (1, 1), (1, 3), (0, 3)]
DART = [(0, 0), (4, 1), (0, 2), (1, 1)]
UU = [(0, 0), (5, 0), (5, 3), (4, 3), (4, 1), (1, 1), (1, 3), (0, 3)]
PENT = [(0, 0), (3, -1), (5, 1), (3, 4), (0, 3)]
MIDS = [(0, 0), (2, 0), (4, 0), (4, 3), (0, 3)]
def ring_of(n, r=20, dent=1.0):
    """n vertices around the origin, every other one closer by the factor dent, on the grid 1/8"""
    import math
    out = []
    for k in range(n):
        q = r * (dent if k % 2 else 1.0)
        out.append((round(8 * q * math.cos(2 * math.pi * k / n + 0.1)) / 8.0, round(8 * q * math.sin(2 * math.pi * k / n + 0.1)) / 8.0))
    return out


SHAPES = dict(TRI=TRI, RTRI=RTRI, SQ=SQ, TRAP=TRAP, ELL=ELL, DART=DART, UU=UU, PENT=PENT, MIDS=MIDS)
