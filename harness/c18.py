# -*- coding: utf-8 -*-
from harness.common import *
from harness.c11 import ALL
from harness.c16 import make, shoelace, side, somewhere

ASSUMPTIONS = ['outlines run in one direction (closed in the sense of the library); vertices on the grids stated']
WALL = dict(quick=60, thorough=1200)
# edges between numbered vertices
GRAPHS = dict(
    LOOP=[(0, 1), (1, 2), (2, 0)],
    TAIL=[(0, 1), (1, 2), (2, 0), (2, 3)],
    TAILS=[(3, 0), (0, 1), (1, 2), (2, 0), (4, 1)],
    CHAIN=[(0, 1), (1, 2), (2, 3)],
    LONG=[(0, 1), (2, 1), (2, 0), (2, 3), (4, 3)],
    TWO=[(0, 1), (2, 3)],
    EIGHT=[(0, 1), (1, 2), (2, 0), (2, 3), (3, 4), (4, 2)],
    BACK=[(1, 0), (1, 2), (0, 2), (3, 2), (3, 4), (4, 0)],
)
BASE = [(0, 0), (6, 1), (5, 5), (-1, 7), (-4, 2)]


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for k, n in enumerate(sorted(GRAPHS)):
        used = sorted({v for e in GRAPHS[n] for v in e})
        for f in used:
            nm = 'outliers-%s-%d' % (n, f)
            if nm not in [s['name'] for s in out]:
                out.append(dict(name=nm, fn='outliers', params=dict(graph=n, f=f, q=1 if quick else 3),
                                bounds='listed set of segments, one vertex free on a grid +-8 step 1/%d (so also on other vertices), segments in listed directions' % (2 if quick else 8)))
        out.append(dict(name='simplify-' + n, fn='simplified', params=dict(graph=n), bounds='the same at a free position with marker points at every segment'))
    for n in sorted(ALL):
        out.append(dict(name='corners-' + n, fn='corners', params=dict(shape=n, few=quick and n != 'MIDS'),
                        bounds='outline %s at a place %s step 1/8' % (n, '48..64 off both axes' if quick else '+-64')))
    for k in range(len(EXTRA)):
        if not quick or k % 2 == 0:
            out.append(dict(name='extra-%d' % k, fn='extra', params=dict(k=k, q=2 if quick else 4), covers=['corner', 'middle'],
                            bounds='a further vertex next to a side of a listed outline, free on a listed grid'))
        out.append(dict(name='runs-%d' % k, fn='runs', params=dict(k=k), bounds='two or three further vertices anywhere on listed sides of a listed outline'))
    out.append(dict(name='many', fn='many', params=dict(n=48), bounds='outline of 48 vertices with three tails at a place 32..64 step 1/8, the tails anywhere in the list'))
    out.append(dict(name='box', fn='box', params=dict(n=2 if quick else 3), bounds='chains of free vertices +-64 step 1/8'))
    return out


def segs(env, edges, pts):
    P, L = env.api.Point, env.api.LineSegment
    return [L(P(pts[a]), P(pts[b])) for a, b in edges]


def kept(env, s):
    """oracle: which segments have no endpoint of their own"""
    e = [(xy(env, x.i), xy(env, x.j)) for x in s]
    out = []
    for k in range(len(e)):
        ok = []
        for p in e[k]:
            ok.append(env.Or(*[near_xy(env, p, q) for j in range(len(e)) if j != k for q in e[j]]))
        out.append(env.And(*ok))
    return out


def outliers(env, graph, f, q):
    edges = GRAPHS[graph]
    u, v = env.real('u', -8, 8, q), env.real('v', -8, 8, q)
    pts = [(float(a), float(b)) for a, b in BASE]
    pts[f] = (u, v)
    s = segs(env, edges, pts)
    for x in s:
        env.assume(env.Not(near_xy(env, xy(env, x.i), xy(env, x.j))))
    want = kept(env, s)
    before = [(x.i.x, x.i.y, x.j.x, x.j.y) for x in s]
    r = env.api.polygon.remove_outlier_segments(list(s))
    ids = [id(x) for x in r]
    for k, x in enumerate(s):
        env.check(env.Iff(want[k], id(x) in ids), 'exactly the segments without an end of their own remain')
    env.check(ids == [id(x) for x in s if id(x) in ids], 'in their order')
    env.check([(x.i.x, x.i.y, x.j.x, x.j.y) for x in s] == before, 'and untouched')


def simplified(env, graph):
    x, y = env.real('x', 32, 64, 3), env.real('y', 32, 64, 3)
    edges = GRAPHS[graph]
    s = segs(env, edges, [(x + a, y + b) for a, b in BASE])
    p = env.api.PolygonLine(s)
    P = env.api.Point
    for k, z in enumerate(s):
        p.add_internal_point(P((x + k, y + 20)), z)
        p.add_external_point(P((x + k, y + 30)), z)
    want = [env.truth(w) for w in kept(env, s)]
    env.api.polygon.simplify(p)
    env.check([id(z) for z in p.segments] == [id(z) for z, w in zip(s, want) if w], 'exactly the segments without an end of their own remain')
    for name, dy in (('internal', 20), ('external', 30)):
        got = list(getattr(p, name))
        env.check(len(got) == sum(want), 'the markers of the remaining segments')
        for m, k in zip(got, [k for k in range(len(s)) if want[k]]):
            env.check(near_xy(env, xy(env, m), (env.ex(x) + k, env.ex(y) + dy)) , 'the markers of the remaining segments')
            env.check(m.segment is s[k], 'the segment of a marker')


def has(env, c, pts):
    return env.Or(*[near_xy(env, c, d) for d in pts]) if pts else False


def judge(env, p, pts, corner):
    """pts: the vertices, corner: which of them are corners"""
    pts = [(env.ex(a), env.ex(b)) for a, b in pts]
    n = len(pts)
    before = coords(p)
    r = env.api.polygon.remove_collinear_points(p)
    env.check(coords(p) == before, 'the outline given is left alone')
    env.check(r.isclosed, 'still closed')
    got = [xy(env, s.i) for s in r.segments]
    want = [pts[k] for k in range(n) if corner[k]]
    env.check(len(got) == len(want), 'as many vertices as corners')
    for c in want:
        env.check(has(env, c, got), 'every corner is kept')
    for c in got:
        env.check(has(env, c, want), 'only corners are kept')
    two, was = shoelace(got), shoelace(pts)
    env.check(env.Or(two == was, two == -was), 'the same enclosed area')
    mids, sides, _ = p.collinear_points
    mids, sides = [xy(env, c) for c in mids], [xy(env, c) for c in sides]
    ends = [k for k in range(n) if corner[k] and not (corner[k - 1] and corner[(k + 1) % n])]
    env.check(len(mids) == n - sum(corner), 'as many collinear points as there are')
    for k in range(n):
        env.check(env.truth(has(env, pts[k], mids)) == (not corner[k]), 'the collinear points')
        env.check(env.truth(has(env, pts[k], sides)) == (k in ends), 'the ends of collinear points')
    env.check(len(sides) == len(ends), 'as many ends as there are')


def bend(env, pts, k):
    n = len(pts)
    return env.truth(side(pts[k - 1], pts[k], pts[(k + 1) % n]) != 0)


def corners(env, shape, few):
    x, y = somewhere(env, few, len(shape))
    pts = [(x + a, y + b) for a, b in ALL[shape]]
    if env.pick('back', [False, True]):
        pts = pts[::-1]
    ex = [(env.ex(a), env.ex(b)) for a, b in pts]
    judge(env, make(env, pts, env.pick('share', [True, False])), pts, [bend(env, ex, k) for k in range(len(pts))])


OUT = [[(40, 30), (56, 30), (48, 46)], [(-40, 30), (-24, 34), (-28, 50), (-44, 46)], [(-40, -30), (-36, -46), (-20, -38)],
       [(30, -44), (46, -44), (46, -28), (38, -36), (30, -28)]]
# outline, side
EXTRA = [(0, 0), (0, 1), (1, 0), (1, 2), (2, 1), (2, 2), (3, 0), (3, 3)]


def extra(env, k, q):
    o, j = EXTRA[k]
    base = [(float(a), float(b)) for a, b in OUT[o]]
    a, b = base[j], base[(j + 1) % len(base)]
    t, d = env.real('t', 0.25, 0.75, 4), env.real('d', -1, 1, q)
    ux, uy = b[0] - a[0], b[1] - a[1]
    new = (a[0] + ux * t - d * (1 if uy else 0), a[1] + uy * t + d * (1 if not uy else 0))
    pts = base[:j + 1] + [new] + base[j + 1:]
    ex = [(env.ex(u), env.ex(v)) for u, v in pts]
    c = [True] * len(pts)
    c[j + 1] = bend(env, ex, j + 1)
    env.cover('corner' if c[j + 1] else 'middle')
    judge(env, make(env, pts), pts, c)


def runs(env, k):
    o, j = EXTRA[k]
    base = [(float(a), float(b)) for a, b in OUT[o]]
    n = len(base)
    m = env.pick('m', [2, 3])
    t = [env.real('t%d' % i, 0.25 * i + 0.0625, 0.25 * i + 0.1875, 4) for i in range(m)]
    pts, c = [], []
    for i in range(n):
        a, b = base[i], base[(i + 1) % n]
        pts.append(a)
        c.append(True)
        if i == j:
            for u in t[:2]:
                pts.append((a[0] + (b[0] - a[0]) * u, a[1] + (b[1] - a[1]) * u))
                c.append(False)
        if m == 3 and i == (j + 1) % n:
            pts.append((a[0] + (b[0] - a[0]) * t[2], a[1] + (b[1] - a[1]) * t[2]))
            c.append(False)
    s = env.pick('start', [0, j + 1])
    judge(env, make(env, pts[s:] + pts[:s]), pts[s:] + pts[:s], c[s:] + c[:s])


def box(env, n):
    P, L = env.api.Point, env.api.LineSegment
    ps = [pt(env, 'p%d' % k, 64) for k in range(n + 1)]
    p = env.api.PolygonLine([L(ps[k], ps[k + 1]) for k in range(n)])
    (x0, x1), (y0, y1) = p.bounding_box()
    for lo, hi, k in ((x0, x1, 0), (y0, y1, 1)):
        lo, hi = env.ex(lo), env.ex(hi)
        cs = [xy(env, q)[k] for q in ps]
        env.check(env.And(*[env.And(lo <= c, c <= hi) for c in cs]), 'every vertex is in the box')
        env.check(env.And(env.Or(*[lo == c for c in cs]), env.Or(*[hi == c for c in cs])), 'the box is tight')


def many(env, n):
    x, y = env.real('x', 32, 64, 3), env.real('y', 32, 64, 3)
    pts = ring_of(n, 20, 0.75) + [(30, 30), (-30, 2), (0, 0)]
    edges = [(k, (k + 1) % n) for k in range(n)]
    at = env.pick('at', [0, 7, n])
    edges = edges[:at] + [(3, n)] + edges[at:] + [(n + 1, n // 2), (5, n + 2)]
    s = segs(env, edges, [(x + a, y + b) for a, b in pts])
    keep = [k for k, e in enumerate(edges) if max(e) < n]
    r = env.api.polygon.remove_outlier_segments(list(s))
    env.check([id(t) for t in r] == [id(s[k]) for k in keep], 'exactly the segments without an end of their own remain')
    p = env.api.PolygonLine(s)
    env.api.polygon.simplify(p)
    env.check([id(t) for t in p.segments] == [id(s[k]) for k in keep], 'and are left when simplifying')
    bb = p.bounding_box()
    xs, ys = [a for a, _ in pts[:n]], [b for _, b in pts[:n]]
    env.check(env.And(*[near(env, env.ex(g), env.ex(w) + Fraction(c), 0) for g, w, c in zip(bb[0] + bb[1], (x, x, y, y), (min(xs), max(xs), min(ys), max(ys)))]), 'tight box')
