# -*- coding: utf-8 -*-
from harness.common import *
from harness.c11 import ALL
from harness.c13 import draws, enclosed

ASSUMPTIONS = ['outlines are listed simple shapes; the C library `triangle` is trusted to return some constrained triangulation of the outline '
               '(a stand-in supplies several different ones); draws of the random rays are fixed pseudo-random ones',
               'open chains have no inside']
WALL = dict(quick=60, thorough=1500)
# flat, with angles of nearly 180 degrees
ALL = dict(ALL, NEEDLE=[(0, 0), (32, 0), (16, 0.5)], BLADE=[(0, 0), (40, 8), (38, 8), (16, 3.5)], MANY=ring_of(12, r=10, dent=0.5))
WAYS = [((0, 0), (1, 0)), ((0, 0), (0, 1)), ((0, 0), (1, 2)), ((0, 0), (-2, 1))]


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    names = ['TRI', 'SQ', 'ELL', 'DART', 'MIDS', 'UU', 'NOTCH', 'STAR', 'SAW', 'NEEDLE', 'BLADE', 'MANY'] if quick else sorted(ALL)
    for k, n in enumerate(names):
        for v in ((k % 3,) if quick else range(4)):
            out.append(dict(name='place-%s-%d' % (n, v), fn='place', params=dict(shape=n, v=v, few=quick, f=[3.0, 1.5, 96.0][v % 3]),
                            bounds='outline %s, stretched by 3, 3/2 or 96, %s step 1/8, both ways round, triangulation %d'
                            % (n, '48..64 from both axes' if quick else 'anywhere +-64', v)))
        if not quick or n in ('SQ', 'ELL', 'MIDS', 'NOTCH'):
            out.append(dict(name='moved-' + n, fn='moved', params=dict(shape=n, v=(k + 1) % 3, few=quick),
                            bounds='outline %s, tripled, at a listed place, moved by any vector %s step 1/8, or mirrored'
                            % (n, '48..64 in both directions' if quick else '+-64')))
        if not quick or n in ('TRI', 'DART'):
            out.append(dict(name='size-' + n, fn='size', params=dict(shape=n, v=(k + 2) % 3),
                            bounds='outline %s stretched by 3/8..24, step 3/8' % n))
    for k, n in enumerate(sorted(FINE)):
        out.append(dict(name='fine-' + n, fn='fine', params=dict(shape=n, v=k % 3), bounds='outline %s (in units of 0.0001), 10..20 from both axes, step 0.0001, both ways round' % FINE[n]))
    for k in range(len(FREE)):
        out.append(dict(name='vertex-%d' % k, fn='vertex', params=dict(k=k, q=1 if quick else 2), bounds='one vertex of a listed outline free on a listed line'))
    for n in ('SQ', 'ELL', 'DART') if quick else [n for n in names if n != 'TRI']:
        out.append(dict(name='history-' + n, fn='history', params=dict(shape=n, few=quick), bounds='outline %s, built up step by step, position free' % n))
    return out


def make(env, pts, share=True):
    P, L = env.api.Point, env.api.LineSegment
    ps = [P(c) for c in pts]
    n = len(ps)
    return env.api.PolygonLine([L(ps[k], ps[(k + 1) % n]) if share else L(ps[k], P(pts[(k + 1) % n])) for k in range(n)])


def shoelace(pts):
    n = len(pts)
    s = 0
    for k in range(n):
        (a, b), (c, d) = pts[k], pts[(k + 1) % n]
        s = s + a * d - b * c
    return s


def twice(shape, f=3):
    return abs(shoelace([(Fraction(a) * f, Fraction(b) * f) for a, b in ALL[shape]]))


def side(o, a, p):
    return (a[0] - o[0]) * (p[1] - o[1]) - (a[1] - o[1]) * (p[0] - o[0])


def proper(env, a, b, c, d):
    """the segments ab and cd cross in a point inside both"""
    return env.And(env.Or(env.And(side(a, b, c) > 0, side(a, b, d) < 0), env.And(side(a, b, c) < 0, side(a, b, d) > 0)),
                   env.Or(env.And(side(c, d, a) > 0, side(c, d, b) < 0), env.And(side(c, d, a) < 0, side(c, d, b) > 0)))


def corners(env, t):
    out = []
    for s in t.segments:
        for p in (s.i, s.j):
            c = xy(env, p)
            if not any(env.truth(near_xy(env, c, d)) for d in out):
                out.append(c)
    return out


def valid(env, p, pts, say=''):
    """p's triangles are a triangulation of the outline with the vertices pts"""
    pts = [(env.ex(a), env.ex(b)) for a, b in pts]
    n = len(pts)
    tris = []
    for t in p.triangles:
        c = corners(env, t)
        env.check(len(c) == 3, 'three corners' + say)
        idx = []
        for q in c:
            hit = [k for k in range(n) if env.truth(near_xy(env, q, pts[k]))]
            env.check(len(hit) == 1, 'corners are vertices of the outline' + say)
            idx.append(hit[0])
        if env.truth(side(*c) < 0):
            c, idx = c[::-1], idx[::-1]
        tris.append((c, idx))
    total = 0
    for c, idx in tris:
        total = total + side(*c)
        g = ((c[0][0] + c[1][0] + c[2][0]) / 3, (c[0][1] + c[1][1] + c[2][1]) / 3)
        env.check(env.truth(inside(env, pts, g)), 'triangle inside the outline' + say)
        for k in range(n):
            if k not in idx:
                env.check(env.Not(env.And(*[side(c[j], c[(j + 1) % 3], pts[k]) > 0 for j in range(3)])), 'no vertex inside a triangle' + say)
            for j in range(3):
                env.check(env.Not(proper(env, c[j], c[(j + 1) % 3], pts[k], pts[(k + 1) % n])), 'no triangle crosses the outline' + say)
    for i in range(len(tris)):
        for j in range(i):
            apart = []
            for (c, _), (d, _) in ((tris[i], tris[j]), (tris[j], tris[i])):
                for k in range(3):
                    apart.append(env.And(*[side(c[k], c[(k + 1) % 3], q) <= 0 for q in d]))
            env.check(env.Or(*apart), 'triangles do not overlap' + say)
    return total


def inside(env, pts, g):
    # crossings to the right of g, with signs instead of slopes as the vertices may be symbolic
    odd = False
    n = len(pts)
    for k in range(n):
        a, b = pts[k], pts[(k + 1) % n]
        up = env.And(a[1] <= g[1], b[1] > g[1], side(a, b, g) > 0)
        dn = env.And(b[1] <= g[1], a[1] > g[1], side(a, b, g) < 0)
        if env.truth(env.Or(up, dn)):
            odd = not odd
    return odd


W = Fraction(1, 10 ** 8)


def check_area(env, p, two, say=''):
    env.check(near(env, env.ex(p.area) * 2, two, 2 * W), 'area' + say)
    for v in p.detailled_area.values():
        env.check(near(env, env.ex(v) * 2, two, 2 * W), 'detailed area' + say)


def base(env, shape, x, y, back=False, f=3, share=True):
    pts = [(x + a * f, y + b * f) for a, b in ALL[shape]]
    if back:
        pts = pts[::-1]
    return make(env, pts, share), pts


def somewhere(env, few, k):
    if not few:
        return env.real('x', -64, 64, 3), env.real('y', -64, 64, 3)
    sx, sy = [(1, 1), (-1, 1), (-1, -1), (1, -1)][k % 4]
    return env.real('x', 48, 64, 3) * sx, env.real('y', 48, 64, 3) * sy


def choice(env, few, k, name, options):
    return options[k % len(options)] if few else env.pick(name, options)


def place(env, shape, v, few, f):
    env.on_mesh(v)
    draws(env, [])
    k = v + len(shape)
    x, y = somewhere(env, few, k)
    p, pts = base(env, shape, x, y, choice(env, few, v, 'back', [False, True]), f=f, share=choice(env, few, k, 'share', [True, False]))
    before = coords(p)
    two = twice(shape, Fraction(f))
    check_area(env, p, two)
    p.triangulate()
    env.check(near(env, valid(env, p, pts), two, 2 * W), 'the triangles cover the outline')
    p.triangulate(force=True)
    env.check(near(env, valid(env, p, pts, ', again'), two, 2 * W), 'the triangles cover the outline, again')
    check_area(env, p, two, ', again')
    env.check(coords(p) == before, 'asking changes nothing')


# in units of 0.0001
FINE = dict(SLIVER=[(0, 0), (80000, 0), (80000, 1)], SPLINTER=[(0, 0), (80000, 20), (39999, 15)], LID=[(0, 0), (80000, 0), (80000, 40000), (40000, 40001), (0, 40000)],
            SPECK=[(0, 0), (40, 10), (10, 30)], BARB=[(0, 0), (43, 40), (2, 11), (-41, 47)], NICK=[(0, 0), (9000, 0), (4500, 2), (4000, 5000)])


def fine(env, shape, v):
    """very small and very thin outlines"""
    env.on_mesh(v)
    draws(env, [])
    sx, sy = [(1, 1), (-1, 1), (-1, -1), (1, -1)][(v + len(shape)) % 4]
    x, y = env.real('x', 100000, 200000, 0) * sx, env.real('y', 100000, 200000, 0) * sy
    raw = FINE[shape][::-1] if env.pick('back', [False, True]) else FINE[shape]
    pts = [((x + a) * 0.0001, (y + b) * 0.0001) for a, b in raw]
    p = make(env, pts, env.pick('share', [False, True]))
    two = abs(shoelace(raw)) * Fraction(1, 10 ** 8)
    check_area(env, p, two)
    env.check(len(p.triangles) == len(raw) - 2, 'as many triangles as needed')
    for t in p.triangles:
        env.check(env.ex(t.area) > 0, 'no flat triangles')


def moved(env, shape, v, few):
    env.on_mesh(v)
    draws(env, [])
    x, y = somewhere(env, few, v)
    p, pts = base(env, shape, 0.0, 0.0, choice(env, few, v, 'back', [False, True]), share=False)
    two = twice(shape)
    ask = env.pick('ask', ['area', 'triangulate'])
    if ask == 'area':
        check_area(env, p, two)
    else:
        p.triangulate()
    how = env.pick('how', ['move', 'mirror'])
    if how == 'move':
        p.move(x0=x, y0=y)
        pts = [(env.ex(x) + a, env.ex(y) + b) for a, b in pts]
    else:
        p.mirror_vertical(x0=x)
        pts = [(2 * env.ex(x) - a, env.ex(b)) for a, b in pts]
    p.triangulate()
    env.check(near(env, valid(env, p, pts, ', moved'), two, 2 * W), 'the triangles cover the moved outline')
    check_area(env, p, two, ', moved')


def size(env, shape, v):
    env.on_mesh(v)
    draws(env, [])
    f = env.real('f', 0.125, 8, 3) * 3
    p, pts = base(env, shape, 0.0, 0.0, f=f)
    e = env.ex(f)
    check_area(env, p, e * e * twice(shape, 1))


# the outline, the free vertex, its way and the values of the way
FREE = [
    ([(0, 0), (6, 0), (6, 6), (0, 6)], 2, (1, 1), (-2, 6)),
    ([(0, 0), (6, 0), (6, 6), (0, 6)], 1, (1, 0), (-1.5, 8)),
    ([(0, 0), (12, 0), (6, 3), (6, 12)], 2, (-1, 1), (-0.5, 0.5)),
    ([(0, 0), (9, 0), (9, 9)], 2, (-1, 0), (-6, 6)),
    ([(-9, 0), (0, 0), (9, 0), (0, 9)], 1, (0, 1), (-4, 2)),
]


def vertex(env, k, q):
    env.on_mesh(k % 3)
    draws(env, [])
    base_, j, (dx, dy), (lo, hi) = FREE[k]
    t = env.real('t', lo, hi, q) * 3
    pts = [(float(a), float(b)) for a, b in base_]
    pts[j] = (pts[j][0] + dx * t, pts[j][1] + dy * t)
    ex = [(env.ex(a), env.ex(b)) for a, b in pts]
    two = shoelace(ex)
    env.assume(two > 0)
    p = make(env, pts)
    check_area(env, p, two)
    env.check(near(env, valid(env, p, pts), two, 2 * W), 'the triangles cover the outline')


def history(env, shape, few):
    """asked while still open, then closed, then extended"""
    draws(env, [])
    x, y = somewhere(env, few, len(shape))
    P, L, G = env.api.Point, env.api.LineSegment, env.api.PolygonLine
    pts = [(x + 3 * a, y + 3 * b) for a, b in ALL[shape]]
    ps = [P(c) for c in pts]
    m = 3
    p = G([L(ps[k], ps[k + 1]) for k in range(m - 1)])
    how = env.pick('how', ['append', 'area-append', 'area-close'])
    if how != 'append':
        env.check(near(env, env.ex(p.area), 0, W), 'an open chain has no area')
    if how == 'area-close':
        p.close()
        rel = [(Fraction(3) * a, Fraction(3) * b) for a, b in ALL[shape][:m]]
        check_area(env, p, abs(shoelace(rel)), ', closed')
        return
    for k in range(m, len(ps)):
        p.append_point_at_end(ps[k])
    p.close()
    check_area(env, p, twice(shape), ', closed')
    env.check(near(env, valid(env, p, pts, ', closed'), twice(shape), 2 * W), 'the triangles cover the closed outline')
