# -*- coding: utf-8 -*-
from itertools import combinations, permutations
from harness.common import *

ASSUMPTIONS = ['vertices on the grids stated, so that different vertices are further apart than the tolerance of equality, except in the scenarios about merging']
WALL = dict(quick=60, thorough=900)
BASE = [(0, 0), (4, 1), (3, 5), (-2, 3)]
NETS = dict(
    OPEN=[(0, 1), (1, 2), (2, 3)],
    TRI=[(0, 1), (1, 2), (2, 0)],
    FORK=[(0, 1), (1, 2), (2, 0), (2, 3), (1, 3)],
    MESS=[(1, 0), (3, 2), (1, 2), (0, 3)],
    TWICE=[(0, 1), (1, 2), (2, 0), (1, 0)],
)
LOOPS = dict(TRI=TRI, SQ=SQ, DART=DART, ELL=ELL, MANY=ring_of(20, dent=0.75))


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for n in sorted(NETS):
        out.append(dict(name='find-' + n, fn='find', params=dict(net=n), covers=['hit', 'none'],
                        bounds='segments of %s at a free place +-32 step 1/8, the point anywhere within 8 of it, step 1/256' % n))
    for n in sorted(LOOPS):
        out.append(dict(name='next-' + n, fn='next_', params=dict(shape=n), bounds='outline %s anywhere +-64 step 1/8, both directions, every segment' % n))
        out.append(dict(name='merge-' + n, fn='merge', params=dict(shape=n), bounds='outline %s of separate points anywhere +-64 step 1/8' % n))
        out.append(dict(name='ends-' + n, fn='ends', params=dict(shape=n), bounds='chain along %s anywhere +-64 step 1/8, new points free +-16 step 1/8' % n))
    for k in range(len(CROSS)):
        out.append(dict(name='crossings-%d' % k, fn='crossings', params=dict(k=k, q=0 if quick else 2), covers=['some'],
                        bounds='a listed net of segments, one vertex free +-8 step %s' % ('1' if quick else '1/4')))
    out.append(dict(name='near', fn='near_', params={}, bounds='square of separate points, some of the coincident ones up to 0.000004 apart, at a free place'))
    out.append(dict(name='middle', fn='middle', params=dict(q=3), covers=['four', 'three'],
                    bounds='four vertices, one free +-8 step 1/8, possibly equal to another'))
    for k in range(len(THREE)):
        out.append(dict(name='triangle-%d' % k, fn='triangle', params=dict(k=k),
                        bounds='closed outline of three listed segments 48..64 from both axes, step 1/8'))
    out.append(dict(name='nottriangle', fn='nottriangle', params={}, bounds='open chains of three and closed outlines of four segments at a free place +-16 step 1/8'))
    out.append(dict(name='lookup', fn='lookup', params={}, covers=['found', 'none'],
                    bounds='group of a triangle and a square, the polygon looked for with one free vertex +-6 step 1/8'))
    return out


def chain(env, pts, net):
    """segments with their own point objects"""
    P, L = env.api.Point, env.api.LineSegment
    return [L(P(pts[a]), P(pts[b])) for a, b in net]


def sameset(a, b):
    return len(a) == len(b) and all(any(x is y for y in b) for x in a)


def find(env, net):
    x, y = env.real('x', -32, 32, 3), env.real('y', -32, 32, 3)
    u, v = env.real('u', -8, 8, 8), env.real('v', -8, 8, 8)
    pts = [(x + a, y + b) for a, b in BASE]
    ls = chain(env, pts, NETS[net])
    pl = env.api.PolygonLine(ls)
    p = env.api.Point((x + u, y + v))
    before = coords(pl)
    s = [k for k in range(len(ls)) if env.truth(same(env, ls[k].i, p))]
    e = [k for k in range(len(ls)) if env.truth(same(env, ls[k].j, p))]
    a = pl.find_segment_by_point(p)
    b = pl.find_segment_by_point(p, whichend='end')
    c = pl.find_segment_by_point(point=p, whichend='both')
    env.check(sameset(a, [ls[k] for k in s]), 'segments starting at the point')
    env.check(sameset(b, [ls[k] for k in e]), 'segments ending at the point')
    env.check(sameset(c, [ls[k] for k in sorted(set(s + e))]), 'segments with the point')
    nb = pl.neighbour(p)
    want = [xy(env, ls[k].j) for k in s] + [xy(env, ls[k].i) for k in e]
    env.check(len(nb) == len(want), 'as many neighbours as segments')
    env.check(env.Or(*[env.And(*[near_xy(env, xy(env, g), w) for g, w in zip(o, want)]) for o in permutations(nb)]) if want else True,
              'the neighbours are the other ends')
    if s or e:
        env.check(getattr(env.attempt(pl.find_segment_by_point, p, 'middle'), 'name', None) is not None, 'unknown ends are refused')
    env.check(coords(pl) == before, 'asking changes nothing')
    env.cover('hit' if s or e else 'none')


def next_(env, shape):
    x, y = env.real('x', -64, 64, 3), env.real('y', -64, 64, 3)
    pts = [(x + a, y + b) for a, b in LOOPS[shape]]
    if env.pick('back', [False, True]):
        pts = pts[::-1]
    n = len(pts)
    ls = chain(env, pts, [(k, (k + 1) % n) for k in range(n)])
    pl = env.api.PolygonLine(ls)
    for k in range(n):
        env.check(pl.next_segment(ls[k]) is ls[(k + 1) % n], 'the next segment begins where this one ends')
        env.check(pl.next_segment(ls[k].line_reversed) is ls[k], 'by the end of whatever segment')
    env.check(pl.first_segment is ls[0] and pl.last_segment is ls[-1], 'first and last segment')
    env.check(pl.first_point is ls[0].i and pl.last_point is ls[-1].j, 'first and last point')
    op = env.api.PolygonLine(ls[:-1])
    env.check(getattr(env.attempt(op.next_segment, ls[0]), 'name', None) is not None, 'refused for an open chain')
    env.check(bool(op.isopen) and not pl.isopen, 'open')


def merge(env, shape):
    x, y = env.real('x', -64, 64, 3), env.real('y', -64, 64, 3)
    pts = [(x + a, y + b) for a, b in LOOPS[shape]]
    n = len(pts)
    net = [(k, (k + 1) % n) for k in range(n)]
    how = env.pick('how', [0, 1, 2])
    if how == 1:
        net = [(b, a) if k % 2 else (a, b) for k, (a, b) in enumerate(net)]
    elif how == 2:
        net = net + [(0, 2)]
    ls = chain(env, pts, net)
    pl = env.api.PolygonLine(ls)
    before = coords(pl)
    pl.purge()
    env.check(coords(pl) == before, 'merging moves nothing')
    env.check(all(a is b for a, b in zip(pl.segments, ls)) and len(pl.segments) == len(ls), 'the segments stay')
    env.check(len({id(p) for s in ls for p in s.ij}) == n, 'one object per vertex')
    for s, (a, b) in zip(ls, net):
        for t, (c, d) in zip(ls, net):
            env.check((s.i is t.i) == (a == c) and (s.j is t.j) == (b == d) and (s.i is t.j) == (a == d), 'coincident points are one object')
    env.check(bool(pl.purged), 'noted')
    pl.purge()
    env.check(coords(pl) == before and len({id(p) for s in ls for p in s.ij}) == n, 'merging again changes nothing')


def near_(env):
    x, y = env.real('x', -16, 16, 3), env.real('y', -16, 16, 3)
    P, L = env.api.Point, env.api.LineSegment
    off = env.pick('off', [(0.000004, 0.0), (0.0, -0.000004), (0.000003, 0.000003)])
    which = env.pick('which', [0, 1, 2, 3])
    n = 4
    ls = []
    for k in range(n):
        a, b = SQ[k], SQ[(k + 1) % n]
        d = off if k == which else (0.0, 0.0)
        ls.append(L(P((x + a[0], y + a[1])), P((x + b[0] + d[0], y + b[1] + d[1]))))
    pl = env.api.PolygonLine(ls)
    c = [(env.ex(s.i.x), env.ex(s.i.y), env.ex(s.j.x), env.ex(s.j.y)) for s in ls]
    pl.purge()
    t = Fraction(1, 10 ** 5)
    for s, w in zip(ls, c):
        env.check(env.And(*[near(env, g, v, t) for g, v in zip((s.i.x, s.i.y, s.j.x, s.j.y), w)]), 'merging moves points by less than the tolerance')
    for k in range(n):
        env.check(env.truth(ls[k].j == ls[(k + 1) % n].i), 'still connected')
    env.check(bool(pl.isclosed), 'closed after merging')


def ends(env, shape):
    x, y = env.real('x', -64, 64, 3), env.real('y', -64, 64, 3)
    u, v = env.real('u', -16, 16, 3), env.real('v', -16, 16, 3)
    pts = [(x + a, y + b) for a, b in LOOPS[shape]]
    n = len(pts)
    ls = chain(env, pts, [(k, k + 1) for k in range(n - 1)])
    pl = env.api.PolygonLine(list(ls))
    first, last = ls[0].i, ls[-1].j
    p = env.api.Point((x + u, y + v))
    env.assume(env.And(env.Not(same(env, p, first)), env.Not(same(env, p, last))))
    if env.pick('at', ['end', 'beginning']) == 'end':
        pl.append_point_at_end(p)
        s = pl.segments
        env.check(len(s) == n and all(a is b for a, b in zip(s, ls)), 'the others stay')
        env.check(s[-1].j is p and s[-1].i is last and pl.last_point is p and pl.first_point is first, 'one more segment at the end')
    else:
        pl.append_point_at_beginning(p)
        s = pl.segments
        env.check(len(s) == n and all(a is b for a, b in zip(s[1:], ls)), 'the others stay')
        env.check(s[0].i is p and s[0].j is first and pl.first_point is p and pl.last_point is last, 'one more segment at the beginning')
    env.check(bool(pl.iscontinuous), 'continuous')


# nets: vertices (None: the free one), segments
CROSS = [([(0, 0), (4, 4), (0, 4), None], [(0, 1), (2, 3)]),
         ([(-4, 0), (4, 0), (0, -3), None, (2.5, 5)], [(0, 1), (2, 3), (3, 4)]),
         ([(-4, 1), (4, 1), (-2, -6), (-1, 6), None], [(0, 1), (2, 3), (4, 0), (1, 4)]),
         ([(0, 0), (6, 2), None, (3, -3)], [(1, 0), (0, 2), (2, 3), (3, 1)])]


def crossings(env, k, q):
    base, net = CROSS[k]
    u, v = env.real('u', -8, 8, q), env.real('v', -8, 8, q)
    pts = [(u, v) if c is None else (float(c[0]), float(c[1])) for c in base]
    for c in base:
        if c is not None:
            env.assume(env.Or(env.ex(u) != c[0], env.ex(v) != c[1]))
    ls = chain(env, pts, net)
    pl = env.api.PolygonLine(ls)
    pairs = [(a, b, env.truth(a.intersection_on_segment(b))) for a, b in combinations(ls, 2)]        # decided by C05
    got = env.api.polygon.intersecting_lines(ls)
    both = pl.crossing_lines
    n = 0
    for a, b, w in pairs:
        n += bool(w)
        h = [t for t in got if (t[0] is a and t[1] is b) or (t[0] is b and t[1] is a)]
        env.check(len(h) == (1 if w else 0), 'exactly the crossing pairs, once')
        env.check(len([t for t in both if t[0] is a and t[1] is b]) == (1 if w else 0), 'crossing lines of the polygon')
        env.check(len([t for t in both if t[0] is b and t[1] is a]) == (1 if w else 0), 'crossing lines of the polygon, swapped')
    env.check(len(got) == n and len(both) == 2 * n, 'and nothing else')
    env.cover('some' if n else 'none')


def middle(env, q):
    u, v = env.real('u', -8, 8, q), env.real('v', -8, 8, q)
    pts = [(float(a), float(b)) for a, b in BASE[:3]] + [(u, v)]
    net = env.pick('net', [[(0, 1), (1, 2), (2, 3)], [(3, 1), (1, 0), (0, 2), (2, 3)], [(1, 3), (2, 0)]])
    i = [k for k in range(3) if env.truth(env.And(env.ex(u) == BASE[k][0], env.ex(v) == BASE[k][1]))]
    env.assume(not any(env.truth(env.And(env.ex(pts[a][0]) == env.ex(pts[b][0]), env.ex(pts[a][1]) == env.ex(pts[b][1]))) for a, b in net))
    pl = env.api.PolygonLine(chain(env, pts, net))
    m = pl.midpoint
    n = 3 if i else 4
    sx, sy = sum(a for a, _ in BASE[:3]), sum(b for _, b in BASE[:3])
    if not i:
        sx, sy = sx + env.ex(u), sy + env.ex(v)
    t = Fraction(1, 10 ** 7)
    env.check(env.And(near(env, env.ex(m.x) * n, sx, t), near(env, env.ex(m.y) * n, sy, t)), 'average of the distinct vertices')
    env.cover('three' if i else 'four')


THREE = [([(0, 0), (4, 0), (1, 3)], True), ([(0, 0), (0, 5), (-2, 1)], True), ([(0, 0), (4, 2), (2, 1)], False), ([(0, 0), (0, 1), (0, -3)], False),
         ([(0, 0), (8, 0.5), (4, 0.375)], True), ([(0, 0), (3, 1), (6, 2)], False)]


def triangle(env, k):
    pts, w = THREE[k]
    sx, sy = [(1, 1), (-1, 1), (-1, -1), (1, -1)][k % 4]
    x, y = env.real('x', 48, 64, 3) * sx, env.real('y', 48, 64, 3) * sy
    net = env.pick('net', [[(0, 1), (1, 2), (2, 0)], [(2, 1), (1, 0), (0, 2)]])
    env.on_mesh(k % 3)
    pl = env.api.PolygonLine(chain(env, [(x + a, y + b) for a, b in pts], net))
    env.check(bool(pl.is_triangle) == w, 'a triangle exactly when the vertices are not on a line')


def nottriangle(env):
    x, y = env.real('x', -16, 16, 3), env.real('y', -16, 16, 3)
    pts = [(x + a, y + b) for a, b in BASE]
    for net in ([(0, 1), (1, 2), (2, 3)], [(0, 1), (1, 2), (2, 3), (3, 0)], [(0, 1), (1, 2)], [(0, 1), (1, 2), (0, 2)]):
        pl = env.api.PolygonLine(chain(env, pts, net))
        env.check(not env.truth(pl.is_triangle), 'not a closed outline of three segments')


def lookup(env):
    u, v = env.real('u', -6, 6, 3), env.real('v', -6, 6, 3)
    f = env.pick('f', [False, True])
    net = [(0, 1), (1, 2), (2, 0)]
    G = env.api.group
    base = [(float(a), float(b)) for a, b in BASE]
    one = env.api.PolygonLine(chain(env, base, net))
    two = env.api.PolygonLine(chain(env, [(a + 9., b) for a, b in base], [(0, 1), (1, 2), (2, 3), (3, 0)]))
    for k in (1, 2):
        env.assume(env.Or(env.ex(u) != BASE[k][0], env.ex(v) != BASE[k][1]))
    q = env.api.PolygonLine(chain(env, [(u, v)] + base[1:], net))
    g = G.PolygonGroup([two, one] if f else [one, two])
    env.check(g.polygon_from_repr(two) is two and g.polygon_from_repr(one) is one, 'found by itself')
    r = env.attempt(g.polygon_from_repr, q)
    w = env.truth(env.And(env.ex(u) == 0, env.ex(v) == 0))
    env.check((r is one) if w else getattr(r, 'name', None) is not None, 'found exactly when equal')
    env.cover('found' if w else 'none')
    h = G.PolygonGroup([one, two, env.api.PolygonLine(chain(env, base, net))])
    env.check(getattr(env.attempt(h.polygon_from_repr, one), 'name', None) is not None, 'refused when ambiguous')
    env.check(h.polygon_from_repr(two) is two, 'the others are found')
