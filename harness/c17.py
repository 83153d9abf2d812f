# -*- coding: utf-8 -*-
from itertools import permutations
from harness.common import *

ASSUMPTIONS = ['vertices on the grids stated, so that different vertices are further apart than the tolerance of equality']
WALL = dict(quick=60, thorough=1200)
# chains as lists of vertex numbers
TRI = [(0, 1), (1, 2), (2, 0)]
OPEN = [(0, 1), (1, 2), (2, 3)]
QUAD = [(0, 1), (1, 2), (2, 3), (3, 0)]
DOUBLE = [(0, 1), (0, 1), (1, 2)]
BACK = [(0, 1), (1, 0), (1, 2)]
CHAINS = dict(TRI=TRI, OPEN=OPEN, QUAD=QUAD, DOUBLE=DOUBLE, BACK=BACK)
BASE = [(0, 0), (4, 1), (3, 5), (-2, 3)]


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for n in sorted(CHAINS):
        m = len(CHAINS[n])
        for k in range(3 if quick else 6):
            out.append(dict(name='shuffle-%s-%d' % (n, k), fn='shuffle', params=dict(chain=n, k=k, few=False), covers=['same', 'different'],
                            bounds='%d segments at listed vertices, position free; the other with its own order and directions (%s) and one vertex free on a grid +-6 step 1/256'
                            % (m, 'all')))
    for k in range(len(PAIRS)):
        out.append(dict(name='pair-%d' % k, fn='pair', params=dict(k=k), bounds='listed pairs of chains on the same vertices, vertices anywhere distinct on a grid +-2 step 1/2'))
    for k in range(len(DIAG)):
        out.append(dict(name='box-%d' % k, fn='box', params=dict(k=k), bounds='listed pairs of chains on the vertices of a rectangle or a parallelogram, '
                        'at +-16, 1/2..8 wide, step 1/8, listed heights'))
    for n in ('TRI', 'OPEN') if quick else ('TRI', 'OPEN', 'QUAD'):
        out.append(dict(name='subset-' + n, fn='subset', params=dict(chain=n, q=1 if quick else 2), covers=['subset', 'no'],
                        bounds='two free vertices of the other polygon, grid +-6 step 1/%d' % (2 if quick else 4)))
    for n in (13, 34) if quick else (9, 13, 20, 34, 60):
        out.append(dict(name='long-%d' % n, fn='long_', params=dict(n=n), covers=['same', 'different'],
                        bounds='outlines of %d segments anywhere +-32 step 1/8, the other with listed orders and directions and one vertex free +-2 step 1/256' % n))
    out.append(dict(name='hash', fn='hashes', params={}, covers=['equal'], bounds='two triangles, one with a free vertex and freely reversed sides'))
    return out


def make(env, segs, pts, flips=(), order=None):
    P, L = env.api.Point, env.api.LineSegment
    out = []
    for k, (a, b) in enumerate(segs):
        if k < len(flips) and flips[k]:
            a, b = b, a
        out.append(L(P(pts[a]), P(pts[b])))
    if order:
        out = [out[k] for k in order]
    return env.api.PolygonLine(out)


def eqseg(env, s, t, directed):
    (a, b), (c, d) = s, t
    r = env.And(near_xy(env, a, c), near_xy(env, b, d))
    return r if directed else env.Or(r, env.And(near_xy(env, a, d), near_xy(env, b, c)))


def ends(env, p):
    return [(xy(env, s.i), xy(env, s.j)) for s in p.segments]


def match(env, p, q, directed):
    """some one to one assignment of the segments"""
    a, b = ends(env, p), ends(env, q)
    if len(a) != len(b):
        return False
    n = len(a)
    eq = [[eqseg(env, s, t, directed) for t in b] for s in a]
    return env.Or(*[env.And(*[eq[k][o[k]] for k in range(n)]) for o in permutations(range(n))])


def compare(env, p, q):
    ca, cb = coords(p), coords(q)
    a, b = ends(env, p), ends(env, q)
    loose, direct = match(env, p, q, False), match(env, p, q, True)
    strict = env.And(*[eqseg(env, s, t, True) for s, t in zip(a, b)]) if len(a) == len(b) else False
    for u, v, say in ((p, q, ''), (q, p, ' the other way round')):
        env.check(env.Iff(loose, env.truth(u.loose_equal(v))), 'loosely equal' + say)
        env.check(env.Iff(direct, env.truth(u.loose_equal(v, direction_matters=True))), 'equal but for the order' + say)
        env.check(env.Iff(strict, env.truth(u == v)), 'equal' + say)
        env.check(env.Iff(strict, env.Not(env.truth(u != v))), 'unequal' + say)
    env.check(coords(p) == ca and coords(q) == cb, 'asking changes nothing')
    return loose


def shuffle(env, chain, k, few):
    segs = CHAINS[chain]
    m = len(segs)
    x, y = env.real('x', -32, 32, 3), env.real('y', -32, 32, 3)
    u, v = env.real('u', -6, 6, 8), env.real('v', -6, 6, 8)
    pts = [(x + a, y + b) for a, b in BASE]
    P = make(env, segs, pts)
    orders = list(permutations(range(m)))
    o = env.pick('o', [orders[(5 * j + k) % len(orders)] for j in range(2)] if few else orders[k::6])
    f = env.pick('f', [(0, 0, 0, 0), [(1, 1, 1, 1), (0, 1, 0, 1), (1, 0, 0, 0)][k % 3]] if few else
                 [tuple((j >> i) & 1 for i in range(m)) for j in range(2 ** m)])
    j = k % 3
    pts2 = list(pts)
    pts2[j] = (x + u, y + v)
    Q = make(env, segs, pts2, f, o)
    r = compare(env, P, Q)
    env.cover('same' if env.truth(r) else 'different')


PAIRS = [(TRI, [(0, 1), (1, 2)]), (DOUBLE, BACK), (DOUBLE, [(0, 1), (1, 2), (1, 2)]), (OPEN, [(0, 1), (1, 2), (3, 2)]),
         (QUAD, [(0, 2), (2, 1), (1, 3), (3, 0)]), (TRI, TRI + [(0, 1)]), ([(0, 1), (2, 3)], [(0, 2), (1, 3)]), ([(0, 2)], [(1, 3)]), (TRI, [(0, 1), (1, 3), (3, 0)])]


def pair(env, k):
    a, b = PAIRS[k]
    u, v = env.real('u', -2, 2, 1), env.real('v', -2, 2, 1)
    pts = [(u, v)] + [(float(c) / 2, float(d) / 2) for c, d in BASE[1:]]
    for c, d in pts[1:]:
        env.assume(env.Or(env.ex(u) != env.ex(c), env.ex(v) != env.ex(d)))
    compare(env, make(env, a, pts), make(env, b, pts))


DIAG = [([(0, 2)], [(1, 3)]), ([(2, 0)], [(1, 3)]), ([(0, 1), (1, 2)], [(0, 1), (3, 2)]), ([(0, 2), (2, 1)], [(1, 3), (2, 1)]),
        ([(0, 1), (1, 2), (2, 0)], [(0, 1), (1, 3), (3, 0)]), ([(0, 1), (1, 2), (2, 3), (3, 0)], [(0, 2), (2, 1), (1, 3), (3, 0)])]


def box(env, k):
    """chains on the vertices of a rectangle or a parallelogram"""
    x, y = env.real('x', -16, 16, 3), env.real('y', -16, 16, 3)
    w, h = env.real('w', 0.5, 8, 3), env.pick('h', [1.0, 4.0])
    s = env.pick('s', [0.0, -0.5])
    pts = [(x, y), (x + w, y), (x + w + s, y + h), (x + s, y + h)]
    a, b = DIAG[k]
    compare(env, make(env, a, pts), make(env, b, pts))


def long_(env, n):
    pts = ring_of(n, r=4.0 * n, dent=0.75)
    x, y = env.real('x', -32, 32, 3), env.real('y', -32, 32, 3)
    u, v = env.real('u', -2, 2, 8), env.real('v', -2, 2, 8)
    pts = [(x + a, y + b) for a, b in pts]
    segs = [(k, (k + 1) % n) for k in range(n)]
    which = env.pick('which', [0, n // 2, n - 1])
    other = list(pts)
    other[which] = (other[which][0] + u, other[which][1] + v)
    how = env.pick('how', ['same', 'turned', 'last turned', 'shuffled', 'swapped', 'short', 'double'])
    o, f = list(range(n)), [0] * n
    if how == 'turned':
        f = [k % 2 for k in range(n)]
    elif how == 'last turned':
        f[n - 1] = 1
    elif how == 'shuffled':
        o = [(7 * k) % n for k in range(n)] if n % 7 else o[::-1]
    elif how == 'swapped':
        o[n - 1], o[n - 2] = o[n - 2], o[n - 1]
    elif how == 'short':
        o = o[:-1]
    elif how == 'double':
        o[n - 1] = 0
    p, q = make(env, segs, pts), make(env, segs, other, f, o)
    # another vertex is never within reach of the free one
    same = env.And(env.ex(u) == 0, env.ex(v) == 0)
    loose = same if how not in ('short', 'double') else False
    direct = loose if how not in ('turned', 'last turned') else False
    strict = same if how == 'same' else False
    for a, b, say in ((p, q, ''), (q, p, ' the other way round')):
        env.check(env.Iff(loose, env.truth(a.loose_equal(b))), 'loosely equal' + say)
        env.check(env.Iff(direct, env.truth(a.loose_equal(b, direction_matters=True))), 'equal but for the order' + say)
        env.check(env.Iff(strict, env.truth(a == b)), 'equal' + say)
        env.check(env.Iff(strict, env.Not(env.truth(a != b))), 'unequal' + say)
    env.cover('same' if env.truth(loose) else 'different')


def subset(env, chain, q):
    segs = CHAINS[chain]
    f, g = env.pick('turned', [((), ()), ((0, 1), (0, 1)), ((1, 0), (1, 0)), ((1, 1, 0, 1), (1, 1))])
    o = list(range(len(segs)))[::-1] if f else None
    P = make(env, segs, [(float(a), float(b)) for a, b in BASE], f, o)
    u, v = env.real('u', -6, 6, q), env.real('v', -6, 6, q)
    w, z = env.real('w', -6, 6, q), BASE[1][1]
    Q = make(env, [(0, 1), (1, 2)], [(u, v), (w, float(z)), (3.0, 5.0)], g)
    used = sorted({k for s in segs for k in s})
    one = env.Or(*[env.And(env.ex(u) == BASE[k][0], env.ex(v) == BASE[k][1]) for k in used])
    two = env.Or(*[env.And(env.ex(w) == BASE[k][0], z == BASE[k][1]) for k in used])
    want = env.And(one, two)
    r = env.truth(P.loose_subset(Q))
    env.check(env.Iff(want, r), 'loose subset exactly when all vertices are found')
    env.cover('subset' if r else 'no')
    back = env.And(*[env.Or(near_xy(env, (env.ex(u), env.ex(v)), BASE[k]), near_xy(env, (env.ex(w), env.ex(z)), BASE[k]),
                            BASE[k] == (3, 5)) for k in used])
    env.check(env.Iff(back, env.truth(Q.loose_subset(P))), 'loose subset the other way round')
    env.check(env.truth(P.loose_subset(P)) and env.truth(Q.loose_subset(Q)), 'subset of itself')


def hashes(env):
    x, y = env.real('x', -6, 6, 1), env.real('y', -6, 6, 1)
    f = env.pick('f', [(0, 0, 0), (1, 0, 1)])
    env.assume(env.Or(env.ex(x) != 4, env.ex(y) != 1))
    env.assume(env.Or(env.ex(x) != 3, env.ex(y) != 5))
    pts = [(x, y), (4.0, 1.0), (3.0, 5.0)]
    base = [(0.0, 0.0)] + pts[1:]
    for a, b in ((make(env, TRI, pts), make(env, TRI, base, f)), (make(env, TRI, pts), make(env, TRI, pts))):
        same = env.truth(a == b)
        if same:
            env.cover('equal')
            env.check(env.truth(hash(a) == hash(b)), 'equal polygons, equal hashes')
            env.check(env.truth(hash(a) == hash(a)), 'hash is stable')
            for s, t in zip(a.segments, b.segments):
                env.check(env.truth(hash(s) == hash(t)), 'equal segments, equal hashes')
        env.check(len({a, b}) == (1 if same else 2), 'set of polygons')
