# -*- coding: utf-8 -*-
from harness.common import *
from harness.c13 import draws

ASSUMPTIONS = ['pairs of listed triangles at every relative position stated; draws of the random rays are fixed pseudo-random ones',
               'a vertex exactly on the boundary of the other triangle settles nothing about enclosure']
WALL = dict(quick=60, thorough=1500)
T1 = [(0, 0), (4, 0), (0, 4)]
T2 = [(0, 0), (4, 0), (1, 3)]
T3 = [(0, 0), (2, 2), (-2, 2)]
T4 = [(0, 0), (8, 1), (4, 3)]
T5 = [(0, 0), (1, 0), (0, 1)]
T6 = [(0, 0), (0, 8), (-6, 2)]
T7 = [(0, 0), (2, 0), (0, -2)]
T8 = [(0.5, 0.5), (1.5, 0.5), (0.5, 1.5)]
T9 = [(0, 2), (2, 2), (2, 0)]
TS = [T1, T2, T3, T4, T5, T6, T7, T8, T9]
SCALES = [0.015625, 256.0, 4096.0]
PAIRS = [(0, 0), (0, 4), (0, 6), (1, 2), (3, 5), (0, 8), (4, 6), (2, 2), (0, 7), (1, 7), (3, 7), (5, 3), (6, 8), (2, 7)]
# a straight way of the second triangle: from, direction
WAYS = [((0, 0), (1, 0)), ((0, 0), (0, 1)), ((4, 0), (-1, 1)), ((-4, 0), (1, 0)), ((1, 1), (2, 1)), ((0, -2), (1, 0)), ((0.5, 2), (1, -1)),
        ((-1, 3), (1, -2))]
ORDERS = [(0, 0), (1, 2), (2, 5), (3, 7), (4, 1), (5, 6)]


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for n, (a, b) in enumerate(PAIRS):
        for s, z in enumerate(SCALES):
            if not quick or n % 6 == s:
                out.append(dict(name='scale-%d-%d-%d' % (s, a, b), fn='overlap', params=dict(a=a, b=b, q=0 if quick else 2, k=n, z=z), covers=['meet', 'apart'],
                                bounds='both triangles %s times as big, the second anywhere within 12 units of the first, step 1%s unit' % (z, '' if quick else '/4')))
        out.append(dict(name='overlap-%d-%d' % (a, b), fn='overlap', params=dict(a=a, b=b, q=3 if quick else 5, k=n), covers=['meet', 'apart'],
                        bounds='second triangle anywhere within 12 of the first, step 1/%d, listed orders and directions of sides' % (8 if quick else 32)))
        for w in range(len(WAYS)):
            if quick and w != (n * 3) % 8:
                continue
            out.append(dict(name='slide-%d-%d-%d' % (a, b, w), fn='slide', params=dict(a=a, b=b, w=w, q=3 if quick else 5, k=n + w),
                            bounds='second triangle anywhere on a listed straight way, 12 to both sides, step 1/%d; touch, disjunct, congruent' % (8 if quick else 32)))
            if not quick or (b in (4, 7)):
                out.append(dict(name='enclosed-%d-%d-%d' % (a, b, w), fn='enclosed', params=dict(a=a, b=b, w=w, q=3, k=n + w),
                                bounds='second triangle anywhere on a listed straight way, 12 to both sides, step 1/8; enclosed'))
    for k in (0, 1, 3, 5) if quick else range(len(TS)):
        for way in ('one', 'centre'):
            out.append(dict(name='same-%s-%d' % (way, k), fn='same', params=dict(k=k, way=way, q=1 if quick else 2), covers=['yes', 'no'],
                            bounds='a triangle with %s, +-12 step 1/%d, listed orders and directions of sides' % ('a free vertex and two of the other one' if way == 'one' else 'a free vertex, a listed one and the centre of the other one', 2 if quick else 4)))
    for k in range(len(PLACES)):
        if not quick or k % 3 == 0:
            out.append(dict(name='place-%d' % k, fn='place', params=dict(k=k), bounds='a listed pair anywhere +-64, step 1/8'))
    return out


def tri(env, T, dx=0, dy=0, o=(0, 0)):
    """the triangle, its sides in one of six orders and some of them reversed"""
    from itertools import permutations
    P, L = env.api.Point, env.api.LineSegment
    ps = [P((float(a) + dx, float(b) + dy)) for a, b in T]
    sg = [L(ps[k], ps[(k + 1) % 3]) if not (o[1] >> k) & 1 else L(ps[(k + 1) % 3], ps[k]) for k in range(3)]
    return env.api.Triangle([sg[k] for k in list(permutations(range(3)))[o[0]]])


def fr(T):
    out = [(Fraction(a), Fraction(b)) for a, b in T]
    (a, b), (c, d), (e, f) = out
    return out if (c - a) * (f - b) - (d - b) * (e - a) > 0 else out[::-1]


def halfplanes(A, B):
    """the half-planes of all shifts (x, y) of B with which the interiors of A and B meet: the difference of the two, (A - B)"""
    pts = [(p[0] - q[0], p[1] - q[1]) for p in A for q in B]
    pts = sorted(set(pts))

    def chain(ps):
        h = []
        for p in ps:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    hull = chain(pts) + chain(pts[::-1])
    return [(hull[k], hull[(k + 1) % len(hull)]) for k in range(len(hull))]


def left(line, x, y):
    (a, b), (c, d) = line
    return (c - a) * (y - b) - (d - b) * (x - a)


def meet(env, A, B, x, y):
    return env.And(*[left(h, x, y) > 0 for h in halfplanes(fr(A), fr(B))])


def contact(env, A, B, x, y):
    """some sides have a piece of line in common"""
    out = []
    A, B = fr(A), fr(B)
    for i in range(3):
        for j in range(3):
            p, q = A[i], A[(i + 1) % 3]
            r, s = B[j], B[(j + 1) % 3]
            u = (q[0] - p[0], q[1] - p[1])
            v = (s[0] - r[0], s[1] - r[1])
            if u[0] * v[1] - u[1] * v[0] != 0:
                continue
            # r + (x, y) on the line of p, q
            on = u[0] * (r[1] + y - p[1]) - u[1] * (r[0] + x - p[0]) == 0
            # positions along u
            n = u[0] * u[0] + u[1] * u[1]
            r1 = u[0] * (r[0] + x - p[0]) + u[1] * (r[1] + y - p[1])
            s1 = r1 + (u[0] * v[0] + u[1] * v[1])
            lo, hi = (r1, s1) if u[0] * v[0] + u[1] * v[1] > 0 else (s1, r1)
            out.append(env.And(on, lo < n, hi > 0))
    return env.Or(*out) if out else False


def overlap(env, a, b, q, k, z=1):
    x, y = env.real('x', -12, 12, q), env.real('y', -12, 12, q)
    draws(env, [])
    o = ORDERS[k % 6]
    TA, TB = [(z * c, z * d) for c, d in TS[a]], [(z * c, z * d) for c, d in TS[b]]
    A, B = tri(env, TA, o=o), tri(env, TB, z * x, z * y, ORDERS[(k + 2) % 6])
    ca, cb = coords(A), coords(B)
    w = meet(env, TS[a], TS[b], env.ex(x), env.ex(y))
    r = A.overlap(B)
    env.check(env.Iff(w, env.truth(r)), 'overlapping exactly when the interiors meet')
    r = B.overlap(A)
    env.check(env.Iff(w, env.truth(r)), 'overlapping the other way round')
    env.check(coords(A) == ca and coords(B) == cb, 'asking changes nothing')
    env.cover('meet' if r else 'apart')


def slide(env, a, b, w, q, k):
    t = env.real('t', -12, 12, q)
    draws(env, [])
    (x0, y0), (dx, dy) = WAYS[w]
    x, y = x0 + dx * t, y0 + dy * t
    A, B = tri(env, TS[a], o=ORDERS[k % 6]), tri(env, TS[b], x, y, ORDERS[(k + 3) % 6])
    ex, ey = env.ex(x), env.ex(y)
    m, c = meet(env, TS[a], TS[b], ex, ey), contact(env, TS[a], TS[b], ex, ey)
    for p, q, s in ((A, B, ''), (B, A, ' the other way round')):
        r = env.truth(p.disjunct(q))
        env.check(env.Implies(r, env.Not(m)), 'disjunct only when the interiors are' + s)
        env.check(env.Implies(env.And(env.Not(m), env.Not(c)), r), 'disjunct when there is no common piece' + s)
        r = env.truth(p.touch(q))
        env.check(env.Implies(env.Not(m), env.Iff(c, r)), 'touch' + s)
        env.check(env.Implies(r, c), 'no touch without a common piece' + s)
        same = env.And(ex == 0, ey == 0) if a == b else False
        env.check(env.Iff(same, env.truth(p.congruent(q))), 'congruent' + s)


def same(env, k, way, q):
    """congruent means the same vertices, not only the same measures"""
    T = [(3 * p, 3 * r) for p, r in TS[k]]
    u, v = env.real('u', -24, 24, q), env.real('v', -24, 24, q)
    if way == 'one':
        j = env.pick('j', [0, 1, 2])
        pts = [T[j - 1], (u, v), T[j - 2]]
    else:
        c = (sum(p for p, r in T) / 3, sum(r for p, r in T) / 3)
        w, z = env.pick('second', [T[1], (2 * c[0] - T[1][0], 2 * c[1] - T[1][1]), (c[0] + 1, c[1] - 2)])
        pts = [(u, v), (w, z), (sum(p for p, r in T) - u - w, sum(r for p, r in T) - v - z)]
    ex = [(env.ex(p), env.ex(r)) for p, r in pts]
    # not flat
    env.assume((ex[1][0] - ex[0][0]) * (ex[2][1] - ex[0][1]) != (ex[1][1] - ex[0][1]) * (ex[2][0] - ex[0][0]))
    P, L = env.api.Point, env.api.LineSegment
    A = tri(env, T, o=ORDERS[k % 6])
    ps = [P(p) for p in pts]
    B = env.api.Triangle([L(ps[0], ps[1]), L(ps[2], ps[1]), L(ps[2], ps[0])])
    at = lambda p, r: env.And(p[0] == Fraction(r[0]), p[1] == Fraction(r[1]))
    want = env.And(*[env.Or(*[at(p, r) for r in T]) for p in ex])
    r = A.congruent(B)
    env.check(env.Iff(want, env.truth(r)), 'congruent exactly with the same vertices')
    env.check(env.Iff(want, env.truth(B.congruent(A))), 'congruent exactly with the same vertices, the other way round')
    env.cover('yes' if r else 'no')


def enclosed(env, a, b, w, q, k):
    t = env.real('t', -12, 12, q)
    draws(env, [])
    (x0, y0), (dx, dy) = WAYS[w]
    x, y = x0 + dx * t, y0 + dy * t
    A, B = tri(env, TS[a], o=ORDERS[k % 6]), tri(env, TS[b], x, y, ORDERS[(k + 3) % 6])
    ex, ey = env.ex(x), env.ex(y)
    for p, q, P, Q, s in ((A, B, TS[a], TS[b], 1), (B, A, TS[b], TS[a], -1)):
        R = fr(P)
        inn = []
        out = []
        for (u, v) in fr(Q):
            vals = [left((R[j], R[(j + 1) % 3]), u + ex * s, v + ey * s) for j in range(3)]
            inn += [z > 0 for z in vals]
            out += [z < 0 for z in vals]
        r = env.truth(p.enclosed(q))
        env.check(env.Implies(r, env.Not(env.Or(*out))), 'a vertex outside: not enclosed')
        env.check(env.Implies(env.And(*inn), r), 'all vertices inside: enclosed')


def place(env, k):
    """the answers depend on the relative position only"""
    x, y = env.real('x', -64, 64, 3), env.real('y', -64, 64, 3)
    draws(env, [])
    a, b, (u, v), want = PLACES[k]
    A, B = tri(env, TS[a], x, y, ORDERS[k % 6]), tri(env, TS[b], x + u, y + v, ORDERS[(k + 1) % 6])
    for p, q in ((A, B), (B, A)):
        env.check(env.truth(p.overlap(q)) == ('o' in want), 'overlap')
        env.check(env.truth(p.touch(q)) == ('t' in want), 'touch')
        env.check(env.truth(p.disjunct(q)) == ('d' in want), 'disjunct')
        env.check(env.truth(p.congruent(q)) == ('c' in want), 'congruent')


PLACES = [
    (0, 4, (4, 0), 'd'), (0, 4, (1, 1), 'o'), (0, 6, (1, 0), 't'), (0, 4, (0, -1), 'd'), (0, 8, (1, 1), 't'),
    (0, 0, (0.125, 0), 'ot'), (1, 2, (9, 9), 'd'), (4, 6, (0.5, 0), 't'), (0, 2, (1, 0), 'o'), (3, 5, (4, -2), 'o'),
]
