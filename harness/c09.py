# -*- coding: utf-8 -*-
from harness.common import *

ASSUMPTIONS = ['one simple closed outline from a list of templates at a free position; listed shuffles and reversals',
               'two vertices equally far from the origin: either may come first']
WALL = dict(quick=90, thorough=1500)


def perms(n, k):
    """k shuffles of range(n), fixed"""
    out = []
    x = 12345
    while len(out) < k:
        r = list(range(n))
        for i in range(n - 1, 0, -1):
            x = (x * 1103515245 + 12345) % 2 ** 31
            j = (x >> 8) % (i + 1)
            r[i], r[j] = r[j], r[i]
        x = (x * 1103515245 + 12345) % 2 ** 31
        m = (x >> 8) % 2 ** n
        out.append((r, m))
    return out


def scenarios(tier):
    out = []
    names = ['TRI', 'SQ', 'ELL', 'DART', 'PENT', 'MIDS'] if tier == 'quick' else sorted(SHAPES)
    for n in names:
        k = (6 if n == 'TRI' else 3) if tier == 'quick' else 40
        for share in (True, False):
            b = 'outline %s at +-16 step 1/8 (y from a list for 4 and more vertices), %d shuffles with reversals, vertices %s' % (n, k, 'shared' if share else 'separate')
            out.append(dict(name='cycle-%s-%s' % (n, share), fn='cycle', params=dict(shape=n, share=share, k=k), bounds=b))
        out.append(dict(name='open-' + n, fn='open_', params=dict(shape=n, k=k),
                        bounds='outline %s without one side at +-16 step 1/8, %d shuffles' % (n, k)))
    for n in ('TRI', 'DART') if tier == 'quick' else names:
        for f in (0.0001, 0.01, 1024.0):
            b = 'outline %s scaled by %s at listed places in x +-16 step 1/8, %s shuffles'
            k = 3 if tier == 'quick' else 12
            out.append(dict(name='scaled-%s-%s' % (n, f), fn='cycle', params=dict(shape=n, share=n == 'DART', k=k, f=f), bounds=b % (n, f, k)))
            out.append(dict(name='openscaled-%s-%s' % (n, f), fn='open_', params=dict(shape=n, k=k, f=f), bounds=b % (n + ' without one side', f, k)))
    for n in (36, 256) if tier == 'quick' else (17, 36, 64, 256, 300):
        for dent in (1.0, 0.75) if n < 250 else (1.0,):
            out.append(dict(name='many-%d-%s' % (n, dent), fn='many', params=dict(n=n, dent=dent, k=1 if tier == 'quick' or n > 250 else 4), path_s=300,
                            bounds='outline of %d vertices at 48..64 in x and -64..-48 in y (%s), step 1/8, listed shuffles with reversals' % (n, 'and 16 n further away' if n > 250 else 'from the origin')))
    out.append(dict(name='triangle', fn='triangle', params=dict(free=False),
                    bounds='triangle with one free vertex +-16 step 1/8, 4 shuffles with reversals'))
    if tier == 'thorough':
        out.append(dict(name='triangle-free', fn='triangle', params=dict(free=True),
                        bounds='triangle of free vertices +-16 step 1/8, 4 shuffles with reversals'))
    if tier == 'thorough':
        for n in ('TRI', 'SQ'):
            out.append(dict(name='all-' + n, fn='every', params=dict(shape=n), bounds='all shuffles and reversals of ' + n))
    return out


def undirected(env, pl, want):
    """pl has exactly the sides in want (pairs of coordinate pairs)"""
    got = [(xy(env, s.i), xy(env, s.j)) for s in pl.segments]
    env.check(len(got) == len(want), 'number of sides')
    for a, b in want:
        hits = [env.truth(env.Or(env.And(near_xy(env, a, c), near_xy(env, b, d)),
                                 env.And(near_xy(env, a, d), near_xy(env, b, c)))) for c, d in got]
        env.check(sum(1 for h in hits if h) == 1, 'every side once')


def closed(env, pl, want, label=''):
    n = len(pl.segments)
    for k in range(n):
        env.check(same(env, pl.segments[k].j, pl.segments[(k + 1) % n].i), label + 'head to tail')
    env.check(bool(pl.isclosed), label + 'closed')
    undirected(env, pl, want)


def nearest(env, pl, want):
    x, y = xy(env, pl.segments[0].i)
    r = x * x + y * y
    for (a, b), _ in want:
        env.check(r <= a * a + b * b, 'starts at the vertex closest to the origin')


def build(env, shape, share, r, m, drop=False, x=None, y=None, f=1):
    P, L = env.api.Point, env.api.LineSegment
    pts = SHAPES[shape]
    n = len(pts)
    objs = [P((x + f * a, y + f * b)) for a, b in pts]
    ls = []
    for k in range(n):
        a, b = objs[k], objs[(k + 1) % n]
        if not share:
            a, b = P(a.xy), P(b.xy)
        ls.append(L(a, b) if not (m >> k) & 1 else L(b, a))
    ls = [ls[k] for k in r if not (drop and k == 0)]
    return env.api.PolygonLine(ls)


def judge(env, pl):
    want = [(xy(env, s.i), xy(env, s.j)) for s in pl.segments]
    before = [(s, s.i, s.j) for s in pl.segments]
    cp = pl.ordered_copy()
    env.check(len(before) == len(pl.segments) and
              all(s is t and s.i is i and s.j is j for t, (s, i, j) in zip(pl.segments, before)), 'original of the ordered copy')
    for s, (a, b) in zip(pl.segments, want):
        env.check(env.And(near_xy(env, xy(env, s.i), a), near_xy(env, xy(env, s.j), b)), 'original of the ordered copy')
    env.check(bool(pl.order()), 'ordering succeeds')
    closed(env, pl, want)
    nearest(env, pl, want)
    first = [(s, s.i, s.j) for s in pl.segments]
    env.check(bool(pl.order()), 'ordering again succeeds')
    env.check(all(s is t and s.i is i and s.j is j for t, (s, i, j) in zip(pl.segments, first)), 'ordering again changes nothing')
    env.check(isinstance(cp, env.api.PolygonLine), 'ordered copy')
    closed(env, cp, want, 'copy: ')


def place(env, shape, f=1):
    x = env.real('x', -16, 16, 3)
    if len(SHAPES[shape]) == 3 and f == 1:
        return x, env.real('y', -16, 16, 3)
    return x, env.pick('y', [-1.0, 0.125, 6.5, -13.25])


def cycle(env, shape, share, k, f=1):
    x, y = place(env, shape, f)
    r, m = env.pick('shuffle', perms(len(SHAPES[shape]), k))
    judge(env, build(env, shape, share, r, m, x=x, y=y, f=f))


def many(env, n, dent, k):
    """long outlines"""
    x, y = env.real('x', 48, 64, 3), -env.real('y', 48, 64, 3)
    P, L = env.api.Point, env.api.LineSegment
    r, m = env.pick('shuffle', perms(n, k))
    o = 16.0 * n if n > 250 else 0.0
    pts = [(x + o + a, y - o + b) for a, b in ring_of(n, n if n > 250 else 20, dent)]
    objs = [P(c) for c in pts]
    ls = []
    for i in range(n):
        a, b = objs[i], objs[(i + 1) % n]
        ls.append(L(b, a) if (m >> i) & 1 else L(a, b))
    want = [(xy(env, s.i), xy(env, s.j)) for s in ls]
    pl = env.api.PolygonLine([ls[i] for i in r])
    env.check(bool(pl.order()), 'ordering succeeds')
    env.check(len(pl.segments) == n and all(any(s is t for t in ls) for s in pl.segments), 'the same segments')
    for i in range(n):
        env.check(same(env, pl.segments[i].j, pl.segments[(i + 1) % n].i), 'head to tail')
    for s, (a, b) in zip(ls, want):
        c, d = xy(env, s.i), xy(env, s.j)
        env.check(env.Or(env.And(near_xy(env, a, c), near_xy(env, b, d)), env.And(near_xy(env, a, d), near_xy(env, b, c))), 'every side stays')
    env.check(bool(pl.isclosed), 'closed')
    nearest(env, pl, want)


def every(env, shape):
    import itertools
    x, y = place(env, shape)
    n = len(SHAPES[shape])
    r = env.pick('shuffle', [list(r) for r in itertools.permutations(range(n))])
    m = env.pick('mask', list(range(2 ** n)))
    judge(env, build(env, shape, True, r, m, x=x, y=y))


def open_(env, shape, k, f=1):
    x, y = place(env, shape, f)
    r, m = env.pick('shuffle', perms(len(SHAPES[shape]), k))
    pl = build(env, shape, True, r, m, drop=True, x=x, y=y, f=f)
    env.check(pl.order() is False, 'an open chain cannot be ordered')
    env.check(pl.ordered_copy() is False, 'nor copied in order')


def triangle(env, free):
    a = pt(env, 'a')
    b, c = (pt(env, 'b'), pt(env, 'c')) if free else (env.api.Point((3, -1.5)), env.api.Point((-2, 0.25)))
    env.assume(crossx(env, a, b, c) != 0)
    P, L = env.api.Point, env.api.LineSegment
    m = env.pick('mask', [0, 3, 5, 6])
    ps = [a, b, c]
    ls = []
    for k in range(3):
        u, v = ps[k], ps[(k + 1) % 3]
        ls.append(L(v, u) if (m >> k) & 1 else L(u, v))
    if env.pick('swap', [0, 1]):
        ls = [ls[2], ls[0], ls[1]] if m else [ls[0], ls[2], ls[1]]
    pl = env.api.PolygonLine(ls)
    want = [(xy(env, s.i), xy(env, s.j)) for s in ls]
    env.check(bool(pl.order()), 'ordering succeeds')
    closed(env, pl, want)
    nearest(env, pl, want)
