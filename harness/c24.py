# -*- coding: utf-8 -*-
from harness.common import *
from harness.c21 import bare, QUADS, side

ASSUMPTIONS = ['marker points are not computed (C23) except in the scenarios markers-*; the others check that they are asked for again']
WALL = dict(quick=100, thorough=1500)
TOL = Fraction(15, 10 ** 9)
SIZES = [(2.0, 2.0, 3.0), (2.0, 4.0, 1.0), (4.0, 1.0, 2.0), (16.0, 16.0, 0.5), (2.0, 8.0, 4.0), (6.0, 2.0, 16.0), (2048.0, 1024.0, 3072.0)]
FR = [k / 128. for k in (49, 79, 18, 35, 93, 53, 71, 9, 117, 42)]


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for cls in ('Mantel', 'StandZarge'):
        for k in range(len(SIZES)):
            out.append(dict(name='cut-%s-%d' % (cls, k), fn='cut', params=dict(cls=cls, k=k, few=quick), path_s=60, covers=['inside', 'above', 'below', 'ends'],
                            bounds='%s %s cut at all heights +-64 (4096 for the big one) of its base step 1/256, at all places %s, step 1/8' % (cls, SIZES[k], '1..64 in one quadrant' if quick else '1..64 in all quadrants')))
    for kind in ('cylinder', 'cone', 'wide'):
        out.append(dict(name='size-' + kind, fn='size', params=dict(kind=kind, few=quick), path_s=60, bounds='%s of all (smaller) diameters and heights 1..16 (and listed larger diameters) step 1/%d cut at all heights (the height of the pieces to 1.5e-8, their common end on the side to 2.4e-7 / height)' % (kind, 4 if quick else 8)))
    for k in (0, 1, 4):
        n = (3 if k == 0 else 2) if quick else (4 if k == 0 else 3)
        out.append(dict(name='twice-%d' % k, fn='twice', params=dict(k=k, n=n), path_s=60, bounds='%d cuts at all heights in all orders, equal heights included' % n))
    for k in (0, 1, 2):
        for keep in (True, False):
            out.append(dict(name='end-%d-%s' % (k, 'keep' if keep else 'ring'), fn='end', params=dict(k=k, keep=keep), path_s=60, covers=['both', 'none'],
                            bounds='shells cut by a room end of free diameter 1/4..16 at all heights'))
    out.append(dict(name='end-once', fn='oneside', params={}, path_s=60, bounds='room ends beside the axis that cross one side'))
    for k in (0, 1):
        out.append(dict(name='move-%d' % k, fn='move', params=dict(k=k), path_s=60, bounds='cuts, motions by +-64 step 1/8 and cuts again'))
    for what in ('Klopperboden', 'Korbbogenboden', 'Flachboden', 'RaumEnde'):
        out.append(dict(name='never-' + what, fn='never', params=dict(what=what), path_s=60, bounds='heads, flat heads and room ends, all cut heights +-64 step 1/8'))
    for k in (0, 1) if quick else (0, 1, 2, 4):
        out.append(dict(name='markers-%d' % k, fn='markers', params=dict(k=k), path_s=120, bounds='listed shells at all places 48..64 step 1/8 cut at a quarter of the height'))
    return out


class counted(bare):
    """no marker points; counts how often they were asked for"""

    def __enter__(self):
        bare.__enter__(self)
        self.n = 0

        def ask(graph):
            self.n += 1
        if self.old is not None:
            self.g.add_intex_points = ask
        return self


def build(env, cls, x, y, a, b, h):
    return getattr(env.api.vessel, cls)(name='m', pos_v=y, pos_h=x, d=(a, b), h=h)


def at(env, c, t, H):
    """points of the right and of the left side at height t above the base"""
    t = env.ex(t)
    f = lambda u, v: (u[0] + (v[0] - u[0]) * t / H, u[1] + t)
    return f(c[0], c[1]), f(c[3], c[2])


def corners(env, x, y, a, b, h):
    x, y = env.ex(x), env.ex(y)
    a, b, h = [Fraction(v) for v in (a, b, h)]
    return [(x + a / 2, y), (x + b / 2, y + h), (x - b / 2, y + h), (x - a / 2, y)]


def pieces(env, m, cls, c, ts, H, t=None):
    """the outline is the trapezoid with its sides cut at the heights ts (ascending)"""
    V = env.api.vessel
    n = len(ts)
    env.check(len(m.segments) == 4 + 2 * n, 'number of pieces')
    want = []
    for k in (0, 1):
        nodes = [c[0] if k == 0 else c[3]] + [at(env, c, t_, H)[k] for t_ in ts] + [c[1] if k == 0 else c[2]]
        want += [(u, v, True) for u, v in zip(nodes, nodes[1:])]
    want += [(c[1], c[2], False), (c[3], c[0], cls == 'StandZarge')]
    walls = []
    for u, v, wall in want:
        s = [s for s in m.segments if env.truth(side(env, s, u, v, t))]
        env.check(len(s) == 1, 'each piece once')
        env.check(isinstance(s[0], V.Wall if wall else V.NonWall), 'pieces of the sides are walls, the ends stay what they were')
        if wall:
            walls.append((u, v))
    g = m.graph.segments
    env.check(len(g) == len(walls), 'the replacement outline has the new walls')
    for u, v in walls:
        env.check(len([s for s in g if env.truth(side(env, s, u, v, t))]) == 1, 'the replacement outline has the new walls')


def place(env, few, k):
    sx, sy = QUADS[k % 4] if few else env.pick('quad', QUADS)
    return env.real('x', 1, 64, 3) * sx, env.real('y', 1, 64, 3) * sy


def cut(env, cls, k, few):
    a, b, h = SIZES[k]
    x, y = place(env, few, k)
    with counted(env) as n:
        m = build(env, cls, x, y, a, b, h)
        c = corners(env, x, y, a, b, h)
        where = env.pick('where', ['inside', 'above', 'below', 'ends'])
        if where == 'ends':
            t = env.pick('end', [0.0, h])
        else:
            T = 64 if h < 64 else 4096
            t = env.real('t', -T, T, 8)
            env.assume({'inside': env.And(env.ex(t) > 0, env.ex(t) < Fraction(h)), 'above': env.ex(t) > Fraction(h), 'below': env.ex(t) < 0}[where])
        env.cover(where)
        n0 = n.n
        r = m.split(v=y + t)
        env.check(r is (where == 'inside'), 'tells if it was cut')
        env.check((n.n > n0) if where == 'inside' else True, 'markers renewed')
    pieces(env, m, cls, c, [t] if where == 'inside' else [], Fraction(h), TOL)


def size(env, kind, few):
    q = 2 if few else 3
    x, y = -40.5, 12.0
    a = env.real('a', 1, 16, q)
    h = env.real('h', 1, 16, q)
    b = a
    if kind != 'cylinder':
        b = env.pick('wide', [16.5, 20.0] if few else [16.5, 17.25, 20.0, 40.0, 128.0])
        if kind == 'wide':
            a, b = b, a
    t = env.real('t', 0, 16, q)
    env.assume(env.And(env.ex(t) > 0, env.ex(t) < env.ex(h)))
    with counted(env):
        m = build(env, 'Mantel', x, y, a, b, h)
        env.check(m.split(v=y + t) is True, 'tells if it was cut')
    X, Y, A, B, H, T = env.ex(x), env.ex(y), env.ex(a), env.ex(b), env.ex(h), env.ex(t)
    env.check(len(m.segments) == 6 and len(m.graph.segments) == 4, 'number of pieces')
    c = [(X + A / 2, Y), (X + B / 2, Y + H), (X - B / 2, Y + H), (X - A / 2, Y)]
    for k, (u, v) in enumerate(((c[0], c[1]), (c[3], c[2]))):
        sg = 1 if k == 0 else -1
        lo = [s for s in m.wall_segments if env.truth(ends(env, s, u))]
        up = [s for s in m.wall_segments if env.truth(ends(env, s, v))]
        env.check(len(lo) == 1 and len(up) == 1 and lo[0] is not up[0], 'each piece once')
        for s, z in ((lo[0], u), (up[0], v)):
            p = s.j if env.truth(near_xy(env, xy(env, s.i), z)) else s.i
            px, py = xy(env, p)
            env.check(near(env, py, Y + T, TOL), 'the pieces meet at the height of the cut')
            # |px - (X + sg (A/2 + (B-A)/2 T/H))| <= 16 TOL / H
            d = (px - X) * sg * H * 2 - (A * H + (B - A) * T)
            env.check(env.And(d <= 32 * TOL, d >= -32 * TOL), 'the pieces meet on the side')


def ends(env, s, u):
    return env.Or(near_xy(env, xy(env, s.i), u), near_xy(env, xy(env, s.j), u))


def twice(env, k, n):
    a, b, h = SIZES[k]
    x, y = place(env, True, k + 1)
    ts = [env.real('t%d' % i, 0, Fraction(h), 3) for i in range(n)]
    for t in ts:
        env.assume(env.And(env.ex(t) > 0, env.ex(t) < Fraction(h)))
    with counted(env):
        m = build(env, 'Mantel', x, y, a, b, h)
        done = []
        for t in ts:
            old = any(env.truth(env.ex(t) == env.ex(u)) for u in done)
            env.check(m.split(v=y + t) is (not old), 'tells if it was cut')
            if not old:
                j = 0
                while j < len(done) and env.truth(env.ex(done[j]) < env.ex(t)):
                    j += 1
                done.insert(j, t)
    pieces(env, m, 'Mantel', corners(env, x, y, a, b, h), done, Fraction(h), TOL)


def end(env, k, keep):
    a, b, h = SIZES[k]
    x, y = place(env, True, k + 2)
    t = env.real('t', -8, 24, 3)
    w = env.real('w', Fraction(1, 4), 16, 3)
    T, W, H = env.ex(t), env.ex(w), Fraction(h)
    wt = Fraction(a) + (Fraction(b) - Fraction(a)) * T / H      # width of the shell at this height
    env.assume(env.And(T != 0, T != H))
    env.assume(W != wt)
    with counted(env):
        m = build(env, 'Mantel', x, y, a, b, h)
        e = env.api.vessel.RaumEnde(name='e', pos_v=y + t, pos_h=x, d=w)
        both = env.truth(env.And(T > 0, T < H, W > wt))
        env.cover('both' if both else 'none')
        r = m.split(ht=e, keep=keep)
        env.check(r is both, 'tells if it was cut')
    c = corners(env, x, y, a, b, h)
    pieces(env, m, 'Mantel', c, [t] if both else [], H, TOL)
    X, Y = env.ex(x), env.ex(y) + T
    outer = [(X - W / 2, Y), (X + W / 2, Y)]
    V = env.api.vessel
    if both and not keep:
        right, left = at(env, c, t, H)
        env.check(len(e.segments) == 3, 'the room end is a ring now')
        for u, v, cls in ((outer[0], left, V.Wall), (left, right, V.NonWall), (right, outer[1], V.Wall)):
            s = [s for s in e.segments if env.truth(side(env, s, u, v, TOL))]
            env.check(len(s) == 1 and isinstance(s[0], cls), 'the room end is a ring now')
        env.check(len(e.graph.segments) == 2, 'the replacement outline has the ring')
    else:
        env.check(len(e.segments) == 1 and env.truth(side(env, e.segments[0], outer[0], outer[1], None)) and isinstance(e.segments[0], V.Wall), 'the room end is unchanged')
        env.check(len(e.graph.segments) == 1, 'the room end is unchanged')


def oneside(env):
    k = env.pick('k', [0, 1])
    a, b, h = SIZES[k]
    x, y = place(env, True, 0)
    sg = env.pick('side', [1, -1])
    t = env.pick('t', [0.25, 0.75])
    off = env.real('off', Fraction(1, 2), 6, 3)
    # a room end of width 1 with its middle off the axis
    H, T = Fraction(h), Fraction(t)
    half = (Fraction(a) + (Fraction(b) - Fraction(a)) * T / H) / 2
    lo, hi = env.ex(off) - Fraction(1, 2), env.ex(off) + Fraction(1, 2)
    env.assume(env.And(lo != half, hi != half))
    with counted(env):
        m = build(env, 'Mantel', x, y, a, b, h)
        e = env.api.vessel.RaumEnde(name='e', pos_v=y + t, pos_h=x + sg * off, d=1.0)
        hit = env.truth(env.And(lo < half, hi > half))
        env.check(m.split(ht=e, keep=True) is hit, 'tells if it was cut')
    env.check(len(m.segments) == (5 if hit else 4), 'only the side that was crossed is cut')
    c = corners(env, x, y, a, b, h)
    r, l = at(env, c, t, H)
    for q, (u, v, p) in enumerate(((c[0], c[1], r), (c[3], c[2], l))):
        cutit = hit and (q == 0) == (sg == 1)
        for i, j in ((u, p), (p, v)) if cutit else ((u, v),):
            env.check(len([s for s in m.wall_segments if env.truth(side(env, s, i, j, TOL))]) == 1, 'only the side that was crossed is cut')
    env.check(len(e.segments) == 1, 'the room end is unchanged')


def move(env, k):
    a, b, h = SIZES[k]
    x, y = place(env, True, k)
    u, v = env.real('u', -64, 64, 3), env.real('v', -64, 64, 3)
    H = Fraction(h)
    with counted(env):
        m = build(env, 'Mantel', x, y, a, b, h)
        m.split(v=y + h / 4.)
        m.move(x0=u, y0=v)
        pieces(env, m, 'Mantel', corners(env, x + u, y + v, a, b, h), [h / 4.], H, TOL)
        again = env.pick('again', ['move', 'cut'])
        if again == 'move':
            m.move(x0=-1.5, y0=u)
            pieces(env, m, 'Mantel', corners(env, x + u - 1.5, y + v + u, a, b, h), [h / 4.], H, TOL)
        else:
            env.check(m.split(v=y + v + h / 2.) is True, 'tells if it was cut')
            m.move(x0=2.5, y0=1.0)
            pieces(env, m, 'Mantel', corners(env, x + u + 2.5, y + v + 1, a, b, h), [h / 4., h / 2.], H, TOL)


def never(env, what):
    V = env.api.vessel
    x, y = place(env, True, 1)
    t = env.real('t', -64, 64, 3)
    with counted(env):
        if what in ('Flachboden', 'RaumEnde'):
            m = getattr(V, what)(name='p', pos_v=y, pos_h=x, d=4.0)
        else:
            m = getattr(V, what)(name='p', pos_v=y, pos_h=x, d=4.0, h1=0.125, orient=env.pick('o', [1, -1]))
        old = [(s, xy(env, s.i), xy(env, s.j)) for s in m.segments]
        gold = [(s, xy(env, s.i), xy(env, s.j)) for s in m.graph.segments]
        if env.pick('how', ['height', 'end']) == 'height':
            r = m.split(v=y + t)
        else:
            r = m.split(ht=V.RaumEnde(name='e', pos_v=y + t, pos_h=x, d=6.0), keep=env.pick('keep', [True, False]))
    env.check(r is False, 'nothing is cut')
    for segs, was in ((m.segments, old), (m.graph.segments, gold)):
        env.check(len(segs) == len(was), 'nothing is changed')
        for s, (z, i, j) in zip(segs, was):
            env.check(env.And(near_xy(env, xy(env, s.i), i), near_xy(env, xy(env, s.j), j)), 'nothing is changed')


def markers(env, k):
    st = dict(n=0)

    def hook(kind, lo=0, hi=1):
        if kind != 'uniform':
            return None
        st['n'] += 1
        return lo + (hi - lo) * FR[st['n'] % len(FR)]
    env.on_random(hook)
    a, b, h = SIZES[k]
    x, y = env.real('x', 48, 64, 3), env.real('y', 48, 64, 3)
    with bare(env):
        m = build(env, 'Mantel', x, y, a, b, h)
    # the markers of the uncut shell are placeholders, to be replaced
    m.graph.add_internal_point(p=env.api.Point((x, y)), segment=m.graph.segments[0])
    m.graph.add_external_point(p=env.api.Point((x, y)), segment=m.graph.segments[0])
    V = type(m)
    calls = {}
    raw = V.__dict__['intex_points']

    def first(s):
        key = tuple(id(z) for z in s.graph.segments)
        if key not in calls:
            calls[key] = raw.fget(s)
        return calls[key]
    V.intex_points = property(first)
    try:
        env.check(m.split(v=y + h / 4.) is True, 'tells if it was cut')
    finally:
        V.intex_points = raw
    g = m.graph
    X, Y, H = env.ex(x), env.ex(y), Fraction(h)
    env.check(len(g.internal) == 8 and len(g.external) == 8 and not g.indifferent, 'two markers inside and two outside for each piece')
    for s in g.segments:
        i, j = xy(env, s.i), xy(env, s.j)
        if env.truth(i[1] > j[1]):
            i, j = j, i
        right = env.truth(i[0] > X)
        ins = [p for p in g.internal if p.segment is s]
        outs = [p for p in g.external if p.segment is s]
        env.check(len(ins) == 2 and len(outs) == 2, 'two markers inside and two outside for each piece')
        for p in ins + outs:
            px, py = xy(env, p)
            d = (px - i[0]) * (j[1] - i[1]) - (py - i[1]) * (j[0] - i[0])
            env.check(env.And(py > i[1], py < j[1]), 'next to its piece')
            inside = any(p is z for z in ins)
            env.check((d < 0) if right == inside else (d > 0), 'inside or outside')
