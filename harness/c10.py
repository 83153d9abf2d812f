# -*- coding: utf-8 -*-
from harness.common import *
from harness.c05 import shared, straddle, par

ASSUMPTIONS = ['segments of nonzero length; coordinates on dyadic grids stated per scenario']
WALL = dict(quick=90, thorough=1500)
VEC = [(2, 0), (0, 3), (-2, 1), (3, -2)]


def scenarios(tier):
    out = []
    b = 'three free segments, +-16 step 1/8'
    out.append(dict(name='links', fn='links', params=dict(n=2, B=16, q=3), bounds='two free segments, +-16 step 1/8', covers=['cont', 'not', 'closed']))
    out.append(dict(name='links-fine', fn='links', params=dict(n=2, B=1, q=8), bounds='two free segments, +-1 step 1/256', covers=['cont', 'not']))
    if tier == 'thorough':
        out.append(dict(name='links3', fn='links', params=dict(n=3, B=16, q=3), bounds=b, covers=['cont', 'not']))
    for n in sorted(CH):
        out.append(dict(name='broken-' + n, fn='broken', params=dict(chain=n), covers=['cont', 'not'],
                        bounds='chain %s at +-16 step 1/8 with one segment moved by up to 4 or reversed' % n))
        out.append(dict(name='close-' + n, fn='close', params=dict(chain=n), bounds='chain %s at +-16 step 1/8, shared or separate points' % n))
    b = 'four segments of listed vectors, free position, links listed'
    out.append(dict(name='valid-vec', fn='valid_vec', params={}, bounds='chain of five listed vectors at +-4 step 1/8', covers=['valid', 'crossing']))
    out.append(dict(name='valid-free', fn='valid_free', params={}, covers=['valid', 'crossing'],
                    bounds='closed chain of four fixed vertices and one free, +-8 step 1/4'))
    for n in (12,) if tier == 'quick' else (8, 12, 20, 30):
        out.append(dict(name='long-%d' % n, fn='long_', params=dict(n=n), covers=['valid', 'crossing'],
                        bounds='polyline of %d segments at a place 48..64 from the axes, its last segment ending at listed places' % (n + 3)))
    out.append(dict(name='two', fn='two', params={}, covers=['crossing'],
                    bounds='four segments, the last of a free position and a listed vector behind a fixed chain'))
    out.append(dict(name='invalid', fn='invalid', params={}, bounds='chain with an empty point or without segments'))
    return out


CH = dict(TRI=TRI, SQ=SQ, ELL=ELL, LINE=[(0, 0), (2, 0)], ZIG=[(0, 0), (2, 1), (4, 0), (6, 3)], BACK=[(0, 0), (3, 1), (0, 0)],
          CROSS=[(0, 0), (4, 0), (4, 4), (2, -2)])


def linked(env, a, b):
    return env.Or(same(env, a.j, b.i), same(env, a.i, b.j))


def judge(env, pl):
    """continuity, closedness and discontinuities against the endpoints"""
    s = pl.segments
    cont = True
    holes = []
    for a, b in zip(s, s[1:]):
        if not env.truth(linked(env, a, b)):
            holes.append(b)
    env.check(bool(pl.iscontinuous) == (not holes), 'continuous')
    d = pl.discontinuity
    env.check(len(d) == len(holes) and all(x is y for x, y in zip(d, holes)), 'discontinuities')
    cl = env.And(not holes, same(env, s[0].i, s[-1].j))
    env.check(env.Iff(pl.isclosed, cl), 'closed')
    env.check(env.Iff(pl.isopen, env.Not(cl)), 'open')
    if holes:
        env.check(not pl.isvalid, 'not continuous is not valid')
    env.cover('not' if holes else 'cont')
    if env.truth(cl):
        env.cover('closed')
    return not holes


def crossing(env, s):
    w = False
    for k in range(len(s)):
        for m in range(k):
            a, b = s[k], s[m]
            w = env.Or(w, env.And(env.Not(shared(env, a, b)), env.Not(par(env, a, b)), straddle(env, a, b)))
    return w


def links(env, n, B, q):
    judge(env, env.api.PolygonLine([seg(env, 's%d' % k, B, q) for k in range(n)]))


def chain(env, name, x, y, share=True):
    P, L = env.api.Point, env.api.LineSegment
    ps = [P((x + a, y + b)) for a, b in CH[name]]
    if share:
        return [L(a, b) for a, b in zip(ps, ps[1:])]
    return [L(P(a.xy), P(b.xy)) for a, b in zip(ps, ps[1:])]


def broken(env, chain_=None, **kw):
    name = kw.get('chain', chain_)
    x, y = env.real('x', -16, 16, 3), env.real('y', -16, 16, 3)
    s = chain(env, name, x, y, False)
    s = s + chain(env, 'LINE', x + CH[name][-1][0], y + CH[name][-1][1], False)
    k = env.pick('k', list(range(len(s))))
    how = env.pick('how', ['reverse', 'move', 'none'])
    if how == 'reverse':
        s[k].reverse()
    elif how == 'move':
        u, v = env.real('u', -4, 4, 3), env.real('v', -4, 4, 3)
        s[k].move(x0=u, y0=v)
    judge(env, env.api.PolygonLine(s))


def close(env, chain_=None, **kw):
    name = kw.get('chain', chain_)
    x, y = env.real('x', -16, 16, 3), env.real('y', -16, 16, 3)
    s = chain(env, name, x, y, env.pick('share', [True, False]))
    pl = env.api.PolygonLine(list(s))
    before = coords(pl)
    was = bool(pl.isclosed)
    env.check(was == (CH[name][0] == CH[name][-1]), 'closed')
    cp = pl.closed_copy()
    env.check(len(pl.segments) == len(s) and all(a is b for a, b in zip(pl.segments, s)), 'original of the closed copy')
    env.check(bool(cp.isclosed), 'closed copy')
    env.check(len(cp.segments) == len(s) + (0 if was else 1), 'closed copy: segments')
    env.check(all(not (a is b) for a in cp.segments for b in s), 'the copy is separate')
    cp.move(x0=1, y0=1)
    for t, (a, b, c, d) in zip(pl.segments, before):
        env.check(env.And(near_xy(env, xy(env, t.i), (env.ex(a), env.ex(b))), near_xy(env, xy(env, t.j), (env.ex(c), env.ex(d)))),
                  'moving the copy leaves the original')
    pl.close()
    env.check(all(a is b for a, b in zip(pl.segments, s)), 'segments kept by closing')
    env.check(len(pl.segments) == len(s) + (0 if was else 1), 'one segment added to close')
    if not was:
        e = pl.segments[-1]
        env.check(env.And(same(env, e.i, s[-1].j), same(env, e.j, s[0].i)), 'closing segment')
    env.check(bool(pl.isclosed) and not pl.isopen, 'closed after closing')
    n = len(pl.segments)
    pl.close()
    env.check(len(pl.segments) == n, 'closing twice')


def valid_vec(env):
    x, y = env.real('x', -4, 4, 3), env.real('y', -4, 4, 3)
    P, L = env.api.Point, env.api.LineSegment
    ps = [P((x, y))]
    for k, opts in enumerate([[(3, 0), (2, 2)], [(0, 2), (-1, 2)], [(-2, 0), (-2, -1), (1, 1)], [(0, -3), (2, -1), (-1, 1)], [(3, 1), (-3, 0)]]):
        dx, dy = env.pick('d%d' % k, opts)
        ps.append(P((ps[-1].x + dx, ps[-1].y + dy)))
    s = [L(a, b) for a, b in zip(ps, ps[1:])]
    pl = env.api.PolygonLine(s)
    if not judge(env, pl):
        return
    w = crossing(env, s)
    env.check(env.Iff(pl.isvalid, env.Not(w)), 'valid')
    env.check(env.Iff(len(pl.crossing_lines) > 0, w), 'crossing segments')
    env.cover('crossing' if env.truth(w) else 'valid')


def valid_free(env):
    p = pt(env, 'p', 8, 2)
    P, L = env.api.Point, env.api.LineSegment
    q = [P(c) for c in [(0, 0), (4, 1), (5, 4), (1, 3)]]
    for a in (q[0], q[3]):
        env.assume(distinct(env, a, p))
    s = [L(q[0], q[1]), L(q[1], q[2]), L(q[2], q[3]), L(q[3], p), L(p, q[0])]
    pl = env.api.PolygonLine(s)
    w = crossing(env, s)
    r = pl.isvalid
    env.check(env.Iff(r, env.Not(w)), 'valid')
    env.cover('valid' if env.truth(r) else 'crossing')


def two(env):
    """crossings of segments that are not neighbours in the list, in both listing orders"""
    x, y = env.real('x', -8, 8, 3), env.real('y', -8, 8, 3)
    d = env.pick('d', VEC)
    P, L = env.api.Point, env.api.LineSegment
    q = [P(c) for c in [(-3, 0), (0, 2), (3, 0)]]
    a, b = P((x, y)), P((x + d[0], y + d[1]))
    env.assume(env.And(distinct(env, a, q[2]), distinct(env, b, q[2])))
    s = [L(q[0], q[1]), L(q[1], q[2]), L(q[2], a), L(a, b)]
    if env.pick('turn', [0, 1]):
        s = [t.line_reversed for t in s[::-1]]
    pl = env.api.PolygonLine(s)
    w = crossing(env, s)
    r = pl.isvalid
    env.check(env.Iff(r, env.Not(w)), 'valid')
    if not env.truth(r):
        env.cover('crossing')


def invalid(env):
    x, y = env.real('x', -8, 8, 3), env.real('y', -8, 8, 3)
    P, L = env.api.Point, env.api.LineSegment
    a, b, c = P((x, y)), P((x + 1, y)), P((x + 1, y + 2))
    pl = env.api.PolygonLine([L(a, b), L(b, c)])
    env.check(pl.isvalid, 'valid')
    env.check(env.api.PolygonLine([L(a, b)]).isvalid, 'one segment is valid')
    env.check(not env.api.PolygonLine().isvalid, 'empty polygon')
    env.check(not env.api.PolygonLine([L(a, b), L(P(), c)]).isvalid, 'empty point')
    env.check(not env.api.PolygonLine([L(a, b), L(b, P())]).isvalid, 'empty point')


def long_(env, n):
    """the last segment of a long polyline may cross any of the earlier ones"""
    x, y = env.real('x', 48, 64, 3), -env.real('y', 48, 64, 3)
    P, L = env.api.Point, env.api.LineSegment
    base = [(k, 0 if k % 2 == 0 else 3) for k in range(n + 1)] + [(n + 2, -2), (-2, -1.5)]
    t = env.pick('end', [(-1.0, 2.0)] + [(k + 0.125, 2.25) for k in range(0, n, 2)])
    pts = base + [t]
    ps = [P((x + a, y + b)) for a, b in pts]
    pl = env.api.PolygonLine([L(a, b) for a, b in zip(ps, ps[1:])])
    q = [(Fraction(a), Fraction(b)) for a, b in pts]
    sd = lambda o, a, p: (a[0] - o[0]) * (p[1] - o[1]) - (a[1] - o[1]) * (p[0] - o[0])
    e = list(zip(q, q[1:]))
    m = len(e)
    want = [(i, j) for i in range(m) for j in range(m) if abs(i - j) > 1
            and sd(e[i][0], e[i][1], e[j][0]) * sd(e[i][0], e[i][1], e[j][1]) < 0 and sd(e[j][0], e[j][1], e[i][0]) * sd(e[j][0], e[j][1], e[i][1]) < 0]
    s = pl.segments
    got = [(i, j) for a, b in pl.crossing_lines for i in range(m) for j in range(m) if s[i] is a and s[j] is b]
    env.check(sorted(got) == want, 'the crossing pairs')
    env.check(bool(pl.isvalid) == (not want), 'valid when nothing crosses')
    env.cover('crossing' if want else 'valid')
