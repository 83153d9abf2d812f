# -*- coding: utf-8 -*-
from harness.common import *
from harness.c04 import VECS, MORE, opp

ASSUMPTIONS = ['segments of nonzero length, coordinates on dyadic grids stated per scenario']
WALL = dict(quick=90, thorough=1500)


def scenarios(tier):
    out = []
    v = VECS if tier == 'quick' else MORE
    for n, B, q, s in [('mid', 16, 3, 1), ('fine', 2, 6, Fraction(1, 8)), ('large', 64, 0, 10)]:
        vs = [(float(x * s), float(y * s)) for x, y in v]
        b = 'positions free +-%d step 2^-%d, vectors of both from a list of %d times %s' % (B, q, len(v), s)
        p = dict(B=B, q=q, vs=vs)
        out += [dict(name='crossing-' + n, fn='crossing', params=p, bounds=b, covers=['on', 'off', 'touch']),
                dict(name='endpoint-' + n, fn='endpoint', params=p, bounds=b, covers=['yes', 'no'])]
        if n == 'mid' or tier == 'thorough':
            out += [dict(name='copies-' + n, fn='copies', params=p, bounds=b)]
    out.append(dict(name='crossing-lengths', fn='crossing', covers=['on', 'off'],
                    params=dict(B=64, q=3, vs=[(x / 8., y / 8.) for x, y in v[:6]], ws=[(x * 8., y * 8.) for x, y in v[2:]]),
                    bounds='positions free +-64 step 1/8, one segment 1/8 and the other 8 times vectors of a list'))
    out.append(dict(name='endpoint-lengths', fn='endpoint', covers=['yes', 'no'],
                    params=dict(B=64, q=3, vs=[(x / 8., y / 8.) for x, y in v[2:5]], ws=[(x * 8., y * 8.) for x, y in v[3:6]]),
                    bounds='positions free +-64 step 1/8, one segment 1/8 and the other 8 times vectors of a list'))
    for n, B, q in [('mid', 16, 3), ('fine', 2, 8), ('large', 4096, 0)]:
        b = 'both segments free, coordinates +-%d step 2^-%d' % (B, q)
        p = dict(B=B, q=q)
        out += [dict(name='touch-' + n, fn='touch', params=p, bounds=b, covers=['touch', 'not']),
                dict(name='continuous-' + n, fn='continuous', params=p, bounds=b, covers=['cont', 'not']),
                dict(name='box-' + n, fn='box', params=p, bounds=b, covers=['in', 'out'])]
    return out


def shared(env, a, b):
    return env.Or(same(env, a.i, b.i), same(env, a.i, b.j), same(env, a.j, b.i), same(env, a.j, b.j))


def touch(env, B, q):
    a, b = seg(env, 'a', B, q), seg(env, 'b', B, q)
    r = a.touch(b)
    w = shared(env, a, b)
    env.check(env.Iff(r, w), 'touch')
    env.check(env.Iff(b.touch(a), w), 'touch swapped')
    env.cover('touch' if env.truth(w) else 'not')


def continuous(env, B, q):
    a, b = seg(env, 'a', B, q), seg(env, 'b', B, q)
    r = a.continuous(b)
    w = env.Or(same(env, a.j, b.i), same(env, a.i, b.j))
    env.check(env.Iff(r, w), 'continuous')
    env.check(env.Iff(b.continuous(a), w), 'continuous swapped')
    env.cover('cont' if env.truth(w) else 'not')


def box(env, B, q):
    a, p = seg(env, 'a', B, q), pt(env, 'p', B, q)
    r = a.is_internal_point(p)
    w = between(env, a.i, a.j, p)
    env.check(env.Iff(r, w), 'box')
    env.check(env.Iff(a.line_reversed.is_internal_point(p), w), 'box reversed')
    env.check(a.is_internal_point(a.i) and a.is_internal_point(a.j), 'endpoints')
    env.cover('in' if env.truth(w) else 'out')


def straddle(env, a, b):
    return env.And(opp(env, crossx(env, a.i, a.j, b.i), crossx(env, a.i, a.j, b.j)),
                   opp(env, crossx(env, b.i, b.j, a.i), crossx(env, b.i, b.j, a.j)))


def par(env, a, b):
    ux, uy = env.ex(a.j.x) - env.ex(a.i.x), env.ex(a.j.y) - env.ex(a.i.y)
    vx, vy = env.ex(b.j.x) - env.ex(b.i.x), env.ex(b.j.y) - env.ex(b.i.y)
    return ux * vy - uy * vx == 0


def crossing(env, B, q, vs, ws=None):
    a, b = tseg(env, 'a', B, q, vs), tseg(env, 'b', B, q, ws or vs)
    if ws and env.pick('swap', [False, True]):
        a, b = b, a
    r = a.intersection_on_segment(b)
    w = shared(env, a, b)
    env.check(env.Iff(r, env.And(env.Not(w), env.Not(par(env, a, b)), straddle(env, a, b))), 'crossing')
    env.cover('on' if env.truth(r) else 'touch' if env.truth(w) else 'off')


def endpoint(env, B, q, vs, ws=None):
    a, b = tseg(env, 'a', B, q, vs), tseg(env, 'b', B, q, ws or vs)
    if ws and env.pick('swap', [False, True]):
        a, b = b, a
    r = a.intersection_on_endpoint(b)
    # one of the four endpoints lies on both lines
    on = env.Or(crossx(env, a.i, a.j, b.i) == 0, crossx(env, a.i, a.j, b.j) == 0,
                crossx(env, b.i, b.j, a.i) == 0, crossx(env, b.i, b.j, a.j) == 0)
    env.check(env.Iff(r, env.And(env.Not(par(env, a, b)), on)), 'intersection at an endpoint')
    env.cover('yes' if env.truth(r) else 'no')


def copies(env, B, q, vs):
    """coincident endpoints that are separate objects behave like shared ones"""
    a = tseg(env, 'a', B, q, vs)
    d = env.pick('bd', vs)
    P, L = env.api.Point, env.api.LineSegment
    k = env.pick('end', [0, 1])
    e = (a.i, a.j)[k]
    f = P((e.x + d[0], e.y + d[1]))
    b, c = L(e, f), L(P((e.x, e.y)), f)
    env.check(a.touch(b) and a.touch(c) and c.touch(a), 'touch')
    env.check(env.And(env.Iff(a.continuous(b), a.continuous(c)), env.Iff(a.continuous(b.line_reversed), a.continuous(c.line_reversed))),
              'continuous')
    env.check(not a.intersection_on_segment(c) and not a.intersection_on_segment(b), 'no crossing')
    env.check(bool(a.intersection_on_endpoint(b)) == bool(a.intersection_on_endpoint(c)) ==
              (not env.truth(par(env, a, b))), 'endpoint')
