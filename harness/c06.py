# -*- coding: utf-8 -*-
from harness.common import *
from harness.c04 import VECS, MORE

ASSUMPTIONS = ['segments of nonzero length, coordinates on dyadic grids stated per scenario; angles to 1e-6 degrees']
WALL = dict(quick=90, thorough=1500)
A = Fraction(1, 10 ** 6)


def scenarios(tier):
    out = []
    for n, B, q in [('mid', 16, 3), ('fine', 2, 8), ('large', 1024, 0)]:
        b = 'coordinates free +-%d step 2^-%d' % (B, q)
        p = dict(B=B, q=q)
        out += [
            dict(name='direction-' + n, fn='direction', params=p, bounds=b,
                 covers=['east', 'north', 'west', 'south', 'ne', 'nw', 'sw', 'se']),
            dict(name='reverse-' + n, fn='reverse', params=p, bounds=b),
            dict(name='opposite-' + n, fn='opposite', params=p, bounds=b, covers=['yes', 'no']),
            dict(name='angle-' + n, fn='angle', params=p, bounds=b, covers=['acute', 'right', 'obtuse'],
                 check_ms=8000 if tier == 'quick' else 60000),
            dict(name='special-' + n, fn='special', params=dict(B=min(B, 64), q=q), bounds=b.replace('1024', '64') + ', length at least 1'),
            dict(name='order-' + n, fn='order', params=p, bounds=b),
        ]
    out.append(dict(name='direction-wide', fn='direction', params=dict(B=65536, q=8), bounds='coordinates free +-65536 step 1/256',
                    covers=['east', 'north', 'west', 'south', 'ne', 'nw', 'sw', 'se']))
    out.append(dict(name='reverse-wide', fn='reverse', params=dict(B=65536, q=8), bounds='coordinates free +-65536 step 1/256'))
    out.append(dict(name='direction-thin', fn='thin', params={}, covers=['e', 'w', 'n', 's'],
                    bounds='one coordinate +-(32768..65536), the other within 1/32 of zero, step 1/256'))
    out.append(dict(name='start', fn='start', params=dict(B=16, q=3), bounds='a segment and a point, coordinates free +-16 step 1/8', covers=['acute', 'right', 'obtuse'],
                    check_ms=8000 if tier == 'quick' else 60000))
    out.append(dict(name='values', fn='values', params={}, bounds='segments of listed vectors at positions +-16 step 1/8'))
    return out


def direction(env, B, q):
    a = seg(env, 'a', B, q)
    d = env.ex(a.direction)
    ux, uy = env.ex(a.j.x) - env.ex(a.i.x), env.ex(a.j.y) - env.ex(a.i.y)
    env.check(env.And(d >= 0, d <= 360 + A), 'range')
    if env.truth(uy == 0):
        env.check(near(env, d, 0 if env.truth(ux > 0) else 180, A), 'axis')
        env.cover('east' if env.truth(ux > 0) else 'west')
    elif env.truth(ux == 0):
        env.check(near(env, d, 90 if env.truth(uy > 0) else 270, A), 'axis')
        env.cover('north' if env.truth(uy > 0) else 'south')
    elif env.truth(uy > 0):
        env.check(env.And(d > -A, d < 180 + A), 'upper half')
        env.check(env.Iff(d < 90, ux > 0) if env.truth(near(env, d, 90, A) == False) else True, 'quadrant')
        env.check(env.Implies(ux == uy, near(env, d, 45, A)), 'diagonal')
        env.check(env.Implies(ux == -uy, near(env, d, 135, A)), 'diagonal')
        env.cover('ne' if env.truth(ux > 0) else 'nw')
    else:
        env.check(env.And(d > 180 - A, d < 360 + A), 'lower half')
        env.check(env.Implies(ux > 0, d > 270 - A), 'quadrant')
        env.check(env.Implies(ux < 0, d < 270 + A), 'quadrant')
        env.check(env.Implies(ux == uy, near(env, d, 225, A)), 'diagonal')
        env.check(env.Implies(ux == -uy, near(env, d, 315, A)), 'diagonal')
        env.cover('se' if env.truth(ux > 0) else 'sw')


def reverse(env, B, q):
    a = seg(env, 'a', B, q)
    d = env.ex(a.direction)
    e = env.ex(a.line_reversed.direction)
    env.check(env.Or(near(env, d - e, 180, A), near(env, e - d, 180, A)), 'reversing turns by 180')
    i, j = a.i, a.j
    a.reverse()
    env.check(a.i is j and a.j is i, 'reverse swaps the endpoints')
    env.check(near(env, a.direction, e, A), 'direction after reverse')


def thin(env):
    """almost along an axis"""
    l, t = env.real('l', 32768, 65536, 0), env.real('t', -0.03125, 0.03125, 8)
    k = env.pick('along', ['e', 'w', 'n', 's'])
    dx, dy = dict(e=(l, t), w=(-l, t), n=(t, l), s=(t, -l))[k]
    x = env.pick('x', [0.0, -16384.0])
    P = env.api.Point
    d = env.ex(env.api.LineSegment(P((x, 0.0)), P((x + dx, dy))).direction)
    e = env.ex(t)
    T = Fraction(1, 10 ** 4)
    env.check(env.And(d >= 0, d < 360 + A), 'range')
    if k == 'e':
        env.check(env.Implies(e >= 0, d < T), 'just above the axis')
        env.check(env.Implies(e < 0, d > 360 - T), 'just below the axis')
    else:
        env.check(near(env, d, dict(w=180, n=90, s=270)[k], T), 'almost along the axis')
    env.cover(k)


def vec(env, s):
    return env.ex(s.j.x) - env.ex(s.i.x), env.ex(s.j.y) - env.ex(s.i.y)


def two(env, B, q):
    a, b = seg(env, 'a', B, q), seg(env, 'b', B, q)
    ux, uy = vec(env, a)
    vx, vy = vec(env, b)
    for w in (ux, uy, vx, vy):
        env.truth(w == 0)
    return a, b, ux * vy - uy * vx, ux * vx + uy * vy


def opposite(env, B, q):
    a, b, c, d = two(env, B, q)
    w = env.And(c == 0, d < 0)
    r = a.opposite_direction(b)
    env.check(env.Iff(r, w), 'antiparallel')
    env.check(env.Iff(b.opposite_direction(a), w), 'swapped')
    env.check(a.opposite_direction(a.line_reversed), 'opposite of its reverse')
    env.check(not a.opposite_direction(a), 'not opposite of itself')
    env.cover('yes' if env.truth(r) else 'no')


def angle(env, B, q):
    a, b, c, d = two(env, B, q)
    r = env.ex(a.angle_between_lines(b))
    env.check(env.And(r >= -A, r <= 180 + A), 'range')
    env.check(near(env, b.angle_between_lines(a), r, A), 'symmetric')
    # tolerance: the angle is within A of 90 when the vectors are nearly perpendicular
    env.check(env.Implies(d > 0, r < 90 + A), 'acute')
    env.check(env.Implies(d < 0, r > 90 - A), 'obtuse')
    env.check(env.Implies(d == 0, near(env, r, 90, A)), 'perpendicular')
    env.cover('acute' if env.truth(d > 0) else 'obtuse' if env.truth(d < 0) else 'right')


def start(env, B, q):
    a = seg(env, 'a', B, q)
    p = pt(env, 'p', B, q)
    ux, uy = vec(env, a)
    vx, vy = env.ex(p.x) - env.ex(a.i.x), env.ex(p.y) - env.ex(a.i.y)
    env.assume(env.Or(vx != 0, vy != 0))
    for w in (ux, uy, vx, vy):
        env.truth(w == 0)
    d = ux * vx + uy * vy
    r = env.ex(a.angle_from_start_point(p))
    env.check(env.And(r >= -A, r <= 180 + A), 'range')
    env.check(env.Implies(d > 0, r < 90 + A), 'acute')
    env.check(env.Implies(d < 0, r > 90 - A), 'obtuse')
    env.check(env.Implies(d == 0, near(env, r, 90, A)), 'perpendicular')
    env.cover('acute' if env.truth(d > 0) else 'obtuse' if env.truth(d < 0) else 'right')


def special(env, B, q):
    """a segment against itself, its reverse and its perpendicular"""
    a = seg(env, 'a', B, q)
    P, L = env.api.Point, env.api.LineSegment
    T = Fraction(1, 200)
    # lengths are rounded to 8 digits, so the angle of much shorter ones is not accurate
    ux, uy = vec(env, a)
    env.assume(env.Or(ux >= 1, ux <= -1, uy >= 1, uy <= -1))
    env.check(near(env, a.angle_between_lines(a), 0, T), 'itself')
    env.check(near(env, a.angle_between_lines(a.line_reversed), 180, T), 'its reverse')
    p = L(a.i, P((a.i.x - (a.j.y - a.i.y), a.i.y + (a.j.x - a.i.x))))
    env.check(near(env, a.angle_between_lines(p), 90, T), 'perpendicular')
    env.check(near(env, p.angle_between_lines(a), 90, T), 'perpendicular swapped')
    d = L(a.i, P((a.i.x + (a.j.x - a.i.x) * 2, a.i.y + (a.j.y - a.i.y) * 2)))
    env.check(near(env, a.angle_between_lines(d), 0, T), 'same direction')
    env.check(near(env, a.angle_from_start_point(d.j), 0, T), 'angle from the start point')
    r = P((a.i.x - (a.j.x - a.i.x), a.i.y - (a.j.y - a.i.y)))
    env.check(near(env, a.angle_from_start_point(r), 180, T), 'angle of a point behind the start')
    env.check(near(env, a.angle_from_start_point(p.j), 90, T), 'angle of a point beside the start')
    env.check(not a.opposite_direction(d), 'same direction is not opposite')
    env.check(bool(a.opposite_direction(d.line_reversed)), 'opposite of other length')


def order(env, B, q):
    """directions are ordered counter-clockwise"""
    a, b, c, d = two(env, B, q)
    ax, ay = vec(env, a)
    bx, by = vec(env, b)
    half = env.Or(env.And(ay > 0, by > 0), env.And(ay < 0, by < 0))
    env.assume(half)
    da, db = env.ex(a.direction), env.ex(b.direction)
    env.check(env.Implies(c > 0, db - da > -A), 'counter-clockwise is larger')
    env.check(env.Implies(c < 0, da - db > -A), 'clockwise is smaller')
    env.check(env.Implies(c == 0, near(env, da, db, A)), 'same direction')


TABLE = [((1, 0), 0), ((2, 2), 45), ((0, 3), 90), ((-1, 1), 135), ((-4, 0), 180), ((-3, -3), 225), ((0, -1), 270),
         ((2, -2), 315), ((3, 4), 53.13010235415598), ((-4, 3), 143.13010235415598), ((-5, -12), 247.38013505195957),
         ((12, -5), 337.38013505195957)]


def values(env):
    x, y = env.real('x', -16, 16, 3), env.real('y', -16, 16, 3)
    P, L = env.api.Point, env.api.LineSegment
    T = Fraction(1, 10 ** 5)
    segs = []
    for (dx, dy), w in TABLE:
        s = L(P((x, y)), P((x + dx, y + dy)))
        env.check(near(env, s.direction, Fraction(w), T), 'direction of (%d, %d)' % (dx, dy))
        segs.append((s, w))
    for s, w in segs:
        for t, v in segs:
            k = abs(w - v)
            if k > 180:
                k = 360 - k
            env.check(near(env, s.angle_between_lines(t), Fraction(k), T), 'angle of two segments')
            env.check(bool(s.opposite_direction(t)) == (abs(k - 180) < 1e-9), 'opposite')
