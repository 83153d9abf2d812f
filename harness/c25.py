# -*- coding: utf-8 -*-
import math
from harness.common import *
from harness.c21 import bare, QUADS, side

ASSUMPTIONS = ['marker points are not computed here (C23)', 'listed sizes of cone and shell; coordinates of curve nodes to 1e-7 (they are rounded to 8 decimals)',
               'the shell above is a cylinder or widens upwards']
WALL = dict(quick=100, thorough=1500)
TOL = Fraction(1, 10 ** 7)
# diameter at the lower end of the cone, at the junction, at the upper end of the shell, heights of cone and shell
SIZES = [(2.0, 4.0, 4.0, 1.0, 1.5), (1.0, 4.0, 4.0, 2.0, 8.0), (4.0, 10.0, 10.0, 4.0, 3.0), (6.0, 8.0, 8.0, 16.0, 16.0), (2.0, 4.0, 5.0, 1.0, 2.0), (2.0, 8.0, 12.0, 4.0, 8.0)]
RADII = {0: [0.5, 0.25], 1: [0.5, 0.4], 2: [1.0, 0.5], 3: [0.8, 1.25], 4: [0.25], 5: [1.0]}

COVERS = {(3, 'StandZarge'): ['both'], 4: ['both', 'lower']}


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for k in range(len(SIZES)):
        for low in ('none', 'Mantel', 'StandZarge'):
            if quick and low == 'Mantel' and k % 2 or quick and low == 'none' and k in (2, 3):
                continue
            out.append(dict(name='corner-%d-%s' % (k, low), fn='corner', params=dict(k=k, low=low, few=quick), path_s=60,
                            bounds='shells %s without a radius, at all places %s and with all lengths of the knuckle, step 1/16' % (SIZES[k], '48..64 from the axes' if quick else '1..64 in all quadrants')))
            out.append(dict(name='round-%d-%s' % (k, low), fn='rounded', params=dict(k=k, low=low, few=quick), path_s=60, covers=COVERS.get((k, low), COVERS.get(k, ['both', 'upper', 'lower'])),
                            bounds='shells %s with radii %s, at all places %s with listed lengths, and with all lengths, step 1/16, at a listed place' % (SIZES[k], RADII[k], '48..64 from the axes' if quick else '1..64 in all quadrants')))
    out.append(dict(name='reject', fn='reject', params={}, path_s=60, bounds='cones that do not widen, missing parts, lengths that are not positive'))
    out.append(dict(name='dict', fn='described', params={}, path_s=60, bounds='descriptions of a knuckle, every entry left out'))
    out.append(dict(name='apart', fn='apart', params={}, path_s=60, bounds='one of the parts moved by +-16 step 1/8'))
    return out


def place(env, few, k):
    sx, sy = QUADS[k % 4] if few else env.pick('quad', QUADS)
    lo = 48 if few else 1
    return env.real('x', lo, 64, 3) * sx, env.real('y', lo, 64, 3) * sy


def parts(env, k, low, x, y, depth=6.0):
    V = env.api.vessel
    a, b, c, hc, hs = SIZES[k]
    cone = V.Mantel(name='cone', pos_v=y - hc, pos_h=x, d=(a, b), h=hc)
    up = V.Mantel(name='up', pos_v=y, pos_h=x, d=(b, c), h=hs)
    lo = None
    if low != 'none':
        lo = getattr(V, low)(name='lo', pos_v=y - depth, pos_h=x, d=(b, b), h=depth)
    return cone, up, lo


def path(env, kk, o, nodes, t=TOL):
    """the knuckle is the closed outline over the given nodes of its right side and their images"""
    V = env.api.vessel
    segs = kk.segments
    for s, n in zip(segs, segs[1:] + segs[:1]):
        env.check(near_xy(env, xy(env, s.j), xy(env, n.i)), 'head to tail and closed')
    n = len(nodes)
    env.check(len(segs) == 2 * n, 'number of segments')
    img = [(2 * o - p[0], p[1]) for p in nodes]
    walls = list(zip(nodes, nodes[1:])) + list(zip(img, img[1:]))
    for u, v in walls:
        s = [s for s in segs if env.truth(side(env, s, u, v, t))]
        env.check(len(s) == 1, 'sides of the knuckle')
        env.check(isinstance(s[0], V.Wall), 'sides are walls')
        env.check(len([g for g in kk.graph.segments if env.truth(side(env, g, u, v, t))]) == 1, 'the replacement outline has the sides')
    for u, v in ((nodes[-1], img[-1]), (nodes[0], img[0])):
        s = [s for s in segs if env.truth(side(env, s, u, v, t))]
        env.check(len(s) == 1, 'ends of the knuckle')
        env.check(isinstance(s[0], V.NonWall), 'ends are not walls')
    env.check(len(kk.graph.segments) == len(walls), 'the replacement outline has the sides')
    env.check(len(kk.wall_segments) == len(walls), 'sides are walls')


def trapeze(env, m, lo, up, o, what, skirt=False, t=TOL):
    """part m is now the trapezoid between the two right corners and their images"""
    V = env.api.vessel
    c = [lo, up, (2 * o - up[0], up[1]), (2 * o - lo[0], lo[1])]
    env.check(len(m.segments) == 4, what)
    for k in range(4):
        s = [s for s in m.segments if env.truth(side(env, s, c[k], c[(k + 1) % 4], t))]
        env.check(len(s) == 1, what)
        wall = k in (0, 2) or (k == 3 and skirt)
        env.check(isinstance(s[0], V.Wall if wall else V.NonWall), what + ' (walls)')
        n = len([g for g in m.graph.segments if env.truth(side(env, g, c[k], c[(k + 1) % 4], t))])
        env.check(n == (1 if wall else 0), what + ' (replacement outline)')
    env.check(len(m.graph.segments) == (3 if skirt else 2), what + ' (replacement outline)')


def kept(env, m, was):
    for k, v in was.items():
        w = getattr(m, k)
        env.check(w == v if not isinstance(v, tuple) else (w[0] == v[0] and w[1] == v[1]), 'sizes and place of the parts')


def attrs(m):
    return dict(name=m.name, pos_h=m.pos_h, pos_v=m.pos_v, d=tuple(m.d), h=m.h)


def knuckle(env, k, low, x, y, r, ho, hu):
    cone, up, lo = parts(env, k, low, x, y)
    all_ = [p for p in (cone, up, lo) if p is not None]
    was = [attrs(p) for p in all_]
    hts = (up,) if lo is None else env.pick('order', [(up, lo), (lo, up)])
    kk = env.api.vessel.KegelKrempe(name='kk', h_non_kegelside=ho, h_kegelside=hu, r=r, hts=hts, kegel=cone)
    for p, w in zip(all_, was):
        kept(env, p, w)
    env.check(kk.ht_oben is up and kk.ht_unten is lo and kk.kegel is cone, 'which part is which')
    return cone, up, lo, kk


def others(env, k, low, x, y, cone, up, lo, first, join, last):
    a, b, c, hc, hs = [Fraction(v) for v in SIZES[k]]
    X, Y = env.ex(x), env.ex(y)
    trapeze(env, cone, (X + a / 2, Y - hc), first, X, 'the cone ends at the knuckle')
    trapeze(env, up, last, (X + c / 2, Y + hs), X, 'the shell above starts at the knuckle')
    if lo is not None:
        trapeze(env, lo, (X + b / 2, Y - 6), join, X, 'the shell below ends at the knuckle', skirt=low == 'StandZarge')


def corner(env, k, low, few):
    a, b, c, hc, hs = SIZES[k]
    x, y = place(env, few, k)
    ho = env.real('ho', Fraction(1, 16), Fraction(hs) - Fraction(1, 16), 4)
    hu = env.real('hu', Fraction(1, 16), Fraction(hc) - Fraction(1, 16), 4)
    with bare(env):
        cone, up, lo, kk = knuckle(env, k, low, x, y, 0., ho, hu)
    X, Y, O, U = env.ex(x), env.ex(y), env.ex(ho), env.ex(hu)
    A, B, C, HC, HS = [Fraction(v) for v in SIZES[k]]
    first = (X + B / 2 - (B - A) / 2 * U / HC, Y - U)
    mid = (X + B / 2, Y)
    last = (X + B / 2 + (C - B) / 2 * O / HS, Y + O)
    path(env, kk, X, [first, mid, last])
    others(env, k, low, x, y, cone, up, lo, first, mid, last)


def rounded(env, k, low, few):
    a, b, c, hc, hs = SIZES[k]
    free = env.pick('free', ['place', 'lengths'])
    x, y = place(env, few, k) if free == 'place' else [(-40.5, 12.0), (33.0, -7.25)][k % 2]
    r = env.pick('r', RADII[k][:1] if few else RADII[k])
    alpha, beta = math.atan2((b - a) / 2, hc), math.atan2((c - b) / 2, hs)
    T = r * math.tan((alpha - beta) / 2)        # from the corner to the points of tangency
    env.check(0 < T, 'setup')
    vo, vu = Fraction(T * math.cos(beta)), Fraction(T * math.cos(alpha))
    X, Y = env.ex(x), env.ex(y)
    if free == 'place':
        ho = env.pick('ho', [0.0625, hs / 2])
        hu = env.pick('hu', [0.0625, hc * 0.75])
    else:
        ho = env.real('ho', Fraction(1, 16), Fraction(hs) - Fraction(1, 16), 4)
        hu = env.real('hu', Fraction(1, 16), Fraction(hc) - Fraction(1, 16), 4)
    O, U = env.ex(ho) + Fraction(0), env.ex(hu) + Fraction(0)
    for v, w in ((O, vo), (U, vu)):
        env.assume(env.Or(v > w + TOL, v < w - TOL))
    with bare(env):
        cone, up, lo, kk = knuckle(env, k, low, x, y, r, ho, hu)
    A, B, C, HC, HS = [Fraction(v) for v in SIZES[k]]
    long_up, long_lo = env.truth(O > vo), env.truth(U > vu)
    env.cover('both' if long_up and long_lo else 'upper' if long_up else 'lower' if long_lo else 'arc')
    t1 = (X + B / 2 - Fraction(T * math.sin(alpha)), Y - vu)
    t2 = (X + B / 2 + Fraction(T * math.sin(beta)), Y + vo)
    mid = (t2[0] - Fraction(r * math.cos(beta)), t2[1] + Fraction(r * math.sin(beta)))
    first = (X + B / 2 - (B - A) / 2 * U / HC, Y - U) if long_lo else t1
    last = (X + B / 2 + (C - B) / 2 * O / HS, Y + O) if long_up else t2
    # the nodes between the points of tangency: on the circle, one after the other
    right = [s for s in kk.wall_segments if env.truth(env.ex(s.i.x) > X)]
    nodes = [first]
    while len(nodes) <= len(right):
        p = nodes[-1]
        s = [s for s in right if env.truth(near_xy(env, xy(env, s.i), p, TOL)) or env.truth(near_xy(env, xy(env, s.j), p, TOL))]
        ends = [xy(env, q.j) if env.truth(near_xy(env, xy(env, q.i), p, TOL)) else xy(env, q.i) for q in s]
        ends = [q for q in ends if len(nodes) < 2 or not env.truth(near_xy(env, q, nodes[-2], TOL))]
        if len(ends) != 1:
            break
        nodes.append(ends[0])
    env.check(len(nodes) == len(right) + 1, 'the right side is one chain')
    env.check(near_xy(env, nodes[-1], last, TOL), 'from the cone to the shell')
    inner = nodes[1 if long_lo else 0:-1 if long_up else len(nodes)]
    env.check(len(inner) >= 3, 'a curve')
    env.check(env.And(near_xy(env, inner[0], t1, TOL), near_xy(env, inner[-1], t2, TOL)), 'the curve is tangent to the cone and to the shell')
    tr = TOL * 4 * Fraction(max(1, r))
    for p in inner:
        d = (p[0] - mid[0]) * (p[0] - mid[0]) + (p[1] - mid[1]) * (p[1] - mid[1])
        env.check(env.And(d <= Fraction(r) ** 2 + tr, d >= Fraction(r) ** 2 - tr), 'nodes on the circle')
    for p, q in zip(inner, inner[1:]):
        env.check(env.And(p[0] < q[0] if beta == 0 or q is not inner[-1] else True, p[1] < q[1]), 'nodes one after the other')
    path(env, kk, X, nodes)
    others(env, k, low, x, y, cone, up, lo, first, t2, last)


def reject(env):
    V = env.api.vessel
    x, y = env.real('x', -64, 64, 3), env.real('y', -64, 64, 3)
    what = env.pick('what', ['cylinder', 'narrowing', 'no above', 'three', 'oben', 'unten', 'head above', 'head below', 'flat cone'])
    with bare(env):
        cone, up, lo = parts(env, 0, 'StandZarge', x, y)
        ho, hu, hts = 0.25, 0.25, (up, lo)
        if what == 'cylinder':
            cone = V.Mantel(name='cone', pos_v=y - 1.0, pos_h=x, d=(4.0, 4.0), h=1.0)
        elif what == 'narrowing':
            d = env.real('d', 5, 64, 3)
            cone = V.Mantel(name='cone', pos_v=y - 1.0, pos_h=x, d=(d, 4.0), h=1.0)
        elif what == 'no above':
            hts = ()
        elif what == 'three':
            hts = (up, lo, lo)
        elif what == 'oben':
            ho = -env.real('ho', 0, 4, 3)
        elif what == 'unten':
            hu = -env.real('hu', 0, 4, 3)
        elif what == 'head above':
            hts = (V.Klopperboden(name='h', pos_v=y, pos_h=x, d=4.0, h1=0.125, orient=1),)
        elif what == 'head below':
            hts = (up, V.Klopperboden(name='h', pos_v=y - 6.0, pos_h=x, d=4.0, h1=0.125, orient=1))
        else:
            cone = V.Flachboden(name='cone', pos_v=y, pos_h=x, d=4.0)
        got = env.attempt(lambda: V.KegelKrempe(name='kk', h_non_kegelside=ho, h_kegelside=hu, r=env.pick('r', [0.0, 0.5]), hts=hts, kegel=cone))
    env.check(env.raised(got) if hasattr(env, 'raised') else got.__class__.__name__ == 'Raised', 'rejected')


def described(env):
    V = env.api.vessel
    x, y = env.real('x', -64, -48, 3), env.real('y', 48, 64, 3)
    r = env.pick('r', [0.0, 0.5])
    with bare(env):
        cone, up, lo = parts(env, 0, 'StandZarge', x, y)
        cone2, up2, lo2 = parts(env, 0, 'StandZarge', x, y)
        d = dict(name='kk', h_oben=0.5, h_unten=0.25, r=r, hts=(up, lo), kegel=cone)
        what = env.pick('what', ['all', 'extra'] + sorted(d))
        if what == 'extra':
            d['something'] = 1
        elif what != 'all':
            del d[what]
        got = env.attempt(lambda: V.KegelKrempe.from_dict(d))
        if what != 'all':
            env.check(got.__class__.__name__ == 'Raised', 'missing and unknown entries are rejected')
            return
        kk = V.KegelKrempe(name='kk', h_non_kegelside=0.5, h_kegelside=0.25, r=r, hts=(up2, lo2), kegel=cone2)
    env.check(got.name == 'kk' and got.r == r and got.ht_oben is up and got.ht_unten is lo and got.kegel is cone, 'entries')
    for p, q in ((got, kk), (cone, cone2), (up, up2), (lo, lo2)):
        env.check(len(p.segments) == len(q.segments), 'the same as built from the values')
        for s, t in zip(p.segments, q.segments):
            env.check(env.And(type(s) is type(t), near_xy(env, xy(env, s.i), xy(env, t.i)), near_xy(env, xy(env, s.j), xy(env, t.j))), 'the same as built from the values')


def apart(env):
    x, y = env.real('x', 48, 64, 3), env.real('y', 48, 64, 3)
    u, v = env.real('u', -16, 16, 3), env.real('v', -16, 16, 3)
    r = env.pick('r', [0.0, 0.5])
    with bare(env):
        cone, up, lo, kk = knuckle(env, 0, 'StandZarge', x, y, r, 0.5, 0.5)
    ps = [cone, up, lo, kk]
    old = [[(xy(env, s.i), xy(env, s.j)) for s in p.segments] for p in ps]
    n = env.pick('which', [0, 1, 2, 3])
    ps[n].move(x0=u, y0=v)
    U, W = env.ex(u), env.ex(v)
    for k, p in enumerate(ps):
        for s, (i, j) in zip(p.segments, old[k]):
            if k == n:
                i, j = (i[0] + U, i[1] + W), (j[0] + U, j[1] + W)
            env.check(env.And(near_xy(env, xy(env, s.i), i, TOL), near_xy(env, xy(env, s.j), j, TOL)), 'moving one part moves this part only')
