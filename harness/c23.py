# -*- coding: utf-8 -*-
from harness.common import *
from harness.c21 import bare, QUADS
from harness.c13 import enclosed

ASSUMPTIONS = ['shells: the markers of the sides are computed once (the code asks for them again for every list and would get the same)',
               'listed draws of the random rays, in fractions of their ranges']
WALL = dict(quick=100, thorough=1500)
FR = [k / 128. for k in (49, 79, 18, 35, 93, 53, 71, 9, 117, 42)]
SIZES = [(2.0, 2.0, 3.0), (2.0, 4.0, 1.0), (4.0, 1.0, 2.0), (1.0, 8.0, 0.5), (0.25, 0.5, 0.25), (16.0, 16.0, 0.5), (6.0, 2.0, 16.0), (2.0, 8.0, 4.0), (24.0, 10.0, 24.0), (0.5, 0.5, 64.0), (2000.0, 2000.0, 3000.0), (1000.0, 2048.0, 512.0)]


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for cls in ('Mantel', 'StandZarge'):
        for k, z in enumerate(SIZES if not quick else SIZES if cls == 'Mantel' else SIZES[1:5]):
            out.append(dict(name='place-%s-%d' % (cls, k), fn='shell', params=dict(cls=cls, k=k, free='place', few=quick), path_s=120,
                            bounds='%s %s at a free place %s' % (cls, z, '48..64 from the axes' if quick else '1..64 from the axes, all quadrants')))
    for k in ((0, 1, 2, 8) if quick else range(len(SIZES))):
        out.append(dict(name='axis-%d' % k, fn='shell', params=dict(cls='StandZarge' if k == 1 else 'Mantel', k=k, free='axis', few=quick), path_s=120,
                        bounds='%s on the axes: the axis of the part or one of its corners at 0 or 1/8 beside it, base 48..64 above or below; and the base or the top at 0' % (SIZES[k],)))
    for free in () if quick else ('height', 'width', 'cone'):
        out.append(dict(name='free-' + free, fn='shell', params=dict(cls='Mantel', k=0, free=free, few=quick), path_s=120,
                        bounds='shells with free %s at a listed place' % free))
    for cls in ('Klopperboden', 'Korbbogenboden'):
        for o in (1, -1):
            out.append(dict(name='%s%s' % (cls, '+' if o > 0 else '-'), fn='head', params=dict(cls=cls, o=o), path_s=60, bounds='heads of listed diameters at all places +-64 step 1/8'))
    out.append(dict(name='flat', fn='flat', params={}, path_s=60, bounds='all diameters 1/8..64 at all places +-64, step 1/8'))
    out.append(dict(name='end', fn='end', params={}, path_s=60, bounds='all diameters 1/8..64 at all places +-64, step 1/8'))
    out.append(dict(name='renew', fn='renew', params={}, path_s=60, bounds='a head and a flat head that were given another place'))
    return out


def rays(env):
    st = dict(k=0)

    def hook(kind, a=0, b=1):
        if kind != 'uniform':
            return None
        st['k'] += 1
        return a + (b - a) * FR[st['k'] % len(FR)]
    env.on_random(hook)


class once(object):
    """the markers of a part: computed by the code once, then given to whoever asks"""

    def __init__(self, part):
        self.cls = type(part)
        self.value = part.intex_points

    def __enter__(self):
        self.old = self.cls.__dict__.get('intex_points')
        v = self.value
        self.cls.intex_points = property(lambda s: v)
        return v

    def __exit__(self, *a):
        if self.old is None:
            del self.cls.intex_points
        else:
            self.cls.intex_points = self.old


def shell(env, cls, k, free, few):
    rays(env)
    a, b, h = SIZES[k]
    if free == 'place':
        sx, sy = QUADS[k % 4] if few else env.pick('quad', QUADS)
        x, y = env.real('x', 48 if few else 1, 64, 3) * sx, env.real('y', 48 if few else 1, 64, 3) * sy
    elif free == 'axis':
        where = env.pick('where', [(s * u, None) for u in sorted(set((0.125, a / 2, b / 2))) for s in (1, -1)] + [(0.0, None), (None, 0.0), (None, -h)])
        x = where[0] if where[0] is not None else env.real('x', 48, 64, 3)
        y = where[1] if where[1] is not None else env.real('y', 48, 64, 3) * (-1) ** k
    else:
        x, y = -40.5, 12.0
        if free == 'height':
            h = env.real('h', 1, 16, 3)
        elif free == 'width':
            a = b = env.real('a', 1, 16, 3)
        else:
            a = env.real('a', 3, 16, 3)
    with bare(env):
        m = getattr(env.api.vessel, cls)(name='m', pos_v=y, pos_h=x, d=(a, b), h=h)
    with once(m):
        m.graph.add_intex_points()
        judge(env, m, cls, x, y, a, b, h, k)
        m.graph.renew()
        judge(env, m, cls, x, y, a, b, h, k)


def judge(env, m, cls, x, y, a, b, h, k=0):
    X, Y, A, B, H = [env.ex(v) for v in (x, y, a, b, h)]
    pts = [(X + A / 2, Y), (X + B / 2, Y + H), (X - B / 2, Y + H), (X - A / 2, Y)]
    g = m.graph
    slope = [s for s in g.segments if not env.truth(env.ex(s.i.y) == env.ex(s.j.y))]
    env.check(len(slope) == 2, 'two sloping sides')
    env.check(not g.indifferent, 'no side is indifferent')
    for s in slope:
        ins = [p for p in g.internal if p.segment is s or p.segment == s]
        outs = [p for p in g.external if p.segment is s or p.segment == s]
        env.check(len(ins) == 2 and len(outs) == 2, 'two markers inside and two outside for each side')
        i, j = xy(env, s.i), xy(env, s.j)
        right = env.truth(i[0] > X)
        for p in ins + outs:
            u, v = xy(env, p)
            # horizontal distance from the side times its height, positive to the right
            d = (u - i[0]) * (j[1] - i[1]) - (v - i[1]) * (j[0] - i[0])
            if env.truth(j[1] < i[1]):
                d = -d
            env.check(env.And(v > Y, v < Y + H), 'next to its side')
            lim = (Fraction(1, 400) if k < 10 else Fraction(1, 40)) * H
            env.check(env.And(d <= lim, d >= -lim), 'next to its side')
            inside = any(p is q for q in ins)
            env.check((d < 0) if right == inside else (d > 0), 'inside or outside')
        lo = [p for p in ins + outs if env.truth(2 * env.ex(p.y) < 2 * Y + H)]
        env.check(len(lo) == 2, 'near both ends of the side')
        env.check(len([p for p in lo if any(p is q for q in ins)]) == 1, 'one of each kind near each end')
    if cls == 'Mantel':
        env.check(len(g.internal) == 4 and len(g.external) == 4, 'no other markers')


def head(env, cls, o):
    d = env.pick('d', [0.125, 0.25, 0.5, 1.0, 2.0, 16.0, 125.0, 512.0, 4000.0])
    x, y = env.real('x', -64, 64, 3), env.real('y', -64, 64, 3)
    m = getattr(env.api.vessel, cls)(name='h', pos_v=y, pos_h=x, d=d, h1=0.125, orient=o)
    headed(env, m, x, y, d, o)


def headed(env, m, x, y, d, o):
    X, Y = env.ex(x), env.ex(y)
    g = m.graph
    hg = Fraction(max(0.1, d / 1000.))
    env.check(len(g.segments) == 2, 'two sides')
    env.check(len(g.internal) == 4 and len(g.external) == 2 and not g.indifferent, 'two markers inside and one outside per side')
    for s in g.segments:
        ins = [p for p in g.internal if p.segment is s or p.segment == s]
        outs = [p for p in g.external if p.segment is s or p.segment == s]
        env.check(len(ins) == 2 and len(outs) == 1, 'two markers inside and one outside per side')
        sgn = 1 if env.truth(env.ex(s.i.x) + env.ex(s.j.x) > 2 * X) else -1
        for p in ins + outs:
            u, v = (env.ex(p.x) - X) * sgn, (env.ex(p.y) - Y) * o
            env.check(env.And(u > 0, 2 * u < Fraction(d)), 'on the half of its side')
            gap = hg - v - 2 * hg * u / Fraction(d)         # above or below the side
            if any(p is q for q in ins):
                env.check(env.And(v > 0, gap > 0), 'between base and side')
            else:
                env.check(env.And(v > 0, gap < 0), 'beyond the side')


def flat(env):
    d = env.real('d', 0.125, 64, 3)
    x, y = env.real('x', -64, 64, 3), env.real('y', -64, 64, 3)
    m = env.api.vessel.Flachboden(name='f', pos_v=y, pos_h=x, d=d)
    flatted(env, m, x, y, d)
    m.graph.renew()
    flatted(env, m, x, y, d)


def flatted(env, m, x, y, d):
    g = m.graph
    env.check(not g.internal and not g.external, 'neither inside nor outside')
    env.check(len(g.indifferent) == 2, 'one above and one below')
    X, Y = env.ex(x), env.ex(y)
    up = [p for p in g.indifferent if env.truth(env.ex(p.y) > Y)]
    lo = [p for p in g.indifferent if env.truth(env.ex(p.y) < Y)]
    env.check(len(up) == 1 and len(lo) == 1, 'one above and one below')
    for p in up + lo:
        env.check(env.And(2 * (env.ex(p.x) - X) < env.ex(d), 2 * (X - env.ex(p.x)) < env.ex(d)), 'over the head')
        env.check(near(env, p.y, Y, env.ex(d) / 20), 'next to the head')
        env.check(p.segment is g.segments[0] or p.segment == g.segments[0], 'of its side')


def end(env):
    d = env.real('d', 0.125, 64, 3)
    x, y = env.real('x', -64, 64, 3), env.real('y', -64, 64, 3)
    m = env.api.vessel.RaumEnde(name='f', pos_v=y, pos_h=x, d=d)
    g = m.graph
    env.check(not g.internal and not g.external and not g.indifferent, 'no markers')


def renew(env):
    x, y = env.real('x', -64, 64, 3), env.real('y', -64, 64, 3)
    u, v = env.real('u', -64, 64, 3), env.real('v', -64, 64, 3)
    what = env.pick('what', ['head', 'flat'])
    V = env.api.vessel
    if what == 'head':
        m = V.Klopperboden(name='h', pos_v=y, pos_h=x, d=2.0, h1=0.125, orient=1)
    else:
        m = V.Flachboden(name='f', pos_v=y, pos_h=x, d=2.0)
    m.pos_h, m.pos_v = u, v
    m._segments = V.Klopperboden(name='h', pos_v=v, pos_h=u, d=2.0, h1=0.125, orient=1).segments if what == 'head' else \
        V.Flachboden(name='f', pos_v=v, pos_h=u, d=2.0).segments
    for _ in range(env.pick('times', [1, 2])):
        m.graph.renew()
    if what == 'head':
        headed(env, m, u, v, 2.0, 1)
    else:
        flatted(env, m, u, v, 2.0)
