# -*- coding: utf-8 -*-
from harness.common import *
from harness.c21 import bare, QUADS
from harness.c23 import once

ASSUMPTIONS = ['marker points are not computed here (C23, C27)', 'vessels of the listed kinds and sizes at free places; listed orders of their parts',
               'listed draws of the random rays, in fractions of their ranges', 'only one region encloses others (the code rejects vessels with more than one such region, and regions inside a region inside a region)',
               'three listed ways to triangulate an outline']
WALL = dict(quick=180, thorough=1500)
FR = [k / 128. for k in (49, 79, 18, 35, 93, 53, 71, 9, 117, 42)]
F, K, B = 'Flachboden', 'Klopperboden', 'Korbbogenboden'
# name: (diameter, heights of the shells, lower end, upper end, what separates each two shells)
STACKS = dict(
    drum=(4.0, [2.0], F, F, []),
    tank=(4.0, [2.0], K, B, []),
    cup=(3.0, [0.5], B, F, []),
    tall=(2.0, [4.0, 1.0], K, K, [None]),
    two=(125.0, [64.0, 32.0], K, K, [(K, -1)]),
    twin=(4.0, [1.0, 1.0], F, F, [F]),
    updown=(125.0, [32.0, 96.0], F, B, [(B, 1)]),
    three=(125.0, [32.0, 32.0, 32.0], K, B, [F, F]),
    sum=(4.0, [1.0, 1.0, 2.0], F, F, [F, F]),
    heads=(125.0, [32.0, 96.0, 48.0], K, K, [(K, -1), (K, 1)]),
    huge=(4000.0, [1000.0, 2500.0], K, K, [(K, -1)]),
    big=(125.0, [64.0], K, B, []),
    tiny=(0.25, [0.125, 0.25], F, F, [F]),
    four=(4.0, [1.0, 1.0, 1.0, 2.0], F, F, [F, F, F]),
)
# name: ((diameter, height, ends of the outer vessel), inner stacks with their places)
NESTS = dict(
    jacket=((6.0, 6.0, K, K), [('tank', 0.0, 1.0)]),
    box=((8.0, 8.0, F, F), [('twin', 0.0, 2.0)]),
    inner2=((187.5, 192.0, K, K), [('two', 0.0, 48.0)]),
    pair=((12.0, 6.0, K, F), [('tank', -3.0, 1.0), ('drum', 3.0, 2.0)]),
    above=((6.0, 12.0, B, B), [('tank', 0.0, 1.0), ('drum', 0.0, 6.0)]),
    row=((16.0, 8.0, F, F), [('drum', -5.0, 2.0), ('twin', 0.0, 2.0), ('drum', 5.0, 2.0)]),
    mixed=((12.0, 8.0, F, F), [('twin', -3.0, 2.0), ('drum', 3.0, 4.0)]),
    tight=((4.25, 2.25, F, F), [('drum', 0.0, 0.125)]),
    double=((12.0, 8.0, F, F), [('twins', 0.0, 1.0)]),
)
LENSES = dict(under=(1, True), over=(-1, True), floor=(0, False))
STACKS['halls'] = (8.0, [12.0, 10.0], F, F, [F])
HALLS = dict(hall=('halls', 'drum', 13.0, 1), lobby=('halls', 'twin', 3.0, 0))
STACKS['twins'] = (8.0, [2.0, 4.0], F, F, [F])


def part(env, kind, name, x, y, d, o=1):
    V = env.api.vessel
    if kind == F:
        return V.Flachboden(name=name, pos_v=y, pos_h=x, d=d)
    return getattr(V, kind)(name=name, pos_v=y, pos_h=x, d=d, h1=d / 32, orient=o)


def stack(env, name, x, y, pre=''):
    """parts of a stack, its rooms as sets of names, and for every part the rooms (indices) inside, outside, indifferent"""
    V = env.api.vessel
    d, hs, lo, hi, mids = STACKS[name]
    parts, rooms, side = [], [], {}

    def put(p, inn=(), out=(), ind=()):
        parts.append(p)
        side[p.name] = (list(inn), list(out), list(ind))
    cur = [pre + 'lo']
    p = part(env, lo, pre + 'lo', x, y, d, -1)
    put(p, *(((), (), [0]) if lo == F else ([0], (), ())))
    v = y
    n = 0
    for k, h in enumerate(hs):
        put(V.Mantel(name=pre + 's%d' % k, pos_v=v, pos_h=x, d=(d, d), h=h), [n])
        cur.append(pre + 's%d' % k)
        v = v + h
        if k < len(mids) and mids[k] is not None:
            m = mids[k]
            nm = pre + 'm%d' % k
            if m == F:
                put(part(env, F, nm, x, v, d), (), (), [n, n + 1])
            else:
                put(part(env, m[0], nm, x, v, d, m[1]), [n + 1] if m[1] < 0 else [n], [n] if m[1] < 0 else [n + 1])
            rooms.append((set(cur + [nm]), set()))
            cur = [nm]
            n += 1
    put(part(env, hi, pre + 'hi', x, v, d, 1), *(((), (), [n]) if hi == F else ([n], (), ())))
    rooms.append((set(cur + [pre + 'hi']), set()))
    return parts, rooms, side


def nest(env, name, x, y):
    V = env.api.vessel
    (d, h, lo, hi), inner = NESTS[name]
    parts, rooms, side = [], [], {}
    walls = set()
    for k, (s, dx, dy) in enumerate(inner):
        p, r, q = stack(env, s, x + dx, y + dy, 'i%d' % k)
        off = len(rooms)
        parts += p
        rooms += r
        for nm, w in q.items():
            side[nm] = tuple([off + i for i in u] for u in w)
        # the parts facing the outer vessel: those of one room only
        for q_ in p:
            if len([1 for o, _ in r if q_.name in o]) == 1:
                walls.add(q_.name)
    n = len(rooms)
    for nm in walls:
        side[nm][2 if side[nm][2] else 1].append(n)
    out = [part(env, lo, 'olo', x, y, d, -1), V.Mantel(name='os', pos_v=y, pos_h=x, d=(d, d), h=h), part(env, hi, 'ohi', x, y + h, d, 1)]
    for p in out:
        flat = p.__class__.__name__ == F
        side[p.name] = ([] if flat else [n], [], [n] if flat else [])
    rooms.append((set(p.name for p in out), walls))
    return parts + out, rooms, side


def hall(env, name, x, y):
    """a vessel inside one of the rooms of another one that has several rooms"""
    outer, inner, dy, room = HALLS[name]
    parts, rooms, side = stack(env, outer, x, y, 'o')
    p, r, q = stack(env, inner, x, y + dy, 'i')
    off = len(rooms)
    shell = set(z.name for z in p if len([1 for o, _ in r if z.name in o]) == 1)
    for nm, w in q.items():
        side[nm] = tuple([off + i for i in u] for u in w)
        if nm in shell:
            side[nm][2 if side[nm][2] else 1].append(room)
    rooms[room] = (rooms[room][0], shell)
    return p + parts, rooms + r, side


def lens(env, name, x, y):
    """two ends at the same place: the space between a flat head and a curved one is a room"""
    up, deep = LENSES[name]
    p, r, s = stack(env, 'two' if deep else 'big', x, y)
    d = 125.0
    if not deep:
        # a flat head in the lower end: the curved end below it makes a room with it
        p.append(part(env, F, 'k', x, y, d))
        r[0] = (set(['k', 's0', 'hi']), set())
        r.append((set(['k', 'lo']), set()))
        s['lo'] = ([1], [], [])
        s['k'] = ([], [], [0, 1])
        return p, r, s
    p = [q for q in p if q.name != 'm0']
    p += [part(env, F, 'm0', x, y + 64, d), part(env, K, 'k', x, y + 64, d, up)]
    r = [(set(['lo', 's0', 'm0' if up > 0 else 'k']), set()), (set(['s1', 'hi', 'k' if up > 0 else 'm0']), set()), (set(['k', 'm0']), set())]
    s['k'] = ([2], [1 if up > 0 else 0], [])
    s['m0'] = ([], [], [0 if up > 0 else 1, 2])
    return p, r, s


def skirt(env, name, x, y):
    """a tank on a skirt: the space in the skirt is a room too, outside of the lower head"""
    p, r, s = stack(env, 'big', x, y)
    d = STACKS['big'][0]
    p.append(env.api.vessel.StandZarge(name='sk', pos_v=y - 64, pos_h=x, d=(d, d), h=64.0))
    r.append((set(['lo', 'sk']), set()))
    s['lo'][1].append(1)
    s['sk'] = ([1], [], [])
    return p, r, s


def cone(env, name, x, y):
    V = env.api.vessel
    co = V.Mantel(name='co', pos_v=y - 1, pos_h=x, d=(2.0, 4.0), h=1.0)
    up = V.Mantel(name='up', pos_v=y, pos_h=x, d=(4.0, 4.0), h=2.0)
    kk = V.KegelKrempe(name='kk', h_non_kegelside=0.25, h_kegelside=0.25, r=0.0 if name == 'corner' else 0.5, hts=(up,), kegel=co)
    p = [co, up, kk, part(env, K, 'hi', x, y + 2, 4.0), part(env, F, 'lo', x, y - 1, 2.0, -1)]
    s = dict((q.name, ([0], [], [])) for q in p)
    s['lo'] = ([], [], [0])
    return p, [(set(s), set())], s


def split(env, name, x, y):
    p, r, s = stack(env, 'two', x, y)
    for q in p:
        if q.name == 's0':
            q.split(v=y + 16)
            q.split(v=y + 40)
        if q.name == 's1' and name == 'cuts':
            q.split(v=y + 80)
    return p, r, s


KINDS = dict([(n, stack) for n in STACKS] + [(n, nest) for n in NESTS] + [(n, hall) for n in HALLS] + [(n, lens) for n in LENSES] + [('skirt', skirt), ('corner', cone), ('round', cone), ('cut', split), ('cuts', split)])


def rays(env):
    st = dict(k=0)

    def hook(kind, a=0, b=1):
        if kind != 'uniform':
            return None
        st['k'] += 1
        return a + (b - a) * FR[st['k'] % len(FR)]
    env.on_random(hook)


def orders(n, few, k=0):
    """orders of n parts"""
    idx = list(range(n))
    out = [idx, idx[::-1], idx[1::2] + idx[::2]]
    if not few:
        out += [idx[::2] + idx[1::2], idx[n // 2:] + idx[:n // 2], idx[2:] + idx[:2]]
    return [out[k % 3]] if few == 1 else out[:3] if few else out


def size(name):
    """scale and height of a vessel"""
    if name in STACKS:
        d, hs = STACKS[name][:2]
        h = sum(hs)
    elif name in HALLS:
        d, h = 8.0, 22.0
    else:
        d, h = NESTS[name][0][:2] if name in NESTS else (125.0, 96.0) if name in ('cut', 'cuts', 'skirt') + tuple(LENSES) else (4.0, 4.0)
    return Fraction(1024) if d > 1000 else Fraction(32) if d > 100 else Fraction(1, 16) if d < 1 else Fraction(1), Fraction(h)


def place(env, name, few, k):
    """few: far out along the x axis, all of the vessel above or below of it"""
    s, h = size(name)
    if few:
        sx, up = QUADS[k % 4]
        lo = 4 * s if up > 0 else -h - 12 * s
        return env.real('x', 96 * s, 128 * s, 3) * sx, env.real('y', lo, lo + 8 * s, 3)
    sx, sy = env.pick('quad', QUADS)
    return env.real('x', s, 64 * s, 3) * sx, env.real('y', s, 64 * s, 3) * sy


def build(env, name, k, few):
    rays(env)
    # the library's own triangulation (0) has thinner triangles and forks more on rounding errors
    v = env.pick('mesh', [1 + (k + k // 4) % 2] if few else [0, 1, 2])
    env.on_mesh(v)
    x, y = place(env, name, few, k)
    with bare(env):
        parts, rooms, side = KINDS[name](env, name, x, y)
    parts = [parts[i] for i in env.pick('order', orders(len(parts), few))]
    return parts, rooms, side, (x, y)


def names(walls):
    return sorted(set(p.name for p in walls))


def judge(env, b, parts, rooms):
    """room objects in the order of the expected rooms"""
    env.check(len(b.raume) == len(rooms), 'number of rooms')
    by = dict((p.name, p) for p in parts)
    out = []
    for o, i in rooms:
        f = [r for r in b.raume if names(r.aussere_wandung) == sorted(o)]
        env.check(len(f) == 1, 'the walls around a room')
        env.check(names(f[0].innere_wandung) == sorted(i), 'the walls inside a room')
        env.check(all(p is by[p.name] for p in f[0].ganze_wandung), 'the walls are the parts of the vessel')
        out.append(f[0])
    env.check(len(set(r.name for r in b.raume)) == len(b.raume), 'every room has its own name')
    return out


def rooms(env, name, k, few):
    parts, want, side, at = build(env, name, k, few)
    b = env.api.vessel.Behalter(parts)
    env.check(len(b.polygons) == len(parts) and all(p is q for p, q in zip(b.polygons, parts)), 'the vessel keeps its parts')
    found = judge(env, b, parts, want)
    # the description of the cycles
    num = [r.cycle[0] for r in found]
    env.check(sorted(num) == sorted(b.graph.cycles.keys()), 'one cycle per room')
    inside = b.contained_cycles
    for i, (o, inn) in enumerate(want):
        cont = sorted(j for j in range(len(want)) if j != i and inn and want[j][0] & inn)
        env.check(sorted(inside[num[i]]) == sorted(num[j] for j in cont), 'contained rooms')
    share = {}
    for i in range(len(want)):
        for j in range(i + 1, len(want)):
            if want[i][0] & want[j][0]:
                share[tuple(sorted((num[i], num[j])))] = want[i][0] & want[j][0]
    env.check(dict((q, set(v)) for q, v in b.overlaps_in_cycles_named.items()) == share, 'parts shared by two rooms')
    ov = b.all_overlapping_segments
    env.check(sorted(g.hauptteil.name for g in ov) == sorted(x for v in share.values() for x in v), 'all shared parts')
    for r in found:
        for pl, segs in ((r.as_polygon, lambda p: p.wall_segments), (r.graph_as_polygon(), lambda p: p.graph.segments)):
            want_ = [t for p in r.ganze_wandung for t in segs(p)]
            env.check(len(pl.segments) == len(want_) and all(any(u is v for v in want_) for u in pl.segments), 'the room drawn as a polygon')


FORKY = ('heads', 'tight', 'tiny', 'round', 'cut', 'cuts')


# quadrants where the quick runs place these (fewer forks on rounding errors there)
QUAD = dict(above=4, under=6, inner2=4, two=3)


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for k, n in enumerate(sorted(KINDS)):
        if quick and n in FORKY + ('corner', 'inner2'):
            continue
        k = QUAD.get(n, k)
        few = (2 if n in ('twin', 'twins') else 1) if quick else 0
        out.append(dict(name=n, fn='rooms', params=dict(name=n, k=k, few=few), path_s=150,
                        bounds='vessel %s at all places %s, %d orders of its parts' % (n, 'far out along the x axis (96..128 times their scale, 4..12 from it)' if quick else '1..64 times their scale in all quadrants', (0, 1, 3)[few] or 6)))
    return out
