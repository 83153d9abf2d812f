# -*- coding: utf-8 -*-
from harness.common import *

ASSUMPTIONS = ['no two segments of a group connect the same two vertices; vertices on the grids stated']
WALL = dict(quick=60, thorough=1200)
# polygons as lists of vertex numbers (walked in order)
GROUPS = dict(
    ONE=[[0, 1, 2, 0]],
    APART=[[0, 1, 2, 0], [3, 4, 5, 3]],
    CORNER=[[0, 1, 2, 0], [2, 3, 4, 2]],
    THETA=[[0, 1, 2, 3, 0], [0, 4, 2]],
    LOOSE=[[0, 1, 2, 0], [2, 3]],
    CHAIN=[[0, 1, 2], [2, 3, 0]],
    CROSSING=[[0, 1, 2, 3, 0], [0, 2], [1, 3]],
    BRIDGE=[[0, 1, 2, 0], [3, 4, 5, 3], [1, 3]],
    TWOPARTS=[[0, 1], [1, 2], [0, 2]],
    KITE=[[0, 1, 2], [2, 0], [1, 3, 0]],
    LINE=[[0, 1]],
    ODD=[[0, 1, 2, 0], [0, 3], [1, 3], [2, 3], [4, 5, 6, 4], [4, 7, 5]],
    # vertex 0 has n neighbours
    HUB4=[[0, 1, 2, 0], [0, 3, 4, 0]],
    HUB10=[[0, 2 * k + 1, 2 * k + 2, 0] for k in range(5)],
    HUB12=[[0, 2 * k + 1, 2 * k + 2, 0] for k in range(6)],
)
BASE = [(0, 0), (6, 1), (5, 5), (-1, 7), (-4, 2), (-7, 6), (-3, 9), (2, 12), (9, 9), (9, 7), (12, 2), (-9, -1), (-8, -4)]
GROUPS['RING'] = [list(range(13, 33)) + [13], [13, 17, 21, 25], [29, 15]]
BASE = BASE + ring_of(20, dent=0.75)
SCALES = dict(KITE=0.015625, THETA=256.0, BRIDGE=64.0, ODD=0.03125)


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for n in sorted(GROUPS):
        used = sorted({v for g in GROUPS[n] for v in g})
        if n == 'RING' or quick and n == 'HUB12':
            used = []
        for f in (used if len(used) < 4 or not quick else [used[0], used[3]]):
            out.append(dict(name='free-%s-%d' % (n, f), fn='free', params=dict(group=n, f=f, q=1 if quick else 3),
                            bounds='listed group, one vertex free on a grid +-16 step 1/%d (so also on other vertices and sides)' % (2 if quick else 8)))
        out.append(dict(name='place-' + n, fn='place', params=dict(group=n), bounds='listed group anywhere +-64 step 1/8, listed orders and directions'))
    for n in sorted(SCALES):
        out.append(dict(name='scale-' + n, fn='place', params=dict(group=n, z=SCALES[n]), bounds='listed group, %s times as big, anywhere +-64 step 1/8, listed orders and directions' % SCALES[n]))
    return out


def build(env, group, pts, rev=False, last=False):
    P, L, G = env.api.Point, env.api.LineSegment, env.api.PolygonLine
    polys = []
    for g in GROUPS[group]:
        if rev:
            g = g[::-1]
        polys.append(G([L(P(pts[a]), P(pts[b])) for a, b in zip(g, g[1:])]))
    if last:
        polys = polys[::-1]
    return env.api.group.PolygonGroup(polys), polys


def edges(group):
    return [(a, b) for g in GROUPS[group] for a, b in zip(g, g[1:])]


def ids(env, pts, used):
    """for every vertex the first vertex at its place"""
    out = {}
    for k in used:
        out[k] = k
        for j in used:
            if j < k and out[j] == j and env.truth(near_xy(env, pts[k], pts[j])):
                out[k] = j
                break
    return out


def less(env, a, b):
    return env.Or(a[0] < b[0], env.And(a[0] == b[0], a[1] < b[1]))


def judge(env, group, g, polys, pts):
    used = sorted({v for e in edges(group) for v in e})
    pts = {k: (env.ex(pts[k][0]), env.ex(pts[k][1])) for k in used}
    at = ids(env, pts, used)
    reps = sorted(set(at.values()))
    es = [(at[a], at[b]) for a, b in edges(group)]
    und = {tuple(sorted(e)) for e in es}
    if len(und) < len(es) or any(a == b for a, b in es):
        return      # double or empty segments: not judged
    before = [coords(p) for p in polys]
    # numbering
    pn = g.points_numbered
    env.check(sorted(pn.values()) == list(range(len(reps))), 'the numbers 0..n-1, once each')
    where = {}
    for p, n in pn.items():
        hit = [k for k in reps if env.truth(near_xy(env, xy(env, p), pts[k]))]
        env.check(len(hit) == 1, 'numbered points are vertices')
        where[n] = hit[0]
    env.check(sorted(where.values()) == reps, 'every vertex is numbered')
    for n in range(len(reps) - 1):
        env.check(less(env, pts[where[n]], pts[where[n + 1]]), 'numbered in lexicographic order')
    no = {k: n for n, k in where.items()}
    want = {no[k]: sorted([no[b] for a, b in es if a == k] + [no[a] for a, b in es if b == k]) for k in reps}
    # adjacency
    al = g.as_adjacency_list(as_numbered=True)
    env.check({k: sorted(v) for k, v in al.items()} == want, 'adjacency by numbers')
    al = g.as_adjacency_list()
    got = {}
    for p, nb in al.items():
        k = [k for k in reps if env.truth(near_xy(env, xy(env, p), pts[k]))]
        env.check(len(k) == 1, 'adjacency by points: vertices')
        got[no[k[0]]] = sorted(no[j] for q in nb for j in reps if env.truth(near_xy(env, xy(env, q), pts[j])))
        env.check(len(got[no[k[0]]]) == len(nb), 'adjacency by points: neighbours are vertices')
        env.check(g.node_degree(al, p) == len(nb), 'degree')
    env.check(got == want, 'adjacency by points')
    # edges
    el = g.as_edgelist
    env.check(sorted(tuple(sorted(e)) for e in el) == sorted(tuple(sorted((no[a], no[b]))) for a, b in es), 'edge list')
    # validity
    deg = [len(v) for v in want.values()]
    ok = all(d in (2, 3) for d in deg) and deg.count(2) >= 3 and deg.count(3) % 2 == 0
    valid = all(env.truth(p.isvalid) for p in polys)
    env.check(env.truth(g.isvalid) == (ok and valid), 'valid exactly as the degrees say')
    env.cover('valid' if ok and valid else 'invalid')
    env.check([coords(p) for p in polys] == before, 'asking changes nothing')
    # the polygons stay independent of one another
    polys[0].move(x0=1, y0=2)
    env.check([coords(p) for p in polys[1:]] == before[1:], 'a polygon moved later on does not drag along the others')


def free(env, group, f, q):
    u, v = env.real('u', -16, 16, q), env.real('v', -16, 16, q)
    pts = [(float(a), float(b)) for a, b in BASE]
    pts[f] = (u, v)
    g, polys = build(env, group, pts, rev=f % 2 == 1, last=f % 3 == 1)
    judge(env, group, g, polys, pts)


def place(env, group, z=1):
    x, y = env.real('x', -64, 64, 3), env.real('y', -64, 64, 3)
    pts = [(x + z * a, y + z * b) for a, b in BASE]
    g, polys = build(env, group, pts, env.pick('rev', [False, True]), env.pick('last', [False, True]))
    judge(env, group, g, polys, pts)
