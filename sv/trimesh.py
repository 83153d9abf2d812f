# -*- coding: utf-8 -*-
"""Stand-in for the C library `triangle` (triangulate(data, 'p')).

Contract assumed of the library: for closed outlines without crossings it
returns a constrained triangulation of the inside with the given vertices only;
outlines inside others are filled as well (no holes are asked for).
Which one it returns is left open: here ears are cut, the VARIANT-th possible
ear each time, so that the scenarios can ask for different triangulations.
Open chains have no inside: no triangles.
"""
from fractions import Fraction
from . import core
from . import poly as P
from .core import Unsupported

VARIANT = [0]


def _ex(x):
    if type(x) is core.SymExt:
        x = x.resolve()
    if type(x) is core.SymReal:
        return core.Ex(core.CTX.lift(x))
    if isinstance(x, core.Ex):
        return x
    return core.Ex(P.const(core.frac(x)))


def loops(n, segs):
    nb = {}
    for a, b in segs:
        a, b = int(a), int(b)
        if a == b:
            continue
        nb.setdefault(a, set()).add(b)
        nb.setdefault(b, set()).add(a)
    # open ends bound nothing
    while True:
        ends = [v for v in nb if len(nb[v]) == 1]
        if not ends:
            break
        for v in ends:
            for w in nb.pop(v):
                nb[w].discard(v)
        for v in [v for v in nb if not nb[v]]:
            nb.pop(v)
    if any(len(s) != 2 for s in nb.values()):
        raise Unsupported('triangulation of branching outlines')
    out = []
    left = set(nb)
    while left:
        start = min(left)
        loop, prev, cur = [start], None, start
        while True:
            left.discard(cur)
            nxt = [w for w in sorted(nb[cur]) if w != prev]
            if prev is None:
                nxt = nxt[:1]
            prev, cur = cur, nxt[0]
            if cur == start:
                break
            loop.append(cur)
        out.append(loop)
    return out


def triangulate(data, opts='p', *a, **kw):
    if not isinstance(opts, str) or opts.replace('Q', '') != 'p':
        raise Unsupported('triangulation options %r' % (opts,))
    verts = [list(v) for v in data['vertices']]
    res = {'vertices': data['vertices'], 'segments': data.get('segments', [])}
    lps = loops(len(verts), [list(s) for s in data['segments']])
    if not lps:
        return res
    xy = [(_ex(v[0]), _ex(v[1])) for v in verts]

    def cross(o, p, q):
        (ox, oy), (px, py), (qx, qy) = xy[o], xy[p], xy[q]
        return (px - ox) * (qy - oy) - (py - oy) * (qx - ox)

    def sign(o, p, q):
        c = cross(o, p, q)
        return 1 if bool(c > 0) else -1 if bool(c < 0) else 0

    def within(v, loop):
        """odd number of crossings of the ray to the right"""
        odd = False
        for a, b in zip(loop, loop[1:] + loop[:1]):
            if bool(xy[a][1] > xy[v][1]) != bool(xy[b][1] > xy[v][1]):
                c = cross(a, b, v)
                if bool(c > 0) == bool(xy[b][1] > xy[a][1]):
                    odd = not odd
        return odd

    def clear(a, b, edges):
        """the connection a-b meets none of the edges but in a and b"""
        for c, d in edges:
            if a in (c, d) or b in (c, d):
                e = d if c in (a, b) else c
                if e in (a, b):
                    return False
                m = c if e == d else d
                o = b if m == a else a
                # the other end on the connection, or the other way round
                if sign(m, o, e) == 0 and bool((xy[o][0] - xy[m][0]) * (xy[e][0] - xy[m][0]) + (xy[o][1] - xy[m][1]) * (xy[e][1] - xy[m][1]) > 0):
                    return False
                continue
            if sign(a, b, c) * sign(a, b, d) <= 0 and sign(c, d, a) * sign(c, d, b) <= 0:
                return False
        return True

    turned = []
    for loop in lps:
        tot = 0
        for k in range(1, len(loop) - 1):
            tot = cross(loop[0], loop[k], loop[k + 1]) + tot
        if bool(tot < 0):
            loop = loop[::-1]
        elif bool(tot == 0):
            continue
        turned.append(loop)
    if not turned:
        return res
    var = VARIANT[0]
    tris = []
    inside = [[j for j, o in enumerate(turned) if j != i and within(lp[0], o)] for i, lp in enumerate(turned)] if len(turned) > 1 else [[]]
    for i, loop in enumerate(turned):
        holes = [turned[j][::-1] for j in range(len(turned)) if i in inside[j] and len(inside[j]) == len(inside[i]) + 1]
        while holes:
            edges = [e for lp in [loop] + holes for e in zip(lp, lp[1:] + lp[:1])]
            hit = None
            for n, hole in enumerate(holes):
                for h in hole[var % len(hole):] + hole[:var % len(hole)]:
                    for o in loop:
                        if loop.count(o) == 1 and clear(o, h, edges):
                            hit = (n, o, h)
                            break
                    if hit:
                        break
                if hit:
                    break
            if not hit:
                raise Unsupported('no connection to a hole found')
            n, o, h = hit
            hole = holes.pop(n)
            k = hole.index(h)
            m = loop.index(o)
            loop = loop[:m + 1] + hole[k:] + hole[:k + 1] + loop[m:]
        new = ears_of(loop, cross, var)
        tris += new if var else delaunay(new, loop, xy, cross)
    res['triangles'] = tris
    return res


def delaunay(tris, loop, xy, cross):
    """edges flipped until the circle of no triangle holds the tip of its neighbour, as the library does it;
    only where that is known without a decision on the inputs"""
    fixed = set()
    for a, b in zip(loop, loop[1:] + loop[:1]):
        fixed.add((a, b))
        fixed.add((b, a))

    def flippable(a, b, c, d):
        """triangles abc and bad, both counterclockwise"""
        (dx, dy) = xy[d]
        m = [[xy[v][0] - dx, xy[v][1] - dy] for v in (a, b, c)]
        m = [known_pair(r) for r in m]
        if any(r is None for r in m):
            return False
        for r in m:
            r.append(r[0] * r[0] + r[1] * r[1])
        det = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
               + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
        return det > abs(m[2][2]) * Fraction(1, 10 ** 6)

    tris = [list(t) for t in tris]
    for _ in range(4 * len(tris) * len(tris)):
        edge = {}
        for k, t in enumerate(tris):
            for i in range(3):
                edge[(t[i], t[(i + 1) % 3])] = (k, t[(i + 2) % 3])
        for (a, b), (k, c) in sorted(edge.items()):
            if (a, b) in fixed or (b, a) not in edge or a > b:
                continue
            j, d = edge[(b, a)]
            if flippable(a, b, c, d):
                tris[k], tris[j] = [c, a, d], [c, d, b]
                break
        else:
            return tris
    return tris


def known_pair(r):
    out = []
    for e in r:
        if isinstance(e, core.Ex):
            lo, hi = core.CTX.interval(e.p)
            if hi - lo > Fraction(1, 10 ** 6):
                return None
            e = (lo + hi) / 2
        out.append(e)
    return out


def ears_of(loop, cross, var):
    tris = []
    while len(loop) > 3:
        n = len(loop)
        ears = []
        for k in range(n):
            p, c, q = loop[k - 1], loop[k], loop[(k + 1) % n]
            if len(set((p, c, q))) < 3 or not bool(cross(p, c, q) > 0):
                continue
            for w in loop:
                if w not in (p, c, q) and bool(cross(p, c, w) >= 0) and bool(cross(c, q, w) >= 0) and bool(cross(q, p, w) >= 0):
                    break
            else:
                ears.append(k)
                if var == 0:
                    break
        if not ears:
            raise Unsupported('no ear found')
        k = ears[(var * 7 + len(tris) * 3) % len(ears)] if var else ears[0]
        tris.append([loop[k - 1], loop[k], loop[(k + 1) % n]])
        loop = loop[:k] + loop[k + 1:]
    tris.append(list(loop))
    return tris
