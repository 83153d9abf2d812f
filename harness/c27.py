# -*- coding: utf-8 -*-
from harness.common import *
from harness.c21 import bare
from harness.c23 import once
from harness.c26 import KINDS, FORKY, QUAD, build, judge, place, rays

ASSUMPTIONS = ['vessels of the listed kinds and sizes at free places; listed orders of their parts; the markers of a shell are computed once',
               'listed draws of the random rays, in fractions of their ranges',
               'three listed ways to triangulate an outline']
WALL = dict(quick=200, thorough=1500)
KEYS = ('innenraum', 'aussenraum', 'indifferent')


def mark(env, parts):
    for p in parts:
        if p.__class__.__name__ in ('Mantel', 'StandZarge', 'KegelKrempe'):
            with once(p):
                p.graph.add_intex_points()
        else:
            p.graph.add_intex_points()


def state(b):
    """everything of a vessel a query has to leave alone"""
    out = []
    for p in b.polygons:
        out.append((id(p), p.name, [id(s) for s in p.segments], [(id(s), id(s.i), id(s.j)) for s in p.graph.segments],
                    [[id(q) for q in getattr(p.graph, k)] for k in ('internal', 'external', 'indifferent')]))
    rooms = [(id(r), r.name, tuple(r.cycle), sorted(id(p) for p in r.aussere_wandung), sorted(id(p) for p in r.innere_wandung)) for r in b.raume]
    return out, rooms


def places(b):
    out = []
    for p in b.polygons:
        for s in list(p.segments) + list(p.graph.segments):
            out += [s.i.x, s.i.y, s.j.x, s.j.y]
        for k in ('internal', 'external', 'indifferent'):
            for q in getattr(p.graph, k):
                out += [q.x, q.y]
    return out


def table(env, name, k, few):
    parts, want, side, at = build(env, name, k, few)
    mark(env, parts)
    b = env.api.vessel.Behalter(parts)
    rooms_ = judge(env, b, parts, want)
    found = [r.name for r in rooms_]
    was = [(r, r.name) for r in rooms_]
    before, at = state(b), places(b)
    got = b.raum_intex()
    env.check(sorted(got.keys()) == sorted(p.name for p in parts), 'a line for every part')
    for p in parts:
        line = got[p.name]
        env.check(sorted(line.keys()) == sorted(KEYS), 'three entries for every part')
        for key, rooms in zip(KEYS, side[p.name]):
            env.check(set(line[key]) == set(found[i] for i in rooms), key)
    env.check(state(b) == before, 'the vessel is left as it was')
    now = places(b)
    env.check(len(now) == len(at) and all(u is v for u, v in zip(at, now)) or env.And(*[env.ex(u) == env.ex(v) for u, v in zip(at, now)]), 'nothing of the vessel is moved')
    if few == 1:
        return
    env.check(b.raum_intex() == got, 'the table is the same every time')
    # the rooms under other names, listed the other way round
    for i, r in enumerate(b.raume):
        r.set_name('Z%d' % i)
    new = dict((n, r.name) for n, r in zip(found_names(b, was), b.raume))
    b.raume = b.raume[::-1]
    now = b.raum_intex()
    env.check(now == dict((p, dict((k, set(new[n] for n in v)) for k, v in line.items())) for p, line in got.items()), 'the table follows the names of the rooms')


def found_names(b, found):
    """former names of the rooms in the order of b.raume"""
    return [[n for r, n in found if r is q][0] for q in b.raume]


def again(env, names, k, few):
    """vessels whose parts have the same names, one after the other at the same place"""
    tables = []
    x, y = place(env, names[0], few, k)
    rays(env)
    env.on_mesh(0)
    kept = []
    for n in names + names[:1]:
        with bare(env):
            parts, want, side = KINDS[n](env, n, x, y)
        mark(env, parts)
        b = env.api.vessel.Behalter(parts)
        found = judge(env, b, parts, want)
        kept.append((b, [r.name for r in found], side))
    for b, found, side in kept:
        got = b.raum_intex()
        for p in b.polygons:
            for key, rooms in zip(KEYS, side[p.name]):
                env.check(set(got[p.name][key]) == set(found[i] for i in rooms), key + ' of this vessel')


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for k, n in enumerate(sorted(KINDS)):
        if quick and n in FORKY + ('corner', 'above', 'inner2', 'four', 'pair', 'double'):
            continue
        k = QUAD.get(n, k)
        few = (2 if n in ('drum', 'twin', 'cup') else 1) if quick else 0
        out.append(dict(name=n, fn='table', params=dict(name=n, k=k, few=few), path_s=200,
                        bounds='vessel %s at all places %s, %d orders of its parts' % (n, 'far out along the x axis (96..128 times their scale, 4..12 from it)' if quick else '1..64 times their scale in all quadrants', (0, 1, 3)[few] or 6)))
    for k, names in enumerate([['drum', 'cup'], ['twin', 'tall']] if quick else [['drum', 'cup'], ['twin', 'tall'], ['two', 'updown'], ['sum', 'three']]):
        out.append(dict(name='again-%s' % names[0], fn='again', params=dict(names=names, k=k, few=1 if quick else 0), path_s=300,
                        bounds='vessels %s and %s with parts of the same names, at the same place, both asked in turn' % tuple(names)))
    return out
