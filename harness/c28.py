# -*- coding: utf-8 -*-
import itertools
import time
from harness.common import *

ASSUMPTIONS = ['the names of the rooms are symbolic numbers: any hashable value is a name, only equality of names matters',
               'the pauses before an exception are skipped']
WALL = dict(quick=60, thorough=1200)

# cells of the table (part, side) with their numbers of entries, the same for the pattern
SHAPES = [
    ('empty', [0, 0], [0, 0]),
    ('one', [1, 0], [1, 0]),
    ('one-moved', [1, 0], [0, 1]),
    ('two-sides', [1, 1], [1, 1]),
    ('two-in-one', [2, 0], [2, 0]),
    ('two-one', [2, 1], [2, 1]),
    ('one-two', [2, 1], [1, 2]),
    ('lost', [2, 1], [1, 1]),
    ('more', [1, 1], [2, 1]),
    ('three', [1, 1, 1], [1, 1, 1]),
    ('three-one', [1, 1, 1, 1], [1, 1, 1, 1]),
    ('pairs', [2, 2], [2, 2]),
]
MORE = [('triple', [3, 1], [3, 1]), ('chain', [1, 2, 1], [1, 2, 1]), ('chain-2', [1, 2, 2], [1, 2, 2]), ('three-lost', [1, 1, 1, 1], [1, 1, 1, 0]),
        ('five', [1, 1, 1, 1, 1], [1, 1, 1, 1, 1])]


def scenarios(tier):
    out = []
    for k, (name, a, b) in enumerate(SHAPES if tier == 'quick' else SHAPES + MORE):
        out.append(dict(name=name, fn='compare', params=dict(k=k), path_s=40, covers=['fits'] if k in (1, 3, 5) else [],
                        bounds='tables with %s entries against patterns with %s entries, all names' % (a, b)))
    out.append(dict(name='parts', fn='parts', params={}, bounds='a part or a side that only one of the two has'))
    return out


KEYS = [('a', 'in'), ('a', 'out'), ('b', 'in'), ('b', 'out'), ('c', 'in')]


def table(env, nm, counts):
    d, names, n = {}, [], 0
    for (p, s), c in zip(KEYS, counts):
        d.setdefault(p, {})
        vs = [env.real('%s%d' % (nm, n + j), 0, 8, 0) for j in range(c)]
        n += c
        names.append(vs)
        d[p][s] = set(vs)
    return d, names


def classes(env, names):
    """which names are equal: numbers of the classes in the same arrangement"""
    reps, out = [], []
    for vs in names:
        cell = set()
        for v in vs:
            for k, r in enumerate(reps):
                if env.truth(env.ex(v) == env.ex(r)):
                    cell.add(k)
                    break
            else:
                reps.append(v)
                cell.add(len(reps) - 1)
        out.append(cell)
    return out, len(reps)


def solutions(a, na, b, nb):
    if na != nb or len(a) != len(b):
        return 0
    n = 0
    for perm in itertools.permutations(range(nb)):
        if all(set(perm[x] for x in u) == w for u, w in zip(a, b)):
            n += 1
    return n


def ask(env, t, p):
    keep = time.sleep
    time.sleep = lambda s: None
    try:
        r = env.attempt(env.api.vessel.raum_dict_checker, dict_to_comapare=t, basedict=p)
    finally:
        time.sleep = keep
    return r


def cells(env, d, names, counts):
    """the table still has the sets it was given"""
    for (p, s), vs in zip(KEYS, names):
        cur = list(d[p][s])
        for v in vs:
            if not any(env.truth(env.ex(v) == env.ex(w)) for w in cur):
                return False
        for w in cur:
            if not any(env.truth(env.ex(v) == env.ex(w)) for v in vs):
                return False
    return True


def compare(env, k):
    name, ca, cb = (SHAPES + MORE)[k]
    t, tn = table(env, 't', ca)
    p, pn = table(env, 'p', cb)
    r = ask(env, t, p)
    raised = hasattr(r, 'exc')
    a, na = classes(env, tn)
    b, nb = classes(env, pn)
    n = solutions(a, na, b, nb)
    if n == 1:
        env.cover('fits')
        env.check(not raised and r is True, 'a table that fits in one way is accepted')
    else:
        env.check(raised and r.name == 'Exception', 'a table that does not fit in exactly one way is refused')
    env.check(cells(env, t, tn, ca), 'the table is left as it was')
    env.check(cells(env, p, pn, cb), 'the pattern is left as it was')


def parts(env):
    x, y = env.real('x', 0, 8, 0), env.real('y', 0, 8, 0)
    how = env.pick('how', ['part', 'side', 'swapped part', 'swapped side', 'empty part'])
    t = {'a': {'in': {x}, 'out': set()}}
    if how == 'part':
        p = {'b': {'in': {y}, 'out': set()}}
    elif how == 'side':
        p = {'a': {'in': {y}, 'off': set()}}
    elif how == 'empty part':
        p = {'a': {'in': {y}, 'out': set()}, 'b': {'in': set(), 'out': set()}}
    elif how == 'swapped part':
        t = {'a': {'in': {x}, 'out': set()}, 'b': {'in': set(), 'out': set()}}
        p = {'a': {'in': set(), 'out': set()}, 'b': {'in': {y}, 'out': set()}}
    else:
        p = {'a': {'in': set(), 'out': {y}}}
    if env.pick('turn', [False, True]):
        t, p = p, t
    r = ask(env, t, p)
    env.check(hasattr(r, 'exc'), 'other parts or sides are refused')
