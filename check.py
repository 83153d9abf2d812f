#!/usr/bin/env python3-vt
# -*- coding: utf-8 -*-
"""check.py --prop C02 [--tier quick|thorough]

Decides one property by symbolic execution of the real code (sv/): all paths of
the harnesses in harness/<id>.py within their bounds, every assertion decided by
the SMT solver.  Exit 0: held on everything explored.  Exit 1 with a VIOLATION
line: a counterexample that was reproduced on the unmodified code.  Exit 3: no
verdict (an answer of the solver could not be confirmed)."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import subprocess
import sys
import time
from fractions import Fraction
from multiprocessing.connection import wait

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')

from sv import explore  # noqa: E402

REPO = explore.REPO
PYPY = os.environ.get('SV_PYTHON', '/opt/pypyvenv/bin/python')
TIERS = {
    'quick': dict(feas_ms=1500, check_ms=20000, path_s=40, wall=300, nsamples=40, slice_s=1.0),
    'thorough': dict(feas_ms=4000, check_ms=60000, path_s=120, wall=3000, nsamples=60, slice_s=2.0),
}


class Replayer(object):
    def __init__(self):
        self.p = None
        self.n = 0

    def start(self):
        env = dict(os.environ)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        self.p = subprocess.Popen([PYPY, os.path.join(HERE, 'sv', 'replay.py'), '--server'],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  universal_newlines=True, env=env, cwd='/')

    def run(self, sc, inputs, timeout=60):
        if self.p is None or self.p.poll() is not None:
            self.start()
        req = {'module': sc['module'], 'fn': sc['fn'], 'params': sc['params'], 'inputs': inputs, 'timeout': timeout}
        self.n += 1
        try:
            self.p.stdin.write(json.dumps(req) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            return json.loads(line)
        except (OSError, ValueError):
            try:
                self.p.kill()
            except OSError:
                pass
            self.p = None
            return {'status': 'error', 'msg': 'replay process died', 'obs': []}

    def stop(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()


def load_findings(prop):
    out = []
    fn = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) scenario=(\S+) label=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                out.append({'scenario': m.group(2), 'label': m.group(3), 'text': m.group(4)})
    return out


class Run(object):
    def __init__(self, prop, tier, seed, args):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.conf = dict(TIERS[tier])
        self.conf['seed'] = seed
        if args.dump:
            os.makedirs(args.dump, exist_ok=True)
            self.conf['dump'] = args.dump
        self.args = args
        self.mod = importlib.import_module('harness.' + prop.lower())
        self.scs = self.mod.scenarios(tier)
        for s in self.scs:
            s.setdefault('module', prop.lower())
            s.setdefault('params', {})
        if args.only:
            self.scs = [s for s in self.scs if re.search(args.only, s['name'])]
        if hasattr(self.mod, 'WALL'):
            self.conf['wall'] = self.mod.WALL.get(tier, self.conf['wall'])
        if args.wall:
            self.conf['wall'] = args.wall
        self.replayer = Replayer()
        self.stats = {}
        self.funcs = set()
        self.info = [dict(paths=0, ends={}, checks=0, discharged=0, trivial=0, undischarged=[], covers={}, ndec=0,
                          vals=[], left=0, t=0.0, tmax=0.0, concretized=0) for _ in self.scs]
        self.violation = None
        self.unconfirmed = []
        self.errors = []
        self.known_hit = {}
        self.findings = load_findings(prop)
        self.samples = []

    def merge(self, sid, out, left, stats, funcs):
        I = self.info[sid]
        self.funcs.update(funcs)
        for k, v in stats.items():
            if k.endswith('max_s'):
                self.stats[k] = max(self.stats.get(k, 0), v)
            else:
                self.stats[k] = self.stats.get(k, 0) + v
        for r in out:
            I['paths'] += 1
            I['t'] += r['t']
            I['tmax'] = max(I['tmax'], r['t'])
            e = r['end']
            I['ends'][e] = I['ends'].get(e, 0) + 1
            I['ndec'] += r.get('ndec', 0)
            I['concretized'] += 1 if r.get('concretized') else 0
            if e in ('engine-error', 'unsupported'):
                self.errors.append('%s: %s %s' % (self.scs[sid]['name'], e, r.get('exc')))
                if self.args.verbose:
                    print(e, r.get('exc'), r.get('tb'))
            if e == 'engine-error':
                continue
            I['checks'] += r.get('nchecks', 0)
            I['discharged'] += r.get('discharged', 0)
            I['trivial'] += r.get('trivial', 0)
            I['undischarged'] += r.get('undischarged', [])
            for c in r.get('covers', []):
                I['covers'][c] = I['covers'].get(c, 0) + 1
            if r.get('val') and (len(I['vals']) < 40 or random.random() < 0.02):
                I['vals'].append(r['val'])
            for cand in r.get('cands', []):
                if r.get('tb') and self.args.verbose:
                    print(r['tb'])
                self.candidate(sid, cand)
                if self.violation:
                    return

    def candidate(self, sid, cand):
        sc = self.scs[sid]
        if len(self.unconfirmed) > 60:
            return
        rep = None
        tries = list(cand['inputs'])
        rng = random.Random(self.seed)
        base = dict(tries[0])
        for ins in tries:
            r = self.replayer.run(sc, ins)
            if r['status'] == 'violation':
                rep = (ins, r)
                break
            if r['status'] == 'import-error':
                rep = (ins, {'label': 'import', 'msg': r['msg']})
                break
        if rep is None and len(self.unconfirmed) < 12:
            # neighbours of the model on the input grid
            t0 = time.time()
            names = list(base)
            for i in range(150):
                if time.time() - t0 > 8 or not names:
                    break
                b = dict(tries[i % len(tries)])
                for _ in range(rng.randint(1, 3)):
                    n = rng.choice(names)
                    step = rng.choice([1, -1, 2, -2, 4, -4, 8, -8, 16, -16])
                    den = rng.choice([1, 2, 4, 8, 16])
                    b[n] = str(Fraction(b[n]) + Fraction(step, den))
                r = self.replayer.run(sc, b)
                if r['status'] == 'violation':
                    rep = (b, r)
                    break
        if self.args.verbose:
            print('candidate', sc['name'], cand['label'], cand['msg'], cand['how'], tries[0],
                  'REPRODUCED' if rep else 'not reproduced (%s)' % r.get('status'))
        if rep is None:
            if cand['how'] in ('unknown', 'model'):
                # no answer, or a model of the relaxation to the reals that the solver could neither put on
                # the input grid nor refute there: undecided, and counted as such
                if cand['how'] == 'model':
                    self.info[sid]['undischarged'].append(cand['label'])
                return
            self.unconfirmed.append({'scenario': sc['name'], 'label': cand['label'], 'msg': cand['msg'],
                                     'inputs': tries[0]})
            return
        ins, r = rep
        for f in self.findings:
            if f['scenario'] == sc['name'] and f['label'] == r['label']:
                self.known_hit[f['scenario'] + ' ' + f['label']] = f
                return
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s_%s.json' % (self.prop, re.sub(r'\W+', '_', sc['name'])))
        json.dump({'property': self.prop, 'module': sc['module'], 'fn': sc['fn'], 'params': sc['params'],
                   'scenario': sc['name'], 'inputs': ins, 'label': r['label'], 'msg': r.get('msg'),
                   'tb': r.get('tb'),
                   'replay_with': '%s %s %s' % (PYPY, os.path.join(HERE, 'sv', 'replay.py'), path)},
                  open(path, 'w'), indent=1)
        self.violation = (path, sc['name'], r['label'], r.get('msg'), ins)

    def explore(self):
        n = self.args.jobs
        ctxm = mp.get_context('fork')
        workers = []
        for _ in range(n):
            a, b = ctxm.Pipe()
            p = ctxm.Process(target=explore.worker, args=(b, self.scs, self.conf), daemon=True)
            p.start()
            b.close()
            workers.append((p, a))
        idle = [a for _, a in workers]
        procs = {a: p for p, a in workers}
        busy = {}
        queues = [[[]] for _ in self.scs]
        t0 = time.time()
        wall = self.conf['wall']
        nxt = 0
        try:
            while True:
                if self.violation:
                    break
                over = time.time() - t0 > wall
                if not over:
                    pend = [i for i, q in enumerate(queues) if q]
                    while idle and pend:
                        # prefer scenarios nobody works on
                        act = {}
                        for s in busy.values():
                            act[s] = act.get(s, 0) + 1
                        pend.sort(key=lambda i: (act.get(i, 0), self.info[i]['t']))
                        i = pend[0]
                        q = queues[i]
                        tot = sum(len(x) for x in queues)
                        k = 1 if tot < 4 * n else max(1, min(len(q) // n, 8))
                        part = [q.pop(0) for _ in range(min(k, len(q)))]
                        a = idle.pop()
                        sl = 0.15 if tot < 2 * n else self.conf['slice_s']
                        a.send((i, part, sl))
                        busy[a] = i
                        pend = [i for i, q in enumerate(queues) if q]
                if not busy:
                    break
                for a in wait(list(busy), timeout=5):
                    try:
                        sid, out, left, stats, funcs = a.recv()
                    except EOFError:
                        sid = busy.pop(a)
                        self.errors.append('worker died in %s' % self.scs[sid]['name'])
                        self.info[sid]['ends']['worker-died'] = self.info[sid]['ends'].get('worker-died', 0) + 1
                        x, y = ctxm.Pipe()
                        p = ctxm.Process(target=explore.worker, args=(y, self.scs, self.conf), daemon=True)
                        p.start()
                        y.close()
                        procs[x] = p
                        idle.append(x)
                        continue
                    busy.pop(a)
                    idle.append(a)
                    queues[sid].extend(left)
                    self.merge(sid, out, left, stats, funcs)
                    if self.violation:
                        break
                if over and time.time() - t0 > wall + 60:
                    break
        finally:
            for i, q in enumerate(queues):
                self.info[i]['left'] = len(q) + sum(1 for s in busy.values() if s == i)
            for p in procs.values():
                p.terminate()
        self.explore_s = time.time() - t0

    def validate(self):
        """run sampled paths on the real interpreter and compare the outcome"""
        ok = bad = 0
        self.mismatch = []
        per = 12 if self.tier == 'quick' else 40
        t0 = time.time()
        for sid, I in enumerate(self.info):
            for v in I['vals'][:per]:
                if time.time() - t0 > (25 if self.tier == 'quick' else 200):
                    break
                r = self.replayer.run(self.scs[sid], v['inputs'])
                if r['status'] == 'ok' and explore.obs_match(v['obs'], r['obs']):
                    ok += 1
                    if len(self.samples) < 4 and ok % 7 == 1:
                        self.samples.append({'scenario': self.scs[sid]['name'], 'inputs': v['inputs'],
                                             'outcome': v['obs'][:6]})
                elif r['status'] == 'violation':
                    # a concrete run of an explored path violates the property
                    self.candidate(sid, {'label': r['label'], 'msg': r.get('msg'), 'how': 'validation',
                                         'inputs': [v['inputs']]})
                    bad += 1
                elif r['status'] in ('timeout',):
                    pass
                else:
                    bad += 1
                    self.mismatch.append({'scenario': self.scs[sid]['name'], 'inputs': v['inputs'],
                                          'predicted': v['obs'], 'got': r})
                if self.violation:
                    return ok, bad
        return ok, bad

    def main(self):
        t0 = time.time()
        self.explore()
        ok = bad = 0
        if not self.violation:
            ok, bad = self.validate()
        self.replayer.stop()
        wall = time.time() - t0
        paths = sum(i['paths'] for i in self.info)
        done = sum(i['ends'].get('done', 0) for i in self.info)
        undis = sum(len(i['undischarged']) for i in self.info)
        left = sum(i['left'] for i in self.info)
        budget = sum(i['ends'].get('budget', 0) for i in self.info)
        expected = getattr(self.mod, 'COVERS', {})
        missing = []
        for sc, I in zip(self.scs, self.info):
            if not self.violation and not I['ends'].get('done') and not left:
                missing.append('%s: no path reached the end' % sc['name'])
            for c in sc.get('covers', []):
                if c not in I['covers'] and not I['left']:
                    missing.append('%s: %s never reached' % (sc['name'], c))
        complete = not left and not budget and not undis and not self.errors and not self.unconfirmed
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': {
                'states': paths, 'transitions': sum(i['ndec'] for i in self.info),
                'traces_validated_against_impl': ok,
                'samples': self.samples or [{'note': 'no sample: see violation'}],
                'exhaustive': bool(complete),
                'explanation': 'states = symbolic paths executed, transitions = branch decisions on them',
                'paths_completed': done,
                'assertions_reached': sum(i['checks'] for i in self.info),
                'assertions_discharged_by_solver': sum(i['discharged'] for i in self.info),
                'assertions_discharged_by_simplification': sum(i['trivial'] for i in self.info),
                'assertions_undischarged': undis,
                'paths_unexplored': left, 'paths_cut_by_time': budget,
                'paths_concretized': sum(i['concretized'] for i in self.info),
                'path_model_mismatches': len(getattr(self, 'mismatch', [])),
                'unconfirmed_candidates': len(self.unconfirmed),
                'vacuity': missing or 'every scenario completed at least one path and hit all its cover points',
                'solver_queries': self.stats.get('queries', 0),
                'solver_time_s': round(self.stats.get('solver_s', 0), 2),
                'solver_max_query_s': round(self.stats.get('solver_max_s', 0), 2),
                'solver_stats': {k: (round(v, 2) if isinstance(v, float) else v) for k, v in sorted(self.stats.items())},
                'scenarios': [{'name': s['name'], 'bounds': s.get('bounds', ''), 'paths': i['paths'],
                               'ends': i['ends'], 'covers': i['covers'], 'cpu_s': round(i['t'], 1),
                               'unexplored': i['left']} for s, i in zip(self.scs, self.info)],
                'functions_encoded': sorted(self.funcs),
            },
            'assumptions': list(getattr(self.mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
            'wall_s': round(wall, 2), 'violations': 1 if self.violation else 0,
        }
        if self.errors:
            ev['coverage']['errors'] = self.errors[:20]
        if getattr(self, 'mismatch', None):
            ev['coverage']['mismatches'] = self.mismatch[:5]
        if self.unconfirmed:
            ev['coverage']['unconfirmed'] = self.unconfirmed[:10]
        if not self.args.only and not self.args.noev:
            os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
            json.dump(ev, open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w'), indent=1, default=str)
        for sc, I in zip(self.scs, self.info):
            print('  %-34s paths=%-5d done=%-5d checks=%-5d solver=%-4d undis=%d left=%d cpu=%.1fs max=%.1fs %s %s' % (
                sc['name'], I['paths'], I['ends'].get('done', 0), I['checks'], I['discharged'],
                len(I['undischarged']), I['left'], I['t'], I['tmax'],
                {k: v for k, v in I['ends'].items() if k != 'done'}, I['covers'] if self.args.verbose else ''))
        print('%s %s: %d paths (%d completed), %d solver queries, %.1fs solver, %d paths validated on the real '
              'interpreter, %d undischarged, %d unexplored, %.1fs wall' % (
                  self.prop, self.tier, paths, done, self.stats.get('queries', 0), self.stats.get('solver_s', 0), ok,
                  undis, left + budget, wall))
        for f in self.known_hit.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f['text']))
        if self.violation:
            path, name, label, msg, ins = self.violation
            print('scenario %s, check %s: %s  inputs %s' % (name, label, msg, ins))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        for m in missing:
            print('NOTE vacuity: ' + m)
        if self.errors:
            print('NOTE %d path(s) could not be executed symbolically: %s' % (len(self.errors), self.errors[0][:300]))
        if getattr(self, 'mismatch', None):
            print('NOTE %d path(s) behaved differently on the real interpreter: %s' % (
                len(self.mismatch), json.dumps(self.mismatch[0], default=str)[:1500]))
        if self.unconfirmed:
            # e.g. a triangulation or a rounding the stand-ins allow and the real libraries do not show: undecided
            bad = len(set(u['scenario'] for u in self.unconfirmed))
            much = 2 * bad > len(self.scs)
            print('%s: %d candidate(s) in %d of %d scenarios could not be reproduced, first: %s' % (
                'INCONCLUSIVE' if much else 'NOTE undecided', len(self.unconfirmed), bad, len(self.scs), json.dumps(self.unconfirmed[0])[:600]))
            if much:
                return 3
        if not done or (self.errors and len(self.errors) * 2 > paths):
            print('INCONCLUSIVE: nothing could be decided')
            return 3
        if not complete:
            print('NOTE not exhaustive within the bounds: see the evidence file')
        return 0


COMMON_ASSUMPTIONS = [
    'inputs lie on the binary grid and in the box stated per scenario; nothing is claimed outside',
    'IEEE + - * are exact where the engine proves it from magnitude and grid, otherwise off by at most half an ulp of '
    'the largest possible result; / and sqrt within 2 ulp; round(x, 8) within 0.5e-8 plus one ulp',
    'input grids are relaxed to the reals in the solver (sound for proofs; counterexamples are put back on the grid '
    'and replayed)',
    'sets and dicts iterate in insertion order (as in PyPy); hash collisions of unequal values are ignored',
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=max(2, os.cpu_count() or 4))
    ap.add_argument('--wall', type=float)
    ap.add_argument('--dump')
    ap.add_argument('--noev', action='store_true')
    ap.add_argument('-v', '--verbose', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    sys.exit(Run(a.prop, a.tier, seed, a).main())


if __name__ == '__main__':
    main()
