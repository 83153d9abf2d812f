"""writes MANIFEST.json: a check for every property that has a harness and is not listed as unclaimed"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UNCLAIMED = {}
LEVEL = 'model_checking'
NOTE = ('bounded symbolic execution of the real Python functions; every path condition and assertion is decided by z3 '
        'over all inputs within the bounds named in the evidence file; counterexamples are replayed on the unpatched code')


def main():
    checks, na = [], []
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(l)['id']
        if os.path.exists(os.path.join(HERE, 'harness', p.lower() + '.py')) and p not in UNCLAIMED:
            cmd = 'python3-vt check.py --prop %s --tier ' % p
            checks.append(dict(property=p, quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough',
                               evidence_file='evidence/%s.json' % p,
                               technique='symbolic execution of the Python code with SMT solving (z3)',
                               level=LEVEL, level_note=NOTE))
        else:
            na.append(dict(property=p, reason=UNCLAIMED.get(p, 'harness not built yet')))
    m = dict(version=1, setup_cmd='python3-vt -c "import z3" && test -x /opt/pypyvenv/bin/python', checks=checks, not_applicable=na)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'not applicable')


main()
