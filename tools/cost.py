import json, sys
d = json.load(open('evidence/%s.json' % sys.argv[1]))
for s in sorted(d['coverage']['scenarios'], key=lambda s: -s['cpu_s'])[:9]:
    print(s['name'], s['paths'], s['cpu_s'], s['unexplored'], s.get('undischarged'))
