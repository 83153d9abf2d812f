"""plant a bug: seed.py ID [--keep-going]   reads /verif/seeded/ID/{edit.py is not kept}
usage: seed.py new ID PROP FILE  (reads OLD / NEW blocks from stdin, separated by a line '====', edits by a line '####')
       seed.py verify ID         patch applies, tests pass, demo passes without and fails with the patch
       seed.py catch ID [PROP]   runs the quick check of its property against a patched copy"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/pypyvenv/bin/python'


def copy():
    d = tempfile.mkdtemp(prefix='seed')
    w = os.path.join(d, 'repo')
    shutil.copytree('/repo', w, symlinks=True)
    return d, w


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests(w):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    x = os.path.join(os.path.dirname(w), 'j.xml')
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-o', 'junit_family=xunit2', '--junitxml=' + x, 'tests'], cwd=w, env=env)
    import xml.etree.ElementTree as E
    ok = set()
    for c in E.parse(x).getroot().iter('testcase'):
        if len(list(c)) == 0:
            ok.add(c.get('classname') + '::' + c.get('name'))
    st = json.load(open('/opt/vp/BASELINE.json'))['stable']
    bad = [s for s in st if s not in ok]
    return bad


def demo(sd, w):
    t = tempfile.mkdtemp(prefix='demo')
    for f in os.listdir(sd):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
            shutil.copy(os.path.join(sd, f), t)
    env = dict(os.environ)
    # demos run in /repo; here they run in the copy
    r = sh(['bash', os.path.join(t, 'demo.sh')], cwd=w, env=env, timeout=300)
    shutil.rmtree(t)
    return r.returncode, r.stdout[-400:]


def new(i, prop, f):
    sd = os.path.join(HERE, 'seeded', i)
    os.makedirs(sd, exist_ok=True)
    d, w = copy()
    p = os.path.join(w, f)
    s = open(p).read()
    for e in sys.stdin.read().split('\n####\n'):
        old, nw = e.split('\n====\n')
        old, nw = old.strip('\n'), nw.strip('\n')
        assert s.count(old) == 1, (s.count(old), old)
        s = s.replace(old, nw)
    open(p, 'w').write(s)
    r = sh(['git', 'diff'], cwd=w)
    mode = 'a' if os.environ.get('MORE') else 'w'
    open(os.path.join(sd, 'patch.diff'), mode).write(r.stdout)
    shutil.rmtree(d)
    print(r.stdout)


def verify(i):
    sd = os.path.join(HERE, 'seeded', i)
    d, w = copy()
    try:
        a = demo(sd, w)
        r = sh(['git', 'apply', os.path.join(sd, 'patch.diff')], cwd=w)
        if r.returncode:
            return print(i, 'DOES NOT APPLY', r.stdout)
        b = demo(sd, w)
        bad = tests(w)
        print(i, 'clean', a[0], a[1] if a[0] else '', '| patched', b[0], b[1][-200:], '| tests', bad or 'pass', '| OK' if a[0] == 0 and b[0] and not bad else '| NOT OK')
    finally:
        shutil.rmtree(d)


def catch(i, prop=None):
    sd = os.path.join(HERE, 'seeded', i)
    prop = prop or json.load(open(os.path.join(sd, 'meta.json')))['property']
    d, w = copy()
    try:
        r = sh(['git', 'apply', os.path.join(sd, 'patch.diff')], cwd=w)
        env = dict(os.environ, SV_REPO=w)
        r = sh(['python3-vt', 'check.py', '--prop', prop, '--noev'], cwd=HERE, env=env)
        print(i, prop, 'exit', r.returncode, [l[:200] for l in r.stdout.splitlines() if l.startswith(('VIOL', 'INCON'))][:2], r.stdout.splitlines()[-1][-60:])
    finally:
        shutil.rmtree(d)


if sys.argv[1] == 'new':
    new(*sys.argv[2:])
else:
    for i in sys.argv[2:]:
        dict(verify=verify, catch=catch)[sys.argv[1]](i)
