# -*- coding: utf-8 -*-
"""Runs a harness on given inputs against the plain import of the tree under
test.  Runs under the interpreter of the project (PyPy 3.9).

  replay.py FILE.json          replay one counterexample file
  replay.py --server           JSON requests on stdin, one per line
"""
import importlib
import io
import json
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SV_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


class Timeout(Exception):
    pass


def onalarm(*a):
    raise Timeout()


class Api(object):
    pass


def make_api():
    api = Api()
    api.point = importlib.import_module('geometry.SR_point')
    api.line = importlib.import_module('geometry.SR_line')
    api.polygon = importlib.import_module('geometry.SR_polygon')
    api.group = importlib.import_module('geometry.SR_polygon_group')
    api.extra = importlib.import_module('geometry.additional_stuff')
    api.vessel = importlib.import_module('SR_Vessel.SR_hauptteile')
    api.Point = api.point.Point
    api.LineSegment = api.line.LineSegment
    api.PolygonLine = api.polygon.PolygonLine
    api.Triangle = api.polygon.Triangle
    return api


def run(api, req):
    from sv.envs import ConcEnv, AssumeFailed, Violated
    mod = importlib.import_module('harness.' + req['module'])
    fn = getattr(mod, req['fn'])
    env = ConcEnv(api, req['inputs'])
    old = sys.stdout
    sys.stdout = io.StringIO()
    sleep = time.sleep
    time.sleep = lambda s: None
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(req.get('timeout', 60)))
    res = {}
    try:
        fn(env, **req['params'])
        res = {'status': 'ok'}
    except AssumeFailed as e:
        res = {'status': 'assume', 'msg': str(e)}
    except Violated as e:
        res = {'status': 'violation', 'label': e.label, 'msg': str(e.msg)}
    except Timeout:
        res = {'status': 'timeout'}
    except Exception as e:
        import traceback
        res = {'status': 'violation', 'label': 'exception', 'msg': '%s: %s' % (type(e).__name__, e),
               'tb': traceback.format_exc()[-1500:]}
    finally:
        signal.alarm(0)
        sys.stdout = old
        time.sleep = sleep
        env.restore()
    res['obs'] = env.obs
    res['nchecks'] = env.nchecks
    return res


def main():
    if sys.argv[1] == '--server':
        out = sys.stdout
        sys.stdout = io.StringIO()
        try:
            api = make_api()
            err = None
        except Exception as e:
            api, err = None, 'import failed: %s: %s' % (type(e).__name__, e)
        sys.stdout = out
        for line in sys.stdin:
            req = json.loads(line)
            if err:
                r = {'status': 'import-error', 'msg': err, 'obs': []}
            else:
                try:
                    r = run(api, req)
                except Exception as e:
                    r = {'status': 'error', 'msg': '%s: %s' % (type(e).__name__, e), 'obs': []}
            out.write(json.dumps(r) + '\n')
            out.flush()
        return
    req = json.load(open(sys.argv[1]))
    r = run(make_api(), req)
    r.pop('obs', None)
    print(json.dumps(r, indent=1))
    sys.exit(1 if r['status'] == 'violation' else 0)


if __name__ == '__main__':
    main()
