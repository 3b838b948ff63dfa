"""Runs scenarios with concrete inputs on the real package (invoked with /opt/venv/bin/python)."""
import importlib
import json
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
REPO = os.environ.get('SYMK_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from symk.common import Skip, Violated      # noqa: E402
from symk.concenv import ConcEnv            # noqa: E402


def fresh():
    for m in [m for m in sys.modules if m == 'kernelmethods' or m.startswith('kernelmethods.')]:
        del sys.modules[m]


def run(req):
    fresh()
    import warnings
    import numpy as np
    np.random.seed(12345)
    mod = importlib.import_module('scenarios.' + req['module'])
    fn, kw = mod.lookup(req['scenario'], req['tier'])
    env = ConcEnv(req['vals'], req['tier'], req['seed'])
    try:
        with env, warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            fn(env, **kw)
        return {'violated': False, 'used': env.used}
    except Skip:
        return {'violated': False, 'skipped': True}
    except Violated as v:
        return {'violated': True, 'label': v.label, 'detail': v.detail, 'used': env.used}
    except Exception as e:
        return {'violated': False, 'error': '%s: %s' % (type(e).__name__, e),
                'trace': traceback.format_exc()[-1500:]}


def main():
    if len(sys.argv) > 1:
        req = json.load(open(sys.argv[1]))
        r = run(req)
        print(json.dumps(r, indent=1, default=str))
        import kernelmethods
        print('code:', kernelmethods.__file__)
        sys.exit(1 if r.get('violated') else 0)
    real_out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        try:
            r = run(req)
        except BaseException as e:
            r = {'violated': False, 'error': 'server: %s: %s' % (type(e).__name__, e)}
        real_out.write(json.dumps(r, default=str) + '\n')
        real_out.flush()


if __name__ == '__main__':
    main()
