"""Explores scenarios and decides a property.  Used by check.py."""
import importlib
import json
import os
import select
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SERVER = os.path.join(ROOT, 'symk', 'replay_server.py')


class Replayer:
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                   PYTHONDONTWRITEBYTECODE='1')
        env.pop('PYTHONPATH', None)
        self.p = subprocess.Popen([PY, SERVER], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, bufsize=1, env=env, cwd='/tmp')

    def ask(self, req, timeout=90):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(req) + '\n')
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.stop()
                return {'violated': False, 'error': 'replay timed out'}
            line = self.p.stdout.readline()
            if not line:
                self.stop()
                return {'violated': False, 'error': 'replay process ended'}
            return json.loads(line)
        except (OSError, ValueError) as e:
            self.stop()
            return {'violated': False, 'error': str(e)}

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


_rep = None


class Sink:
    def __init__(self, module, scenario, tier, seed):
        self.module, self.scenario, self.tier, self.seed = module, scenario, tier, seed
        self.n = 0
        self.ok = 0
        self.errors = []
        self.skipped = 0
        self.samples = []

    def env(self, ctx):
        from .symenv import SymEnv
        return SymEnv(ctx, self.tier, self.seed)

    def request(self, vals):
        return {'module': self.module, 'scenario': self.scenario, 'tier': self.tier, 'seed': self.seed,
                'vals': vals}

    def replay(self, vals, why, label):
        global _rep
        if _rep is None:
            _rep = Replayer()
        r = _rep.ask(self.request(vals))
        self.n += 1
        if r.get('violated'):
            # once more in a process of its own
            fresh = Replayer()
            r2 = fresh.ask(self.request(vals))
            fresh.stop()
            if not r2.get('violated'):
                r = dict(r, violated=False, error='violation not repeated in a fresh process')
        if r.get('error'):
            self.errors.append('%s: %s' % (why, r['error']))
        elif r.get('skipped'):
            self.skipped += 1
        elif not r.get('violated'):
            self.ok += 1
            if len(self.samples) < 2:
                self.samples.append({'scenario': self.scenario, 'inputs': vals, 'why': why})
        return r


def run_job(job):
    """Explore one scenario (worker process)."""
    module, scenario, tier, seed, budget, max_paths, wits = job
    sys.setrecursionlimit(20000)
    from .engine import Engine
    t = time.perf_counter()
    mod = importlib.import_module('scenarios.' + module)
    fn, kw = mod.lookup(scenario, tier)
    sink = Sink(module, scenario, tier, seed)
    funcs = set()
    left = [2]

    def prof(frame, event, arg):
        if event == 'call':
            c = frame.f_code
            if '/kernelmethods/' in c.co_filename and c.co_name[0] != '<' and c.co_flags & 1:
                funcs.add('%s:%s' % (os.path.basename(c.co_filename), getattr(c, 'co_qualname', c.co_name)))

    def go(env):
        # the first paths also record which functions of the package run symbolically
        if left[0] > 0:
            left[0] -= 1
            sys.setprofile(prof)
            try:
                return fn(env, **kw)
            finally:
                sys.setprofile(None)
        return fn(env, **kw)

    eng = Engine(go, sink, time_s=budget, max_paths=max_paths, seed=seed,
                 witnesses=wits)
    try:
        eng.run()
        err = None
    except BaseException as e:
        import traceback
        err = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    res = {'scenario': scenario, 'stats': eng.st.as_dict(), 'exhausted': eng.exhausted and err is None,
           'reached': eng.reached, 'unreproduced': eng.unreproduced, 'undecided': eng.undecided_l,
           'abandoned': eng.abandoned[:8], 'n_abandoned': len(eng.abandoned), 'violation': eng.violation,
           'functions': sorted(funcs), 'replays': sink.n, 'replays_ok': sink.ok, 'replay_errors': sink.errors[:5],
           'replay_skipped': sink.skipped, 'samples': sink.samples, 'error': err,
           'wall_s': round(time.perf_counter() - t, 2),
           'doc': (fn.__doc__ or '').strip(), 'params': {k: str(v)[:80] for k, v in kw.items()}}
    if eng.violation is not None:
        eng.violation['request'] = sink.request(eng.violation['inputs'])
    return res
