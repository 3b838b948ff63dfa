"""Scenario environment for replays on the real, unpatched package (no solver here)."""
import importlib
import math
import random
import warnings

import numpy as np

from .common import EnvBase, Outcome, Skip, Violated


class ConcEnv(EnvBase):
    concrete = True

    def __init__(self, vals, tier, seed):
        self.vals = vals
        self.tier, self.seed = tier, seed
        self.np = np
        self.nan, self.inf = math.nan, math.inf
        self.used = {}
        self.svm_log = []
        self._hooks = None

    def mod(self, name):
        return importlib.import_module('kernelmethods' + ('.' + name if name else ''))

    def sk(self, name):
        return importlib.import_module(name)

    def _get(self, name, default):
        v = self.vals.get(name)
        if v is None:
            v = default()
        self.used[name] = v
        return v

    def _rng(self, name):
        return random.Random('%s/%s' % (self.seed, name))

    def real(self, name, lo=None, hi=None, strict=False):
        l = -2.0 if lo is None else float(lo)
        u = l + 3.0 if hi is None else float(hi)
        return float(self._get(name, lambda: self._rng(name).uniform(l + 0.01 * (u - l), u - 0.01 * (u - l))))

    def int(self, name, lo, hi):
        return int(self._get(name, lambda: self._rng(name).randint(lo, hi)))

    def npint(self, x, ty):
        return x if ty == 'int' else getattr(np, ty)(x)

    def choice(self, name, k):
        return int(self._get(name, lambda: 0))

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def string(self, name, table):
        return table[int(self._get(name, lambda: 0))]

    def strarray(self, xs, width=8):
        return np.array(xs, dtype='U%d' % width)

    def typed(self, nested, dtype):
        return np.array(nested, dtype=dtype)

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def prove(self, c, label, soft=None):
        if not bool(c):
            raise Violated(label, soft.describe() if soft is not None else '')

    def close(self, a, b):
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return False
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        u = self.unit
        return abs(a - b) <= 1e-6 * max(1e-3 * u, abs(a), abs(b)) + 1e-9 * u

    def expect_close(self, a, b, label):
        if not self.close(a, b):
            raise Violated(label, 'got %r, expected %r' % (a, b))

    def expect_tight(self, a, b, label, rel=1e-11):
        """Equality up to double precision rounding."""
        a, b = float(a), float(b)
        if not (a == b or abs(a - b) <= rel * max(abs(a), abs(b))):
            raise Violated(label, 'got %r, expected %r' % (a, b))

    def prove_near(self, a, b, label, rel=1e-5):
        if not abs(float(a) - float(b)) <= 3 * rel * (1 + abs(float(b))):
            raise Violated(label, 'got %r, expected %r' % (a, b))

    def all_(self, xs):
        return all(bool(x) for x in xs)

    def any_(self, xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not bool(x)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def is_true(self, x):
        return bool(x)

    def is_number(self, x):
        return isinstance(x, (int, float))

    def is_dense(self, x):
        return isinstance(x, np.ndarray) and not isinstance(x, np.matrix)

    def is_sparse(self, x):
        from scipy.sparse import issparse
        return issparse(x)

    def todense(self, x):
        return x.toarray() if self.is_sparse(x) else x

    def shape_of(self, x):
        return getattr(x, 'shape', None) or ()

    def isfinite(self, x):
        return bool(np.isfinite(float(x)))

    def isnan(self, x):
        return float(x) != float(x)

    def sqrt(self, x):
        with np.errstate(all='ignore'):
            return np.sqrt(np.float64(x))

    def exp(self, x):
        return np.exp(x)

    def tanh(self, x):
        return np.tanh(x)

    def power(self, a, b):
        with np.errstate(all='ignore'):
            return np.power(np.float64(a), b)

    def abs(self, x):
        return abs(x)

    def div(self, a, b):
        with np.errstate(all='ignore'):
            return np.float64(a) / np.float64(b)

    def const(self, x):
        return float(x)

    def call(self, f, *a, **k):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            with np.errstate(all='warn'):
                try:
                    v = f(*a, **k)
                    e = None
                except Exception as ex:
                    v, e = None, ex
        return Outcome(v, e, [(w.category.__name__, str(w.message)) for w in ws])

    def note(self, s):
        pass

    # ---- observe (not replace) what reaches the SVM solvers
    def __enter__(self):
        try:
            from sklearn.svm._base import BaseLibSVM
            from sklearn.svm import SVC
            from sklearn.model_selection._search import BaseSearchCV
        except Exception:
            return self
        log = self.svm_log
        state = {'in_gs': 0}
        of, op, og, oc = BaseLibSVM.fit, BaseLibSVM.predict, BaseSearchCV.fit, SVC.predict

        def who(s):
            return 'SVC' if getattr(s, '_impl', '') == 'c_svc' else 'SVR'

        def fit(s, X, y, sample_weight=None):
            if not state['in_gs']:
                log.append({'op': 'fit', 'kernel': s.kernel, 'C': s.C, 'X': np.array(X), 'y': np.array(y),
                            'w': sample_weight, 'who': who(s)})
            return of(s, X, y, sample_weight=sample_weight)

        def predict(s, X):
            if not state['in_gs'] and who(s) == 'SVR':
                log.append({'op': 'predict', 'X': np.array(X), 'who': who(s)})
            return op(s, X)

        def cpredict(s, X):
            if not state['in_gs']:
                log.append({'op': 'predict', 'X': np.array(X), 'who': 'SVC'})
            return oc(s, X)

        def gsfit(s, X, y=None, **k):
            log.append({'op': 'gs', 'kernel': s.estimator.kernel, 'X': np.array(X), 'y': np.array(y),
                        'cv': s.cv, 'who': who(s.estimator)})
            state['in_gs'] += 1
            try:
                r = og(s, X, y, **k)
            finally:
                state['in_gs'] -= 1
            log[-1]['score'] = s.best_score_
            return r
        gsfit.__signature__ = None
        del gsfit.__signature__
        BaseLibSVM.fit, BaseLibSVM.predict, BaseSearchCV.fit, SVC.predict = fit, predict, gsfit, cpredict
        self._hooks = (BaseLibSVM, SVC, BaseSearchCV, of, op, og, oc)
        return self

    def __exit__(self, *a):
        if self._hooks:
            B, S, G, of, op, og, oc = self._hooks
            B.fit, B.predict, G.fit, S.predict = of, op, og, oc
            self._hooks = None
