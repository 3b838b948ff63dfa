"""Stand-ins for the parts of scipy and sklearn the package calls (symbolic runs only).

Their documented contracts: estimators are deterministic functions of their parameters, training
data and the row they predict on; everything else about them is unspecified.
"""
import inspect
import math
import types

import numpy as np

from . import arr as A
from . import npx
from . import num as N
from .arr import F8, ND, SymArray, SymSparse, asarr, to_obj
from .num import Num, is_special, unmodelled


class LilMatrix(SymSparse):
    pass


class SpMatrix:
    pass


class _LilMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SymSparse)


class lil_matrix(metaclass=_LilMeta):
    def __new__(cls, arg, shape=None, dtype=None, copy=False):
        return SymSparse(arg, dtype=dtype, fmt='lil')


class csr_matrix(metaclass=_LilMeta):
    def __new__(cls, arg, shape=None, dtype=None, copy=False):
        return SymSparse(arg, dtype=dtype, fmt='csr')


def issparse(x):
    return isinstance(x, SymSparse)


class NotFittedError(ValueError, AttributeError):
    pass


class Tags:
    estimator_type = None


class BaseEstimator:
    @classmethod
    def _get_param_names(cls):
        sig = inspect.signature(cls.__init__)
        return sorted(p.name for p in sig.parameters.values()
                      if p.name != 'self' and p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL))

    def get_params(self, deep=True):
        return {n: getattr(self, n) for n in self._get_param_names()}

    def set_params(self, **params):
        valid = self.get_params(deep=True)
        for k, v in params.items():
            if k not in valid:
                raise ValueError('Invalid parameter %r for estimator %s' % (k, type(self).__name__))
            setattr(self, k, v)
        return self

    def _more_tags(self):
        return {}

    def __sklearn_tags__(self):
        return Tags()

    def __repr__(self):
        return type(self).__name__ + '(...)'


class ClassifierMixin:
    _estimator_type = 'classifier'

    def __sklearn_tags__(self):
        t = super().__sklearn_tags__()
        t.estimator_type = 'classifier'
        return t

    def score(self, X, y, sample_weight=None):
        return unmodelled('score')


class RegressorMixin:
    _estimator_type = 'regressor'

    def __sklearn_tags__(self):
        t = super().__sklearn_tags__()
        t.estimator_type = 'regressor'
        return t

    def score(self, X, y, sample_weight=None):
        return unmodelled('score')


def is_classifier(e):
    return e.__sklearn_tags__().estimator_type == 'classifier'


def is_regressor(e):
    return e.__sklearn_tags__().estimator_type == 'regressor'


def clone(est, safe=True):
    if isinstance(est, (list, tuple)):
        return type(est)(clone(e) for e in est)
    if not hasattr(est, 'get_params') or isinstance(est, type):
        import copy
        return copy.deepcopy(est)
    import copy
    ps = est.get_params(deep=False)
    ps = {k: clone(v, safe=False) for k, v in ps.items()}
    new = type(est)(**ps)
    for k, v in new.get_params(deep=False).items():
        if v is not ps[k]:
            raise RuntimeError('Cannot clone object %r: constructor either does not set or modifies '
                               'parameter %s' % (est, k))
    return new


def _finite(a, what):
    if a.dtype.kind == 'f' and any(is_special(x) for x in to_obj(a).reshape(-1)):
        raise ValueError('Input %s contains NaN or infinity.' % what)


def check_array(X, accept_sparse=False, dtype='numeric', ensure_2d=True, force_all_finite=True,
                copy=False, ensure_min_samples=1, ensure_min_features=1, ensure_all_finite=True, **k):
    if isinstance(X, SymSparse):
        raise TypeError('Sparse data was passed, but dense data is required.')
    X = asarr(X, copy=copy)
    if dtype == 'numeric' and X.dtype.kind in 'OUS':
        X = A.wrap_const(X, True).astype(F8)
    elif dtype not in ('numeric', None):
        X = A.wrap_const(X, True).astype(dtype)
    if ensure_2d and X.ndim != 2:
        raise ValueError('Expected 2D array, got %dD array instead.' % X.ndim)
    _finite(X, 'X')
    if ensure_2d and (X.shape[0] < ensure_min_samples or X.shape[1] < ensure_min_features):
        raise ValueError('Found array with too few samples or features (shape=%s).' % (X.shape,))
    return X


def check_X_y(X, y, accept_sparse=False, y_numeric=False, multi_output=False, **k):
    if y is None:
        raise ValueError('y cannot be None')
    X = check_array(X, accept_sparse, **{a: b for a, b in k.items() if a in ('dtype', 'copy', 'ensure_2d')})
    y = asarr(y, copy=False)
    if y.ndim == 2 and y.shape[1] == 1:
        y = y.reshape(-1)
    if y.ndim != 1:
        raise ValueError('y should be a 1d array, got an array of shape %s instead.' % (y.shape,))
    _finite(y, 'y')
    if y_numeric and y.dtype.kind in 'OU':
        y = A.wrap_const(y, True).astype(F8)
    if X.shape[0] != y.shape[0]:
        raise ValueError('Found input variables with inconsistent numbers of samples: [%d, %d]'
                         % (X.shape[0], y.shape[0]))
    return X, y


def keyof(x):
    if isinstance(x, Num):
        return x.key()
    if isinstance(x, ND):
        return ('arr', x.shape, tuple(keyof(e) for e in to_obj(x).reshape(-1)))
    if isinstance(x, (list, tuple)):
        return ('arr', (len(x),), tuple(keyof(A.elem(e)) for e in x))
    if isinstance(x, A.SymStr):
        return ('str', x.value())
    if isinstance(x, float) and x != x:
        return 'nan'
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return Num.of(int(x)).key()
    if isinstance(x, float):
        return Num.of(float(x)).key()
    return x


LOG = []          # events of this path, oldest first


class _SVM(BaseEstimator):
    def _core(self):
        names = self._svm_params
        return tuple((n, keyof(getattr(self, n))) for n in names)

    def fit(self, X, y, sample_weight=None):
        X, y = check_X_y(X, y, y_numeric=is_regressor(self))
        if getattr(self, 'kernel', None) == 'precomputed' and X.shape[0] != X.shape[1]:
            raise ValueError('Precomputed matrix must be a square matrix. Input is a %dx%d matrix.' % X.shape)
        ys = [keyof(v) for v in to_obj(y).reshape(-1)]
        if is_classifier(self):
            vals = []
            for v in to_obj(y).reshape(-1):
                if isinstance(v, Num) and not v.is_const() and not v.isint:
                    unmodelled('symbolic real class labels')
                vv = v if not isinstance(v, Num) else (int(v) if v.isint or v.is_const() and v.cval().denominator == 1 else float(v))
                if vv not in vals:
                    vals.append(vv)
            if len(vals) < 2:
                raise ValueError('The number of classes has to be greater than one; got %d class' % len(vals))
            vals = sorted(vals)
            self.classes_ = np.array(vals, dtype=y.dtype)
        self._fit_X, self._fit_y = X, y
        self._shape_fit_ = X.shape
        self._fkey = (type_name(self), self._core(), keyof(X), tuple(ys),
                      None if sample_weight is None else keyof(sample_weight))
        self.n_features_in_ = X.shape[1]
        self.n_iter_ = 1
        LOG.append({'op': 'fit', 'kernel': self.kernel, 'C': self.C, 'X': X, 'y': y,
                    'w': sample_weight, 'who': type_name(self)})
        return self

    def predict(self, X):
        if not hasattr(self, '_fkey'):
            raise NotFittedError('This %s instance is not fitted yet.' % type(self).__name__)
        X = check_array(X)
        if X.shape[1] != self._shape_fit_[1]:
            raise ValueError('X has %d features, but expecting %d features' % (X.shape[1], self._shape_fit_[1]))
        LOG.append({'op': 'predict', 'X': X, 'who': type_name(self)})
        raw = to_obj(X)
        c = N.ctx()
        out = np.empty(X.shape[0], dtype=object)
        for i in range(X.shape[0]):
            rk = tuple(keyof(e) for e in raw[i])
            if is_classifier(self):
                n = len(self.classes_)
                at = c.defined('svc', (self._fkey, rk), isint=True)
                if at.arg is None:
                    at.arg = True
                    at.defs += [at.zv >= 0, at.zv < n]
                    at.meta = {'range': (0, n - 1)}
                k = int(Num(N.Poly.atom(at.id), N.P1, True))
                out[i] = A.elem(self.classes_[k]) if self.classes_.dtype.kind != 'U' else str(self.classes_[k])
            else:
                at = c.defined('svr', (self._fkey, rk))
                at.arg = True
                out[i] = Num(N.Poly.atom(at.id))
        return SymArray(out, self.classes_.dtype if is_classifier(self) else F8)


def type_name(s):
    return 'SVC' if is_classifier(s) else 'SVR'


class SVC(ClassifierMixin, _SVM):
    _svm_params = ('C', 'kernel', 'degree', 'gamma', 'coef0', 'shrinking', 'tol', 'max_iter')

    def __init__(self, *, C=1.0, kernel='rbf', degree=3, gamma='scale', coef0=0.0, shrinking=True,
                 probability='deprecated', tol=1e-3, cache_size=200, class_weight=None, verbose=False,
                 max_iter=-1, decision_function_shape='ovr', break_ties=False, random_state=None):
        for k, v in list(locals().items()):
            if k not in ('self', '__class__'):
                setattr(self, k, v)


class SVR(RegressorMixin, _SVM):
    _svm_params = ('C', 'kernel', 'degree', 'gamma', 'coef0', 'shrinking', 'tol', 'epsilon', 'max_iter')

    def __init__(self, *, kernel='rbf', degree=3, gamma='scale', coef0=0.0, tol=1e-3, C=1.0, epsilon=0.1,
                 shrinking=True, cache_size=200, verbose=False, max_iter=-1):
        for k, v in list(locals().items()):
            if k not in ('self', '__class__'):
                setattr(self, k, v)


class GridSearchCV(BaseEstimator):
    def __init__(self, estimator, param_grid, *, scoring=None, n_jobs=None, refit=True, cv=None, verbose=0,
                 pre_dispatch='2*n_jobs', error_score=np.nan, return_train_score=False):
        self.estimator, self.param_grid, self.cv, self.scoring = estimator, param_grid, cv, scoring

    def fit(self, X, y=None, **k):
        X, y = check_X_y(X, y)
        e = self.estimator
        grid = tuple(sorted((n, keyof(np.asarray(v) if not isinstance(v, ND) else v))
                            for n, v in self.param_grid.items()))
        key = (type_name(e), e._core(), keyof(X), keyof(y), keyof(self.cv), grid, self.scoring)
        c = N.ctx()
        at = c.defined('cvscore', key)
        at.arg = True
        self.best_score_ = Num(N.Poly.atom(at.id))
        LOG.append({'op': 'gs', 'kernel': e.kernel, 'X': X, 'y': y, 'cv': self.cv, 'who': type_name(e),
                    'score': self.best_score_})
        return self

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        return unmodelled('GridSearchCV.' + n)


def cross_val_score(estimator, X, y=None, **k):
    return unmodelled('cross_val_score')


class Stub(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        full = self.__name__ + '.' + n
        if full in MODS:
            return MODS[full]

        class _Missing:
            def __init__(s, *a, **k):
                unmodelled(full)
        _Missing.__name__ = n
        return _Missing


def _u(name):
    def f(*a, **k):
        return unmodelled(name)
    return f


MODS = {}


def _mod(name, **attrs):
    m = Stub(name)
    for k, v in attrs.items():
        setattr(m, k, v)
    MODS[name] = m


LinAlgError = np.linalg.LinAlgError
_mod('scipy.sparse', issparse=issparse, isspmatrix=issparse, lil_matrix=lil_matrix, csr_matrix=csr_matrix,
     lil_array=lil_matrix, csr_array=csr_matrix, csc_matrix=csr_matrix, coo_matrix=csr_matrix)
_mod('scipy.linalg', eigh=npx.sp_eigh, eigvalsh=npx.sp_eigvalsh, LinAlgError=LinAlgError,
     cholesky=lambda a, lower=False, **k: npx.LA['cholesky'](a) if lower else npx.LA['cholesky'](a).T,
     norm=npx.LA['norm'], eigvals=npx.LA['eigvals'])
_mod('scipy.stats', pearsonr=npx.pearsonr)
_mod('scipy.special')
_mod('scipy.spatial')
_mod('scipy.spatial.distance')
_mod('scipy', sparse=MODS['scipy.sparse'], linalg=MODS['scipy.linalg'], stats=MODS['scipy.stats'])
_mod('sklearn.base', BaseEstimator=BaseEstimator, ClassifierMixin=ClassifierMixin,
     RegressorMixin=RegressorMixin, is_classifier=is_classifier, is_regressor=is_regressor, clone=clone)
_mod('sklearn.exceptions', NotFittedError=NotFittedError)
_mod('sklearn.svm', SVC=SVC, SVR=SVR)
_mod('sklearn.model_selection', GridSearchCV=GridSearchCV, cross_val_score=cross_val_score)
_mod('sklearn.utils.validation', check_X_y=check_X_y, check_array=check_array,
     check_is_fitted=_u('check_is_fitted'))
_mod('sklearn.utils', check_X_y=check_X_y, check_array=check_array, validation=MODS['sklearn.utils.validation'])
_mod('sklearn', base=MODS['sklearn.base'], svm=MODS['sklearn.svm'], utils=MODS['sklearn.utils'],
     exceptions=MODS['sklearn.exceptions'], model_selection=MODS['sklearn.model_selection'])


def module(name):
    if name not in MODS:
        _mod(name)
    return MODS[name]
