"""The numpy the code under test sees: real numpy for concrete values, symbolic semantics else."""
import math

import numpy as np

from . import arr as A
from . import num as N
from .arr import (BOOL, F8, I8, ND, OBJ, SInt, SymArray, SymSparse, SymStr, asarr, call, cast_elem,
                  dot, elem, has_sym, is_sym, mapel, mask_of, out_elem, reduce_, s_ite, to_obj,
                  ufunc, wrap_const, _vmap)
from .num import Ctl, Num, SymBool, is_special, s_and, s_not, s_or, unmodelled

H = {}          # handlers by numpy function name, used when an argument is symbolic
LA = {}         # same, numpy.linalg
ALWAYS = {}     # replaced for every argument


def h(*names, table=None):
    def deco(f):
        for n in names:
            (H if table is None else table)[n] = f
        return f
    return deco


def always(*names):
    return h(*names, table=ALWAYS)


def _shape(s):
    if isinstance(s, Num):
        return (int(s),)
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    return tuple(int(x) for x in s)


def filled(shape, v, dt):
    dt = np.dtype(dt)
    shape = _shape(shape)
    o = np.empty(shape, dtype=object)
    x = cast_elem(elem(v), dt) if dt.kind != 'O' else elem(v)
    if o.ndim == 0:
        o[()] = x
    else:
        f = o.reshape(-1)
        for i in range(f.shape[0]):
            f[i] = x
    return SymArray(o, dt)


# ------------------------------------------------------------------ creation
@always('full')
def full(shape, fill_value, dtype=None, order='C', **k):
    if isinstance(fill_value, (ND, list, tuple)):
        v = asarr(fill_value, copy=False)
        r = filled(shape, 0, dtype or v.dtype)
        r[...] = v
        return r
    if dtype is None:
        dtype = A.dtype_of_elem(fill_value)
    return filled(shape, fill_value, dtype)


@always('zeros')
def zeros(shape, dtype=float, order='C', **k):
    return filled(shape, 0, dtype or float)


@always('ones')
def ones(shape, dtype=None, order='C', **k):
    return filled(shape, 1, dtype or float)


@always('empty')
def empty(shape, dtype=float, order='C', **k):
    # unspecified contents: reading one of these values without writing it is a poison value
    dt = np.dtype(dtype or float)
    r = filled(shape, 0, dt)
    if dt.kind == 'f':
        r.view(ND)[...] = math.nan
    return r


def _like(v):
    def f(a, *args, dtype=None, shape=None, **k):
        a = asarr(a, copy=False)
        if v == 'full':
            fill = args[0] if args else k['fill_value']
            if len(args) > 1 and dtype is None:
                dtype = args[1]
        else:
            fill = {'zeros': 0, 'ones': 1, 'empty': 0}[v]
            if args and dtype is None:
                dtype = args[0]
        return filled(a.shape if shape is None else shape, fill, dtype or a.dtype)
    return f


for _v in ('full', 'zeros', 'ones', 'empty'):
    ALWAYS[_v + '_like'] = _like(_v)


@always('eye', 'identity')
def eye(n, m=None, k=0, dtype=float, order='C', **kw):
    r = np.eye(int(n), None if m is None else int(m), k, dtype=dtype)
    return wrap_const(r, force=True)


@always('array')
def array(obj, dtype=None, *, copy=True, order='K', subok=False, ndmin=0, like=None):
    obj = _gen(obj)
    return asarr(obj, dtype, True if copy is None or copy else False, ndmin)


def _gen(obj):
    if isinstance(obj, (map, zip, filter)) or type(obj).__name__ == 'generator':
        z = np.empty((), dtype=object)
        z[()] = obj
        return z
    return obj


@always('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'require')
def asarray(obj, dtype=None, *a, **k):
    return asarr(_gen(obj), dtype, copy=False)


@always('asarray_chkfinite')
def asarray_chkfinite(a, dtype=None, order=None):
    a = asarr(a, dtype, copy=False)
    if a.dtype.kind == 'f' and any(is_special(x) for x in to_obj(a).reshape(-1)):
        raise ValueError('array must not contain infs or NaNs')
    return a


@always('fromiter')
def fromiter(it, dtype, count=-1, **k):
    xs = []
    for i, x in enumerate(it):
        if count >= 0 and i >= count:
            break
        xs.append(x)
    return asarr(xs, dtype) if xs else np.array([], dtype=dtype)


@always('fromfunction')
def fromfunction(f, shape, dtype=float, **k):
    return f(*np.indices(shape, dtype=dtype), **k)


@always('copy')
def copy(a, *x, **k):
    return asarr(a, copy=True)


@always('copyto')
def copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        m = np.broadcast_to(mask_of(asarr(where, copy=False)), dst.shape)
        s = asarr(src, copy=False)
        b = np.broadcast_to(to_obj(s), dst.shape)
        for ix in np.ndindex(*dst.shape):
            if m[ix]:
                dst[ix] = b[ix]


class Vectorize:
    def __init__(self, pyfunc, otypes=None, excluded=None, signature=None, **k):
        self.f = pyfunc
        if signature is not None:
            unmodelled('vectorize signature')

    def __call__(self, *args, **k):
        arrs = np.broadcast_arrays(*[to_obj(asarr(a, copy=False)) for a in args])
        out = np.empty(arrs[0].shape, dtype=object)
        for ix in np.ndindex(*out.shape):
            out[ix] = elem(self.f(*[a[ix] for a in arrs], **k))
        if out.ndim == 0:
            return out[()]
        return asarr(out)


ALWAYS['vectorize'] = Vectorize


# ------------------------------------------------------------------ predicates
def close1(a, b, rtol, atol, equal_nan=False):
    if isinstance(a, (SymStr, str)) or isinstance(b, (SymStr, str)):
        raise TypeError("ufunc 'isfinite' not supported for the input types")
    a, b = A._n(elem(a)), A._n(elem(b))
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float):
            return a == b or (equal_nan and a != a and b != b)
        return False
    d = a - b
    if d.is_const() and d.cval() == 0:
        return True
    t = abs(b) * elem(rtol) + elem(atol)
    return s_and([d <= t, -d <= t])


@h('isclose')
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asarr(a, copy=False), asarr(b, copy=False)
    x, y = np.broadcast_arrays(to_obj(a), to_obj(b))
    out = np.empty(x.shape, dtype=object)
    for ix in np.ndindex(*x.shape):
        out[ix] = close1(x[ix], y[ix], rtol, atol, equal_nan)
    if out.ndim == 0:
        return out_elem(out[()], BOOL)
    return SymArray(out, BOOL)


@h('allclose')
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    return r.all() if isinstance(r, SymArray) else r


@h('array_equal')
def array_equal(a, b, equal_nan=False):
    a, b = asarr(a, copy=False), asarr(b, copy=False)
    if a.shape != b.shape:
        return False
    x, y = to_obj(a).reshape(-1), to_obj(b).reshape(-1)
    return s_and([SymBool.of(p == q) if not (is_special(p) and is_special(q)) else
                  (p == q or (equal_nan and p != p and q != q)) for p, q in zip(x, y)])


@h('array_equiv')
def array_equiv(a, b):
    a, b = asarr(a, copy=False), asarr(b, copy=False)
    try:
        x, y = np.broadcast_arrays(to_obj(a), to_obj(b))
    except ValueError:
        return False
    return array_equal(SymArray(x.copy(), a.dtype), SymArray(y.copy(), b.dtype))


@h('isreal')
def isreal(x):
    x = asarr(x, copy=False)
    r = np.ones(x.shape, dtype=bool)
    return r if r.ndim else np.bool_(True)


@h('isrealobj')
def isrealobj(x):
    return True


@h('iscomplexobj')
def iscomplexobj(x):
    return False


@h('iscomplex')
def iscomplex(x):
    return ~isreal(x)


@always('isscalar')
def isscalar(x):
    return isinstance(x, (Num, SymBool, SymStr)) or np.isscalar(x)


def _ty(t):
    if t is SInt:
        return np.int64
    if isinstance(t, type):
        if issubclass(t, Num):
            return np.float64
        if issubclass(t, SymBool):
            return np.bool_
        if issubclass(t, SymStr):
            return np.str_
        if issubclass(t, (SymArray, SymSparse)):
            return object
    return t


@always('issubdtype')
def issubdtype(a, b):
    return np.issubdtype(_ty(a), _ty(b))


@always('issubclass_', 'issctype')
def issubclass_(a, b):
    return issubclass(_ty(a), b)


@always('dtype')
class DType:
    """np.dtype: a callable that is also usable in isinstance tests through the shims."""
    real = np.dtype

    def __new__(cls, x=None, *a, **k):
        if isinstance(x, (Num, SymBool)):
            unmodelled('dtype of a symbol')
        return np.dtype(_ty(x), *a, **k)


@h('shape')
def shape(x):
    return asarr(x, copy=False).shape


@h('ndim')
def ndim(x):
    return asarr(x, copy=False).ndim


@h('size')
def size(x, axis=None):
    x = asarr(x, copy=False)
    return x.size if axis is None else x.shape[axis]


@h('result_type', 'promote_types', 'common_type')
def result_type(*xs):
    return np.result_type(*[x.dtype if isinstance(x, ND) else
                            (A.dtype_of_elem(x) if is_sym(x) else x) for x in xs])


@h('can_cast')
def can_cast(f, to, casting='safe'):
    return np.can_cast(f.dtype if isinstance(f, ND) else f, to, casting)


@h('min_scalar_type')
def min_scalar_type(x):
    return x.dtype


# ------------------------------------------------------------------ reductions
def _red(name):
    def f(a, axis=None, *args, **k):
        a = wrap_const(asarr(a, copy=False), force=True)
        k = {x: y for x, y in k.items() if y is not np._NoValue and x != 'out'}
        return getattr(a, name)(axis, **k)
    return f


for _a, _b in (('sum', 'sum'), ('prod', 'prod'), ('any', 'any'), ('all', 'all'), ('max', 'max'),
               ('amax', 'max'), ('min', 'min'), ('amin', 'min'), ('mean', 'mean'), ('std', 'std'),
               ('var', 'var'), ('ptp', 'ptp'), ('cumsum', 'cumsum'), ('cumprod', 'cumprod'),
               ('argmax', 'argmax'), ('argmin', 'argmin')):
    H[_a] = _red(_b)


def _nanrep(a, v):
    return mapel(lambda x: Num.of(v) if A._isnan(x) else x, a, a.dtype)


@h('nansum')
def nansum(a, axis=None, **k):
    a = asarr(a, copy=False)
    return _nanrep(wrap_const(a, True), 0.0).sum(axis)


@h('nanprod')
def nanprod(a, axis=None, **k):
    return _nanrep(wrap_const(asarr(a, copy=False), True), 1.0).prod(axis)


def _nandrop(a):
    a = wrap_const(asarr(a, copy=False), True)
    xs = [x for x in a.view(ND).reshape(-1) if not A._isnan(x)]
    o = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        o[i] = x
    return SymArray(o, a.dtype)


def _nanred(name):
    def f(a, axis=None, **k):
        a = wrap_const(asarr(a, copy=False), True)
        if axis is not None and a.ndim > 1:
            return unmodelled('nan-reduction along an axis')
        b = _nandrop(a)
        if b.size == 0:
            return math.nan
        return getattr(b, name)()
    return f


for _a in ('mean', 'max', 'min', 'std', 'var'):
    H['nan' + _a] = _nanred(_a)


def _nanarg(sg):
    def f(a, axis=None, **k):
        xs = list(to_obj(asarr(a, copy=False)).reshape(-1))
        idx = [i for i, x in enumerate(xs) if not A._isnan(x)]
        if not idx:
            raise ValueError('All-NaN slice encountered')
        b = idx[0]
        for i in idx[1:]:
            if bool(SymBool.of(xs[i] > xs[b] if sg > 0 else xs[i] < xs[b])):
                b = i
        return np.intp(b)
    return f


H['nanargmax'] = _nanarg(1)
H['nanargmin'] = _nanarg(-1)


@h('nan_to_num')
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = np.finfo(float).max

    def f(e):
        if A._isnan(e):
            return Num.of(nan)
        if A._isinf(e):
            return Num.of((posinf if posinf is not None else big) if e > 0 else
                          (neginf if neginf is not None else -big))
        return e
    a = wrap_const(asarr(x, copy=False), True)
    r = mapel(f, a, a.dtype)
    if not copy and isinstance(x, SymArray):
        x[...] = r
        return x
    return r if r.ndim else out_elem(r.view(ND)[()], a.dtype)


@h('average')
def average(a, axis=None, weights=None, returned=False, **k):
    a = asarr(a, copy=False)
    if weights is None:
        return a.mean(axis)
    w = asarr(weights, copy=False)
    if axis is not None and a.ndim > 1 and w.ndim == 1:
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    s = wrap_const(w, True).sum()
    if bool(s == 0):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    return (call(np.multiply, a, w)).sum(axis) / s


@h('count_nonzero')
def count_nonzero(a, axis=None, **k):
    a = wrap_const(asarr(a, copy=False), True)
    return (a != 0 if a.dtype.kind != 'b' else a).sum(axis)


@h('nonzero')
def nonzero(a):
    return mask_of(asarr(a, copy=False)).nonzero()


@h('flatnonzero')
def flatnonzero(a):
    return np.flatnonzero(mask_of(asarr(a, copy=False)))


@h('argwhere')
def argwhere(a):
    return np.argwhere(mask_of(asarr(a, copy=False)))


@h('argsort')
def argsort(a, axis=-1, kind=None, order=None, **k):
    return wrap_const(asarr(a, copy=False), True).argsort(axis)


@h('sort')
def sort(a, axis=-1, **k):
    a = wrap_const(asarr(a, copy=False), True)
    if a.ndim != 1:
        return unmodelled('sort along an axis')
    return a[a.argsort()]


@h('unique')
def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = wrap_const(asarr(a, copy=False), True)
    if axis is not None:
        rows = [list(r.reshape(-1)) for r in np.moveaxis(to_obj(a), axis, 0)]
    else:
        rows = [[x] for x in to_obj(a).reshape(-1)]
    groups = []
    inv = []
    for i, r in enumerate(rows):
        for g, (rep, idxs) in enumerate(groups):
            if bool(SymBool.of(s_and([SymBool.of(p == q) for p, q in zip(r, rep)]))):
                idxs.append(i)
                inv.append(g)
                break
        else:
            inv.append(len(groups))
            groups.append((r, [i]))
    import functools

    def c(i, j):
        for p, q in zip(groups[i][0], groups[j][0]):
            if bool(SymBool.of(p < q)):
                return -1
            if bool(SymBool.of(q < p)):
                return 1
        return 0
    order = sorted(range(len(groups)), key=functools.cmp_to_key(c))
    pos = {g: k2 for k2, g in enumerate(order)}
    first = [groups[g][1][0] for g in order]
    if axis is not None:
        vals = np.take(a, first, axis=axis)
    else:
        vals = a.reshape(-1)[np.array(first, dtype=int)]
    out = [vals]
    if return_index:
        out.append(np.array(first))
    if return_inverse:
        out.append(np.array([pos[g] for g in inv]))
    if return_counts:
        out.append(np.array([len(groups[g][1]) for g in order]))
    return out[0] if len(out) == 1 else tuple(out)


# ------------------------------------------------------------------ elementwise
@h('where')
def where(c, *xy):
    c = asarr(c, copy=False)
    if not xy:
        return mask_of(c).nonzero()
    x, y = [asarr(v, copy=False) for v in xy]
    b = np.broadcast_arrays(to_obj(c), to_obj(x), to_obj(y))
    weak = [v for v in xy if not isinstance(v, (ND, np.generic))]
    dt = np.result_type(x.dtype, y.dtype)
    out = np.empty(b[0].shape, dtype=object)
    for ix in np.ndindex(*out.shape):
        out[ix] = cast_elem(s_ite(A._b(b[0][ix]), cast_elem(b[1][ix], dt), cast_elem(b[2][ix], dt)), dt)
    return SymArray(out, dt)


@h('clip')
def clip(a, a_min=None, a_max=None, out=None, **k):
    a_min, a_max = k.get('min', a_min), k.get('max', a_max)
    r = asarr(a, copy=False)
    if a_min is not None:
        r = call(np.maximum, r, a_min)
    if a_max is not None:
        r = call(np.minimum, r, a_max)
    return r if not isinstance(r, SymArray) or r.ndim else out_elem(r.view(ND)[()], r.dtype)


@h('round', 'around', 'round_')
def round_(a, decimals=0, out=None):
    if isinstance(a, Num):
        return A.round_sym(a, decimals)
    return asarr(a, copy=False).round(decimals)


@h('real', 'real_if_close')
def real(x, *a):
    return x


@h('imag')
def imag(x):
    return asarr(x, copy=False) * 0


@h('dot')
def dot_(a, b, out=None):
    return dot(a, b)


@h('inner')
def inner(a, b):
    a, b = asarr(a, copy=False), asarr(b, copy=False)
    return dot(a, b.T)


@h('vdot', 'vecdot')
def vdot(a, b):
    return dot(asarr(a, copy=False).ravel(), asarr(b, copy=False).ravel())


@h('outer')
def outer(a, b, out=None):
    a, b = asarr(a, copy=False).ravel(), asarr(b, copy=False).ravel()
    return call(np.multiply, wrap_const(a, True).reshape(-1, 1), wrap_const(b, True).reshape(1, -1))


@h('tensordot')
def tensordot(a, b, axes=2):
    a, b = asarr(a, copy=False), asarr(b, copy=False)
    if isinstance(axes, int):
        ax = (list(range(a.ndim - axes, a.ndim)), list(range(axes)))
    else:
        ax = [list(x) if isinstance(x, (list, tuple)) else [x] for x in axes]
    ra = [i for i in range(a.ndim) if i not in [x % a.ndim for x in ax[0]]]
    rb = [i for i in range(b.ndim) if i not in [x % b.ndim for x in ax[1]]]
    A1 = a.transpose(ra + [x % a.ndim for x in ax[0]])
    B1 = b.transpose([x % b.ndim for x in ax[1]] + rb)
    sa, sb = A1.shape[:len(ra)], B1.shape[len(ax[1]):]
    r = dot(A1.reshape(int(np.prod(sa)) if sa else 1, -1), B1.reshape(-1, int(np.prod(sb)) if sb else 1))
    r = r.reshape(tuple(sa) + tuple(sb))
    return r if r.ndim else out_elem(r.view(ND)[()], r.dtype)


@h('einsum')
def einsum(spec, *ops, **k):
    ops = [asarr(o, copy=False) for o in ops]
    spec = spec.replace(' ', '')
    if '.' in spec:
        return unmodelled('einsum ellipsis')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        out = ''.join(sorted(c for c in set(ins) if c.isalpha() and ins.count(c) == 1))
    ins = ins.split(',')
    dims = {}
    for t, o in zip(ins, ops):
        for c, s in zip(t, o.shape):
            dims[c] = s
    summed = [c for c in dims if c not in out]
    dt = np.result_type(*[o.dtype for o in ops])
    raws = [to_obj(o) for o in ops]
    res = np.empty(tuple(dims[c] for c in out), dtype=object)
    for ix in np.ndindex(*res.shape):
        env = dict(zip(out, ix))
        acc = None
        for jx in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, jx))
            t = None
            for s, r in zip(ins, raws):
                e = r[tuple(env[c] for c in s)]
                t = e if t is None else A.SC['multiply'](t, e)
            acc = t if acc is None else A.SC['add'](acc, t)
        res[ix] = cast_elem(acc if acc is not None else Num.of(0), dt)
    return SymArray(res, dt) if res.ndim else out_elem(res[()], dt)


@h('kron')
def kron(a, b):
    a, b = wrap_const(asarr(a, copy=False), True), wrap_const(asarr(b, copy=False), True)
    r = call(np.multiply, a.reshape(a.shape[0], 1, a.shape[1], 1), b.reshape(1, b.shape[0], 1, b.shape[1]))
    return r.reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


@h('trace')
def trace(a, offset=0, **k):
    return asarr(a, copy=False).diagonal(offset).sum()


@h('diff')
def diff(a, n=1, axis=-1, **k):
    a = asarr(a, copy=False)
    s1, s2 = [slice(None)] * a.ndim, [slice(None)] * a.ndim
    s1[axis], s2[axis] = slice(1, None), slice(None, -1)
    r = a[tuple(s1)] - a[tuple(s2)]
    return r if n == 1 else diff(r, n - 1, axis)


@h('cov')
def cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    X = asarr(m, dtype=F8)
    X = X.reshape(1, -1) if X.ndim == 1 else (X if rowvar else X.T)
    if y is not None:
        Y = asarr(y, dtype=F8)
        Y = Y.reshape(1, -1) if Y.ndim == 1 else (Y if rowvar else Y.T)
        X = np.concatenate([X, Y], axis=0)
    dd = ddof if ddof is not None else (0 if bias else 1)
    X = X - X.mean(1, keepdims=True)
    r = dot(X, X.T) / (X.shape[1] - dd)
    return r if r.size > 1 else out_elem(r.view(ND).reshape(-1)[0], F8)


@h('corrcoef')
def corrcoef(x, y=None, rowvar=True, **k):
    c = cov(x, y, rowvar)
    if not isinstance(c, SymArray):
        return Num.of(1.0)
    d = call(np.sqrt, c.diagonal())
    return c / d.reshape(-1, 1) / d.reshape(1, -1)


@h('interp', 'percentile', 'quantile', 'median', 'histogram', 'convolve', 'correlate')
def _un(*a, **k):
    return unmodelled('numpy function on symbolic data')


@h('linspace', 'arange', 'logspace')
def _lin(*a, **k):
    return unmodelled('range with symbolic bounds')


@h('unravel_index')
def unravel_index(indices, shape, order='C'):
    if isinstance(indices, Num):
        t = 1
        for s in shape:
            t *= s
        if not indices.isint:
            raise TypeError('only int indices permitted')
        if bool(SymBool.of(indices < 0)) or bool(SymBool.of(indices >= t)):
            raise ValueError('index is out of bounds for array with size %d' % t)
        return np.unravel_index(int(indices), shape)
    return np.unravel_index(A.conc_index(indices), shape)


@h('ravel_multi_index')
def ravel_multi_index(mi, dims, **k):
    return np.ravel_multi_index(tuple(A.conc_index(i) for i in mi), dims, **k)


@h('fill_diagonal')
def fill_diagonal(a, val, wrap=False):
    v = asarr(val, copy=False)
    n = min(a.shape)
    for i in range(n):
        a[i, i] = v if v.ndim == 0 else v[i % v.shape[0]]


@h('apply_along_axis')
def apply_along_axis(f, axis, a, *args, **k):
    a = asarr(a, copy=False)
    if a.ndim == 1:
        return f(a, *args, **k)
    if a.ndim != 2:
        return unmodelled('apply_along_axis')
    rows = [f(a[i, :] if axis in (1, -1) else a[:, i], *args, **k)
            for i in range(a.shape[0] if axis in (1, -1) else a.shape[1])]
    r = asarr(rows)
    return r if axis in (1, -1) or r.ndim == 1 else r.T


@h('piecewise', 'select')
def _pw(*a, **k):
    return unmodelled('piecewise')


@h('isin', 'in1d')
def isin(e, test, assume_unique=False, invert=False, **k):
    a, t = asarr(e, copy=False), asarr(list(test) if isinstance(test, (set, frozenset)) else test, copy=False)
    ts = list(to_obj(t).reshape(-1))
    r = mapel(lambda x: s_or([SymBool.of(x == y) for y in ts]), wrap_const(a, True), BOOL)
    return ~r if invert else r


@h('put', 'place', 'putmask')
def _put(*a, **k):
    return unmodelled('in-place put')


@h('array2string', 'array_str', 'array_repr')
def _repr(a, *x, **k):
    return repr(a)


@h('save', 'savez', 'savetxt', 'shares_memory', 'may_share_memory')
def _io(*a, **k):
    return np.may_share_memory(*(x.view(ND) if isinstance(x, ND) else x for x in a)) if len(a) == 2 else unmodelled('io')


STRUCT = set('''concatenate stack hstack vstack dstack column_stack row_stack tile repeat transpose
diag diagonal diagflat tril triu flip fliplr flipud roll rot90 squeeze reshape ravel broadcast_to
take take_along_axis delete insert append split array_split hsplit vsplit atleast_1d atleast_2d
atleast_3d expand_dims moveaxis swapaxes block resize compress choose ix_ meshgrid matrix_transpose
permute_dims broadcast_arrays extract pad'''.split())


def _strip(x, acc, force=True):
    if isinstance(x, SymArray):
        acc.append(x.dtype)
        return x.view(ND)
    if isinstance(x, ND) and x.dtype.kind in 'bfiuU' and x.ndim and force == 'all':
        acc.append(x.dtype)
        return to_obj(x)
    if isinstance(x, (list, tuple)):
        return type(x)(_strip(e, acc, force) for e in x)
    if isinstance(x, (Num, SymBool, SymStr)):
        o = np.empty((), dtype=object)
        o[()] = x
        acc.append(A.dtype_of_elem(x))
        return o
    return x


def structural(func, args, kw):
    acc = []
    impl = getattr(func, '_implementation', func)
    name = func.__name__
    if name in ('concatenate', 'stack', 'hstack', 'vstack', 'dstack', 'column_stack', 'row_stack', 'block',
                'append'):
        first = args[0] if name != 'append' else [args[0], args[1]]
        dts = []
        A.array_dtypes(list(first), dts)
        acc_dt = A._common(dts)
        acc.append(acc_dt)
        dummy = []
        kw.pop('dtype', None)
        if name == 'append':
            a2 = (_strip(asarr(args[0], copy=False), dummy, 'all'),
                  _strip(asarr(args[1], copy=False), dummy, 'all')) + tuple(args[2:])
        else:
            a2 = ([_strip(asarr(x, copy=False) if not isinstance(x, list) or name != 'block' else x, dummy, 'all')
                   for x in first],) + tuple(args[1:])
        r = impl(*a2, **kw)
    else:
        ix = lambda x: A.conc_index(x) if name in ('take', 'take_along_axis', 'delete', 'compress', 'repeat', 'roll') and is_sym(x) else x
        rest = tuple(ix(a) for a in args[1:])
        a2 = tuple(_strip(x, acc) for x in (args[:1] + rest))
        kw2 = {k: _strip(ix(v), acc) for k, v in kw.items()}
        if name in ('diag', 'diagflat', 'tril', 'triu') and acc:
            acc = acc[:1]
        r = impl(*a2, **kw2)
    dt = A._common(acc) if acc else F8

    def rew(x):
        if isinstance(x, ND):
            if x.dtype != object:
                return wrap_const(x)
            if x.size and name in ('diag', 'diagflat', 'tril', 'triu', 'concatenate', 'stack', 'hstack', 'vstack',
                                   'append', 'insert', 'pad', 'resize', 'column_stack', 'block', 'row_stack', 'dstack'):
                x = _vmap(lambda e: cast_elem(elem(e), dt), x)
            return SymArray(x, dt)
        if isinstance(x, (list, tuple)):
            return type(x)(rew(e) for e in x)
        return x
    return rew(r)


# ------------------------------------------------------------------ linalg
@h('norm', table=LA)
def norm(x, ord=None, axis=None, keepdims=False):
    x = asarr(x, copy=False)
    if x.dtype.kind in 'iub':
        x = wrap_const(x, True).astype(F8)
    if axis is None and x.ndim == 1 or (axis is not None and not isinstance(axis, tuple)):
        if ord is None or (not isinstance(ord, str) and ord == 2):
            return call(np.sqrt, (x * x).sum(axis, keepdims=keepdims))
        if isinstance(ord, str):
            raise ValueError("Invalid norm order '%s' for vectors" % ord)
        if ord == 1:
            return call(np.absolute, x).sum(axis, keepdims=keepdims)
        if ord == math.inf:
            return call(np.absolute, x).max(axis, keepdims=keepdims)
        if ord == -math.inf:
            return call(np.absolute, x).min(axis, keepdims=keepdims)
        if ord == 0:
            return (x != 0).sum(axis).astype(F8) if not isinstance((x != 0).sum(axis), Num) else (x != 0).sum(axis)
        s = call(np.power, call(np.absolute, x), ord).sum(axis, keepdims=keepdims)
        return call(np.power, s, 1.0 / ord)
    if ord is None or ord == 'fro':
        if x.ndim != 2 and ord == 'fro':
            raise ValueError('Improper number of dimensions to norm.')
        return call(np.sqrt, (x * x).sum(axis, keepdims=keepdims))
    if x.ndim == 2 and ord in (1, math.inf):
        s = call(np.absolute, x).sum(0 if ord == 1 else 1)
        return s.max()
    return unmodelled('matrix norm %r' % (ord,))


def charpoly(raw):
    """Coefficients e_1..e_n (elementary symmetric functions of the eigenvalues)."""
    n = raw.shape[0]
    # Faddeev-LeVerrier
    M = [[Num.of(0)] * n for _ in range(n)]
    c = [Num.of(1)]
    for k in range(1, n + 1):
        # M = A*M + c[k-1]*I
        M2 = [[Num.of(0)] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                acc = Num.of(0)
                for t in range(n):
                    if k > 1:
                        acc = acc + raw[i, t] * M[t][j]
                M2[i][j] = acc + (c[k - 1] if i == j else 0)
        M = M2
        tr = Num.of(0)
        for i in range(n):
            for t in range(n):
                tr = tr + raw[i, t] * M[t][i]
        c.append(-tr / k)
    return c     # det(xI-A) = x^n + c1 x^(n-1) + ...


class LinAlgError(ValueError):
    pass


def _components(S, n):
    left, out = set(range(n)), []
    while left:
        todo, cs = [min(left)], set()
        while todo:
            i = todo.pop()
            if i in cs:
                continue
            cs.add(i)
            todo += [j for j in left if j not in cs and not (S[i, j].is_const() and S[i, j].cval() == 0)]
        left -= cs
        out.append(sorted(cs))
    return out


def eigs_sym(a, lower=True):
    """Eigenvalues (ascending) of the symmetric matrix read from one triangle."""
    import z3
    raw = to_obj(a)
    n = raw.shape[0]
    S = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            p, q = (max(i, j), min(i, j)) if lower else (min(i, j), max(i, j))
            S[i, j] = A._n(elem(raw[p, q]))
    if any(is_special(x) for x in S.reshape(-1)):
        return None
    offdiag0 = all(S[i, j].is_const() and S[i, j].cval() == 0 for i in range(n) for j in range(n) if i != j)
    if offdiag0:
        d = [S[i, i] for i in range(n)]
        return [d[i] for i in A._argsort(d)]
    if all(x.is_const() for x in S.reshape(-1)):
        w = np.linalg.eigvalsh(np.array([[float(x.cval()) for x in r] for r in S]))
        return [Num.of(float(v)) for v in w]
    comps = _components(S, n)
    if len(comps) > 1:                       # block diagonal up to the order of the rows
        out = []
        for cs in comps:
            B = np.empty((len(cs), len(cs)), dtype=object)
            for p, i in enumerate(cs):
                for q, j in enumerate(cs):
                    B[p, q] = S[i, j]
            out += eigs_sym(B, lower)
        return [out[i] for i in A._argsort(out)]
    if n > 3:
        return unmodelled('eigenvalues of a symbolic %dx%d matrix' % (n, n))
    c = N.ctx()
    key = tuple(x.key() for x in S.reshape(-1))
    if n == 2:                               # the smaller root, in the form easiest for the solver
        at = c.defined('eigmin', key)
        if at.arg is None:
            at.arg = S
            za, zb, zd = (c.zpoly_of(x, at) for x in (S[0, 0], S[0, 1], S[1, 1]))
            at.defs += [at.zv <= za, at.zv <= zd, (za - at.zv) * (zd - at.zv) == zb * zb]
        z = Num(N.Poly.atom(at.id))
        return [z, S[0, 0] + S[1, 1] - z]
    co = charpoly(S)
    ats = []
    fresh = False
    for i in range(n):
        at = c.defined('eig%d' % i, key)
        fresh = fresh or at.arg is None
        ats.append(at)
    if fresh:
        zc = []
        for at in ats:
            at.arg = S
        for x in co[1:]:
            zc.append(c.zpoly_of(x, ats[0]))
        for at in ats[1:]:
            at.deps |= ats[0].deps
        for at in ats:
            at.deps |= set(b.id for b in ats)
        zs = [at.zv for at in ats]
        defs = [zs[i] <= zs[i + 1] for i in range(n - 1)]
        sym = [z3.Sum(zs)]
        if n == 2:
            sym.append(zs[0] * zs[1])
        elif n == 3:
            sym.append(zs[0] * zs[1] + zs[0] * zs[2] + zs[1] * zs[2])
            sym.append(zs[0] * zs[1] * zs[2])
        for k, s in enumerate(sym):
            defs.append(s == (-zc[k] if k % 2 == 0 else zc[k]))
        if n == 3:       # implied, but they help the solver: S - z0*I and z2*I - S are PSD
            zS = [[c.zpoly_of(S[i, j], ats[0]) for j in range(n)] for i in range(n)]
            for i in range(n):
                defs += [zs[0] <= zS[i][i], zs[2] >= zS[i][i]]
                for j in range(i + 1, n):
                    defs.append((zS[i][i] - zs[0]) * (zS[j][j] - zs[0]) >= zS[i][j] * zS[i][j])
                    defs.append((zs[2] - zS[i][i]) * (zs[2] - zS[j][j]) >= zS[i][j] * zS[i][j])
        ats[0].defs += defs
    return [Num(N.Poly.atom(at.id)) for at in ats]


def _mk1(xs):
    o = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        o[i] = x
    return SymArray(o, F8)


def _sq2(a):
    a = asarr(a, copy=False)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    return a


@h('eigvalsh', table=LA)
def eigvalsh(a, UPLO='L'):
    a = _sq2(a)
    e = eigs_sym(a, UPLO.upper() == 'L')
    if e is None:
        return _mk1([math.nan] * a.shape[0])
    return _mk1(e)


@h('eigvals', table=LA)
def eigvals(a):
    a = _sq2(a)
    raw = to_obj(a)
    for i in range(raw.shape[0]):
        for j in range(i):
            if not (isinstance(raw[i, j], Num) and raw[i, j].key() == raw[j, i].key()):
                return unmodelled('eigenvalues of a nonsymmetric matrix')
    if any(is_special(x) for x in raw.reshape(-1)):
        raise np.linalg.LinAlgError('Array must not contain infs or NaNs')
    return _mk1(eigs_sym(a))


@h('eigh', table=LA)
def np_eigh(a, UPLO='L'):
    return unmodelled('eigenvectors')


@h('cholesky', table=LA)
def cholesky(a, **k):
    raw = to_obj(_sq2(a))
    n = raw.shape[0]
    L = np.empty((n, n), dtype=object)
    L[...] = Num.of(0.0)
    for j in range(n):
        s = raw[j, j]
        for k2 in range(j):
            s = s - L[j, k2] * L[j, k2]
        if not isinstance(s, Num) or not bool(SymBool.of(s > 0)):
            raise np.linalg.LinAlgError('Matrix is not positive definite')
        L[j, j] = N.num_sqrt(s)
        for i in range(j + 1, n):
            t = raw[i, j]
            for k2 in range(j):
                t = t - L[i, k2] * L[j, k2]
            L[i, j] = t / L[j, j]
    return SymArray(L, F8)


@h('det', table=LA)
def det(a):
    c = charpoly(to_obj(_sq2(a)))
    n = len(c) - 1
    return c[n] if n % 2 == 0 else -c[n]


@h('multi_dot', table=LA)
def multi_dot(arrays, **k):
    r = arrays[0]
    for x in arrays[1:]:
        r = dot(r, x)
    return r


@h('matrix_power', table=LA)
def matrix_power(a, n):
    r = a
    for _ in range(n - 1):
        r = dot(r, a)
    return r


@h('matmul', table=LA)
def la_matmul(a, b):
    return dot(a, b, mm=True)


# ------------------------------------------------------------------ dispatch
def array_function(func, args, kw):
    name = func.__name__
    mod = getattr(func, '__module__', '') or ''
    if mod.startswith('numpy.linalg') and name in LA:
        return LA[name](*args, **kw)
    if name in ALWAYS:
        return ALWAYS[name](*args, **kw)
    if name in H:
        return H[name](*args, **kw)
    if name in STRUCT:
        return structural(func, args, dict(kw))
    return unmodelled('numpy.%s' % name)


def any_sym(args, kw):
    return any(has_sym(a) for a in args) or any(has_sym(v) for v in kw.values())


def _has_float(a):
    return isinstance(a, (float, np.floating)) or (isinstance(a, ND) and a.dtype.kind == 'f')


class UfuncProxy:
    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__
        self.nin, self.nout = uf.nin, uf.nout

    def _go(self, method, args, kw):
        args = tuple(np.asarray(a) if isinstance(a, range) else a for a in args)
        if Ctl.cur is not None and (any_sym(args, kw) or any(_has_float(a) for a in args)):
            r = ufunc(self.uf, method, args, kw)
            if r is NotImplemented:
                # the operand defines its own operator (sparse matrices)
                op = {'multiply': '__mul__', 'add': '__add__', 'subtract': '__sub__', 'matmul': '__matmul__'}
                if self.uf.__name__ in op and len(args) == 2:
                    for x, y, pre in ((args[0], args[1], ''), (args[1], args[0], 'r')):
                        if isinstance(x, SymSparse):
                            if self.uf.__name__ == 'multiply':
                                return x.multiply(y)
                            return getattr(x, op[self.uf.__name__])(y)
                raise TypeError('operand type not supported by ufunc %s' % self.uf.__name__)
            return r
        r = getattr(self.uf, method)(*args, **kw)
        return r

    def __call__(self, *args, **kw):
        return self._go('__call__', args, kw)

    def outer(self, *args, **kw):
        return self._go('outer', args, kw)

    def reduce(self, *args, **kw):
        if len(args) > 1:
            kw['axis'] = args[1]
            args = args[:1]
        return self._go('reduce', args, kw)

    def accumulate(self, *args, **kw):
        return self._go('accumulate', args, kw)

    def at(self, *args, **kw):
        return self._go('at', args, kw)

    def __getattr__(self, n):
        return getattr(self.uf, n)


def _fn(name, real, table):
    def f(*args, **kw):
        if Ctl.cur is None:
            return real(*args, **kw)
        if name in ALWAYS and table is H:
            return ALWAYS[name](*args, **kw)
        if any(isinstance(a, SymSparse) for a in args):
            if name in ('diag', 'diagonal'):
                return args[0].diagonal()
            if name in table or name in STRUCT:
                return unmodelled('numpy.%s of a sparse matrix' % name)
        if name in table and (any_sym(args, kw) or any(_has_float(a) for a in args) or
                              any(isinstance(a, (list, tuple)) and any(_has_float(x) for x in a) for a in args)):
            return table[name](*args, **kw)
        if any_sym(args, kw):
            if name in STRUCT and table is H:
                return structural(real, args, dict(kw))
            r = real(*args, **kw)
            return r
        r = real(*args, **kw)
        if isinstance(r, ND):
            return wrap_const(r)
        if isinstance(r, np.floating):
            return Num.of(float(r))
        return r
    f.__name__ = name
    f.__wrapped_numpy__ = real
    return f


class Proxy:
    def __init__(self, mod, table, name):
        self.__dict__['_m'] = mod
        self.__dict__['_t'] = table
        self.__dict__['_c'] = {}
        self.__dict__['__name__'] = name

    def __getattr__(self, n):
        c = self.__dict__['_c']
        if n in c:
            return c[n]
        m, t = self.__dict__['_m'], self.__dict__['_t']
        v = getattr(m, n)
        if m is np and n in ('vectorize',):
            r = ALWAYS[n]
        elif m is np and n == 'dtype':
            r = np.dtype
        elif m is np and n == 'linalg':
            r = LINALG
        elif m is np and n == 'random':
            r = RANDOM
        elif m is np and n == 'char' or n == 'strings':
            r = CharProxy(v)
        elif isinstance(v, np.ufunc):
            r = UfuncProxy(v)
        elif isinstance(v, type) or not callable(v):
            r = v
        else:
            r = _fn(n, v, t)
        c[n] = r
        return r

    def __setattr__(self, n, v):
        self.__dict__['_c'][n] = v


class CharProxy:
    def __init__(self, m):
        self._m = m

    def __getattr__(self, n):
        real = getattr(self._m, n)

        def f(a, *args, **k):
            if has_sym(a) or any(has_sym(x) for x in args):
                if n in ('equal', 'not_equal'):
                    return call(getattr(np, n), asarr(a, copy=False), *args)
                a = wrap_const(asarr(a, copy=False), True)
                if n == 'str_len' or any(has_sym(x) or isinstance(x, (list, tuple, ND)) for x in args):
                    val = lambda e: e.value() if isinstance(e, A.SymStr) else int(e) if isinstance(e, A.Num) else e
                    arrs = [a.view(ND)] + [asarr(x, copy=False).view(ND) for x in args]
                    arrs = np.broadcast_arrays(*arrs)
                    out = np.empty(arrs[0].shape, dtype=object)
                    for ix in np.ndindex(out.shape):
                        vs = [val(x[ix]) for x in arrs]
                        out[ix] = A.elem(len(vs[0]) if n == 'str_len' else getattr(vs[0], n)(*vs[1:]))
                    return SymArray(out, A._common([A.dtype_of_elem(x) for x in out.reshape(-1)]))
                r = _vmap(lambda e: getattr(e, n)(*args, **k), a.view(ND))
                dts = [A.dtype_of_elem(x) for x in r.reshape(-1)]
                return SymArray(r, A._common(dts))
            return real(a, *args, **k)
        return f


class RandomProxy:
    def __getattr__(self, n):
        real = getattr(np.random, n)
        if not callable(real) or isinstance(real, type):
            return real

        def f(*a, **k):
            r = real(*a, **k)
            return wrap_const(r) if Ctl.cur is not None else r
        return f


RANDOM = RandomProxy()
LINALG = Proxy(np.linalg, LA, 'numpy.linalg')
P = Proxy(np, H, 'numpy')


# ------------------------------------------------------------------ math
class MathProxy:
    _un = {'sqrt': 'sqrt', 'exp': 'exp', 'tanh': 'tanh', 'log': 'log', 'fabs': 'absolute',
           'expm1': 'expm1', 'log1p': 'log1p', 'sinh': 'sinh', 'cosh': 'cosh', 'sin': 'sin', 'cos': 'cos'}

    def __getattr__(self, n):
        real = getattr(math, n)
        if not callable(real):
            return real

        def f(*a, **k):
            if Ctl.cur is None or not (any_sym(a, k) or any(_has_float(x) for x in a)):
                return real(*a, **k)
            a = tuple(A.elem(x) if not isinstance(x, (list, tuple, ND)) else x for x in a)
            if n in self._un and len(a) == 1:
                r = A.SC[self._un[n]](a[0])
                if n == 'sqrt' and isinstance(r, float) and r != r:
                    raise ValueError('math domain error')
                return r
            if n == 'pow':
                return A.SC['power'](*a)
            if n == 'isclose':
                rt, at = k.get('rel_tol', 1e-9), k.get('abs_tol', 0.0)
                d = abs(a[0] - a[1])
                return s_or([SymBool.of(d <= abs(a[0]) * rt), SymBool.of(d <= abs(a[1]) * rt), SymBool.of(d <= at)])
            if n in ('isnan', 'isinf', 'isfinite'):
                return A.SC[n](a[0])
            if n in ('floor', 'ceil', 'trunc'):
                return {'floor': N.num_floor, 'ceil': lambda x: -N.num_floor(-x), 'trunc': N.num_trunc}[n](a[0])
            if n == 'fsum':
                t = Num.of(0.0)
                for x in a[0]:
                    t = t + A.elem(x)
                return t
            if n == 'prod':
                t = Num.of(1)
                for x in a[0]:
                    t = t * A.elem(x)
                return t
            if n == 'hypot':
                return N.num_sqrt(sum((x * x for x in a), Num.of(0)))
            if n == 'copysign':
                return A.SC['copysign'](*a)
            if all(isinstance(x, Num) and x.is_const() for x in a):
                return Num.of(real(*[float(x.cval()) for x in a], **k))
            return unmodelled('math.' + n)
        return f


MATH = MathProxy()


# ------------------------------------------------------------------ scipy pieces
def sp_eigh(a, b=None, lower=True, eigvals_only=False, subset_by_index=None, subset_by_value=None,
            check_finite=True, driver=None, **k):
    a = asarr(a, copy=False)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise ValueError('expected square "a" matrix')
    if b is not None or subset_by_value is not None:
        return unmodelled('generalised eigenproblem')
    if a.size == 0:
        raise ValueError('empty')
    e = eigs_sym(a, lower)
    if e is None:
        if check_finite:
            raise ValueError('array must not contain infs or NaNs')
        e = [math.nan] * a.shape[0]
    if subset_by_index is not None:
        lo, hi = subset_by_index
        e = e[int(lo):int(hi) + 1]
    w = _mk1(e)
    if not eigvals_only:
        return w, UnmodelledValue('eigenvectors')
    return w


def sp_eigvalsh(a, b=None, lower=True, **k):
    return sp_eigh(a, b, lower, eigvals_only=True, **k)


class UnmodelledValue:
    def __init__(self, what):
        self.__dict__['_what'] = what

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return unmodelled(self.__dict__['_what'])


class PearsonResult(tuple):
    @property
    def statistic(self):
        return self[0]
    correlation = statistic

    @property
    def pvalue(self):
        return self[1]


class ConstantInputWarning(RuntimeWarning):
    pass


def pearsonr(x, y, **k):
    x, y = asarr(x, copy=False), asarr(y, copy=False)
    x, y = wrap_const(x, True), wrap_const(y, True)
    if isinstance(x, A.SymMatrix):
        x = SymArray(x.view(ND), x.dtype)
    if isinstance(y, A.SymMatrix):
        y = SymArray(y.view(ND), y.dtype)
    if x.ndim != 1 or y.ndim != 1:
        return unmodelled('pearsonr of %d-d data' % x.ndim)
    if x.shape != y.shape:
        raise ValueError('`x` and `y` must have the same length along `axis`.')
    if x.size < 2:
        raise ValueError('`x` and `y` must have length at least 2.')
    if any(is_special(v) for v in list(x.view(ND)) + list(y.view(ND))):
        return PearsonResult((math.nan, math.nan))
    xm, ym = x - x.mean(), y - y.mean()
    sx, sy = (xm * xm).sum(), (ym * ym).sum()
    if bool(SymBool.of(sx == 0)) or bool(SymBool.of(sy == 0)):
        import warnings
        warnings.warn('An input array is constant; the correlation coefficient is not defined.',
                      ConstantInputWarning)
        return PearsonResult((math.nan, math.nan))
    r = (xm * ym).sum() / (N.num_sqrt(sx) * N.num_sqrt(sy))
    c = N.ctx()
    at = c.defined('pval', (tuple(v.key() for v in x.view(ND)), tuple(v.key() for v in y.view(ND))))
    return PearsonResult((r, Num(N.Poly.atom(at.id))))
