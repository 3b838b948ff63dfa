"""Arrays of symbolic numbers that present themselves to the code under test as numpy arrays.

A SymArray is a numpy ndarray of Python objects (Num, SymBool, SymStr, specials) carrying the
dtype the array would have in the real program.  Shape manipulation is done by numpy itself;
arithmetic is done element by element with exact symbolic semantics.
"""
import math
import operator

import numpy as np

from . import num as N
from .num import Num, SymBool, is_special, s_and, s_not, s_or, unmodelled

ND = np.ndarray
F8 = np.dtype('f8')
I8 = np.dtype('i8')
BOOL = np.dtype(bool)
OBJ = np.dtype(object)


class SInt(Num):
    """A symbolic integer as it appears to type() tests."""
    __slots__ = ()


def sint(x):
    return x if type(x) is SInt else SInt(x.n, x.d, True)


class NInt(SInt):
    """A symbolic element of an array of a narrow integer type: its arithmetic wraps."""
    __slots__ = ('dt',)

    def __init__(self, n, d, dt):
        Num.__init__(self, n, d, True)
        self.dt = dt


def _narrow_ops():
    def wrap(name, uf, refl):
        orig = getattr(Num, name)

        def op(self, o, *a):
            if a or isinstance(o, ND) or not (isinstance(o, (int, np.integer)) or isinstance(o, Num) and o.isint):
                return orig(self, o, *a)
            return call(uf, o, self) if refl else call(uf, self, o)
        op.__name__ = name
        setattr(NInt, name, op)
    for n, uf in (('add', np.add), ('sub', np.subtract), ('mul', np.multiply), ('floordiv', np.floor_divide),
                  ('mod', np.remainder), ('pow', np.power)):
        if hasattr(Num, '__%s__' % n):
            wrap('__%s__' % n, uf, False)
        if hasattr(Num, '__r%s__' % n):
            wrap('__r%s__' % n, uf, True)
    NInt.__neg__ = lambda self: call(np.negative, self)
    NInt.__abs__ = lambda self: call(np.absolute, self)


_narrow_ops()


class SymStr:
    """A symbolic string over a finite domain: table[idx]."""
    __slots__ = ('idx', 'tab')
    __array_ufunc__ = None

    def __init__(self, idx, tab):
        self.idx, self.tab = idx, list(tab)

    def map(self, f):
        return SymStr(self.idx, [f(s) for s in self.tab])

    def pred(self, f):
        return s_or([self.idx == k for k, s in enumerate(self.tab) if f(s)])

    def __eq__(self, o):
        if isinstance(o, SymStr):
            if o.idx is self.idx and o.tab == self.tab:
                return True
            ors = []
            for k, s in enumerate(self.tab):
                js = [j for j, t in enumerate(o.tab) if t == s]
                if js:
                    ors.append(s_and([self.idx == k, s_or([o.idx == j for j in js])]))
            return s_or(ors)
        if isinstance(o, str):
            return self.pred(lambda s: s == o)
        return False

    def __ne__(self, o):
        return s_not(self == o)

    def __hash__(self):
        return hash(self.value())

    def value(self):
        return self.tab[int(self.idx)]

    def __str__(self):
        return self.value()
    __repr__ = __str__

    def __len__(self):
        return len(self.value())

    def __bool__(self):
        return bool(self.pred(lambda s: bool(s)))

    def __lt__(self, o):
        return self.value() < str(o)

    def __gt__(self, o):
        return self.value() > str(o)

    def __le__(self, o):
        return self.value() <= str(o)

    def __ge__(self, o):
        return self.value() >= str(o)

    def __contains__(self, o):
        return o in self.value()

    def __iter__(self):
        return iter(self.value())

    def __getitem__(self, i):
        return self.map(lambda s: s[i]) if isinstance(i, slice) else self.value()[i]

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        f = getattr(str, name)

        def call(*a, **k):
            rs = [f(s, *a, **k) for s in self.tab]
            if all(isinstance(r, str) for r in rs):
                return SymStr(self.idx, rs)
            if all(isinstance(r, bool) for r in rs):
                return s_or([self.idx == i for i, r in enumerate(rs) if r])
            return f(self.value(), *a, **k)
        return call


def is_sym(x):
    return isinstance(x, (Num, SymBool, SymStr, SymArray))


# ------------------------------------------------------------------ elements
def elem(x):
    """Canonical element for a scalar found in user code."""
    if type(x) is NInt:
        return sint(x)
    if isinstance(x, (Num, SymBool, SymStr, bool, str)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (int, float, np.number)) and not isinstance(x, (np.complexfloating, complex)):
        return Num.of(x)
    if isinstance(x, ND) and x.ndim == 0:
        return elem(x.view(ND)[()])
    return x


def dtype_of_elem(x):
    if isinstance(x, (bool, SymBool, np.bool_)):
        return BOOL
    if isinstance(x, NInt):
        return x.dt
    if isinstance(x, Num):
        return I8 if x.isint else F8
    if isinstance(x, SymStr):
        return np.dtype('U%d' % max(1, max(len(s) for s in x.tab)))
    if isinstance(x, str):
        return np.dtype('U%d' % max(1, len(x)))
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, int):
        return I8
    if isinstance(x, float):
        return F8
    return OBJ


def cast_elem(x, dt):
    k = dt.kind
    if k == 'O':
        return x
    if k == 'f':
        x = elem(x)
        if isinstance(x, bool):
            return Num.of(1.0 if x else 0.0)
        if isinstance(x, SymBool):
            n = x.as_num()
            return Num(n.n, n.d, False)
        if isinstance(x, Num):
            r = Num(x.n, x.d, False)
            return N.num_round_to(r, dt.str[1:]) if dt.itemsize < 8 else r
        if isinstance(x, float):
            return x
        if isinstance(x, str):
            return Num.of(float(x))          # raises ValueError like numpy
        if isinstance(x, SymStr):
            return Num.of(float(x.value()))
        if x is None:
            raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
        return unmodelled('cast of %s to float' % type(x).__name__)
    if k in 'iu':
        x = elem(x)
        if isinstance(x, bool):
            return Num.of(int(x))
        if isinstance(x, SymBool):
            return x.as_num()
        if isinstance(x, Num):
            r = N.num_trunc(x)
            bits = dt.itemsize * 8
            if bits < 64:
                r = N.num_wrap(r, bits, k == 'i')
            return Num(r.n, r.d, True)
        if isinstance(x, str):
            return Num.of(int(x))
        return unmodelled('cast of %s to int' % type(x).__name__)
    if k == 'b':
        if isinstance(x, (SymStr, str)):
            return bool(x)
        if is_special(x):
            return True
        return SymBool.of(elem(x))
    if k in 'US':
        if isinstance(x, SymStr):
            n = dt.itemsize // (4 if k == 'U' else 1)
            return x.map(lambda s: s[:n]) if n else x
        if isinstance(x, str):
            n = dt.itemsize // (4 if k == 'U' else 1)
            return x[:n] if n else x
        if isinstance(x, Num):
            if x.is_const():
                return str(x)
            if x.isint:
                return str(int(x))
            return unmodelled('text of a symbolic number')
        if isinstance(x, SymBool):
            return str(bool(x))
        return str(x)
    return unmodelled('cast to %s' % dt)


def out_elem(x, dt):
    """A single element handed back to user code."""
    if isinstance(x, Num):
        if dt.kind in 'iu':
            if x.is_const():
                return dt.type(int(x.cval()))
            return sint(x) if dt.itemsize == 8 else NInt(x.n, x.d, dt)
        return x
    if isinstance(x, bool) and dt.kind == 'b':
        return np.bool_(x)
    if isinstance(x, float) and dt.kind == 'f':
        return np.float64(x)
    return x


# ------------------------------------------------------------------ the array class
class SymBytes:
    """The bytes of an array: only ever compared and hashed."""

    def __init__(self, items, dt):
        self.items, self.dt = items, dt

    def __eq__(self, o):
        if isinstance(o, bytes):
            return unmodelled('bytes of a symbolic array compared to bytes') if len(o) == len(self) else False
        if not isinstance(o, SymBytes) or len(o) != len(self):
            return False
        if self.dt != o.dt:
            a, b = self.concrete(), o.concrete()
            return a == b if a is not None and b is not None else \
                unmodelled('bytes of arrays of different types compared')
        return s_and([a == b for a, b in zip(self.items, o.items)])

    def concrete(self):
        if all(not isinstance(v, Num) or v.is_const() for v in self.items):
            return np.array([float(v.cval()) if isinstance(v, Num) else v for v in self.items]).astype(self.dt).tobytes()

    def __ne__(self, o):
        return s_not(self == o)

    def __hash__(self):
        return hash(len(self))

    def __len__(self):
        return len(self.items) * self.dt.itemsize

    def __bool__(self):
        return bool(self.items)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return unmodelled('bytes.' + n)


class SymArray(ND):
    __array_priority__ = 2000

    def __new__(cls, data, dt):
        a = np.asarray(data, dtype=object) if not (type(data) is ND and data.dtype == object) else data
        r = a.view(cls)
        r._dt = np.dtype(dt)
        r._own = ND.base.__get__(a) is None
        return r

    def __array_finalize__(self, obj):
        self._dt = getattr(obj, '_dt', None) or OBJ
        self._own = False

    @property
    def base(self):
        """None for an array of its own, else one and the same object for all views of one array."""
        if self._own:
            return None
        r = ND.base.__get__(self)
        while isinstance(r, ND) and ND.base.__get__(r) is not None:
            r = ND.base.__get__(r)
        return r

    @property
    def dtype(self):
        return self._dt

    @property
    def itemsize(self):
        return self._dt.itemsize

    @property
    def nbytes(self):
        return self._dt.itemsize * self.size

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return mapel(lambda x: Num.of(0), self, self._dt)

    def base_(self):
        return self.view(ND)

    # ---- element access
    def __getitem__(self, ix):
        ix = conc_index(ix)
        r = ND.__getitem__(self.view(ND), ix)
        if isinstance(r, ND) and r.dtype == object and not _is_elem_result(self, ix, r):
            fresh = r.base is None
            r = r.view(SymArray)
            r._dt = self._dt
            r._own = fresh
            return r
        return out_elem(r, self._dt)

    def __setitem__(self, ix, val):
        ix = conc_index(ix)
        dt = self._dt
        raw = self.view(ND)
        if isinstance(val, SymSparse):
            val = val.toarray()
        if isinstance(val, (list, tuple)):
            val = asarr(val)
        if isinstance(val, ND):
            v = _vmap(lambda e: cast_elem(e, dt), to_obj(val))
        else:
            v = np.empty((), dtype=object)
            v[()] = cast_elem(val, dt)
        if not isinstance(raw[ix], ND):
            # a single position: store the element itself
            if v.size != 1:
                raise ValueError('setting an array element with a sequence.')
            raw[ix] = v.reshape(-1)[0]
        else:
            raw[ix] = v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, v):
        return bool((self == v).any())

    def __bool__(self):
        if self.size == 1:
            return bool(SymBool.of(self.view(ND).reshape(-1)[0]))
        raise ValueError('The truth value of an array with more than one element is ambiguous. '
                         'Use a.any() or a.all()')

    def __float__(self):
        if self.size != 1:
            raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
        return float(self.view(ND).reshape(-1)[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
        return int(self.view(ND).reshape(-1)[0])

    def __index__(self):
        if self.ndim or self._dt.kind not in 'iu':
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return int(self)

    def __repr__(self):
        return 'SymArray(%s, %s)' % (self.shape, self._dt)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        return (SymArray, (self.view(ND).copy(), self._dt))

    def __deepcopy__(self, memo):
        return SymArray(self.view(ND).copy(), self._dt)

    def __copy__(self):
        return SymArray(self.view(ND).copy(), self._dt)

    def item(self, *a):
        r = self.view(ND).item(*a)
        if isinstance(r, Num) and self._dt.kind in 'iu' and r.is_const():
            return int(r.cval())
        return r

    def tolist(self):
        def conv(x):
            if isinstance(x, list):
                return [conv(e) for e in x]
            if isinstance(x, Num) and x.isint and x.is_const():
                return int(x.cval())
            return x
        return conv(self.view(ND).tolist())

    def tobytes(self, *a):
        return SymBytes(list(self.view(ND).ravel()), self._dt)
    tostring = tobytes

    def fill(self, v):
        self[...] = v

    def astype(self, dt, order='K', casting='unsafe', subok=True, copy=True):
        dt = np.dtype(dt)
        if dt.kind == 'U' and dt.itemsize == 0:
            dt = self._dt if self._dt.kind == 'U' else np.dtype('U32')
        if dt.kind == 'V' or dt.kind == 'c':
            return unmodelled('astype %s' % dt)
        if not copy and dt == self._dt:
            return self
        return SymArray(_vmap(lambda e: cast_elem(e, dt), self.view(ND)), dt)

    def copy(self, order='C'):
        return SymArray(self.view(ND).copy(order), self._dt)

    def view(self, *a, **k):
        if a and a[0] in (ND, SymArray):
            return ND.view(self, a[0])
        if not a and not k:
            return ND.view(self)
        return unmodelled('array view')

    # ---- arithmetic through ufuncs
    def _inplace(uf):
        def op(self, o):
            r = ufunc(uf, '__call__', (self, o), {'out': (self,)})
            return r
        return op
    __iadd__, __isub__, __imul__ = _inplace(np.add), _inplace(np.subtract), _inplace(np.multiply)
    __itruediv__, __ipow__ = _inplace(np.true_divide), _inplace(np.power)
    __ifloordiv__, __imod__ = _inplace(np.floor_divide), _inplace(np.remainder)
    del _inplace

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        from . import npx
        return npx.array_function(func, args, kw)

    # ---- methods
    def dot(self, o, out=None):
        return dot(self, o)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_(np.add, self, axis, keepdims, initial, where, dtype)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_(np.multiply, self, axis, keepdims, initial, where, dtype)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.logical_or, self, axis, keepdims, None, True)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.logical_and, self, axis, keepdims, None, True)

    def max(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_(np.maximum, self, axis, keepdims, initial, where)

    def min(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_(np.minimum, self, axis, keepdims, initial, where)

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        n = self.size if axis is None else _axlen(self, axis)
        a = self if self._dt.kind == 'f' else self.astype(F8)
        return a.sum(axis, keepdims=keepdims) / n

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        n = self.size if axis is None else _axlen(self, axis)
        d = self - self.mean(axis, keepdims=True)
        return (d * d).sum(axis, keepdims=keepdims) / (n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return call(np.sqrt, self.var(axis, ddof=ddof, keepdims=keepdims))

    def cumsum(self, axis=None, dtype=None, out=None):
        return ufunc(np.add, 'accumulate', (self.ravel() if axis is None else self,), {'axis': axis or 0})

    def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
        return self.diagonal(offset, axis1, axis2).sum()

    def clip(self, min=None, max=None, out=None, **k):
        r = self
        if min is not None:
            r = call(np.maximum, r, min)
        if max is not None:
            r = call(np.minimum, r, max)
        return r

    def round(self, decimals=0, out=None):
        if self._dt.kind in 'iu' and decimals >= 0:
            return self
        return mapel(lambda x: round_sym(x, decimals), self, self._dt)

    def conj(self):
        return self
    conjugate = conj

    def argmax(self, axis=None, out=None, keepdims=False):
        return argbest(self, axis, lambda a, b: a > b)

    def argmin(self, axis=None, out=None, keepdims=False):
        return argbest(self, axis, lambda a, b: a < b)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        if self.ndim != 1:
            return unmodelled('argsort of a %d-d array' % self.ndim)
        return np.array(_argsort(list(self.view(ND))), dtype=np.intp)

    def sort(self, axis=-1, **k):
        self[...] = self[self.argsort()]

    def nonzero(self):
        return mask_of(self).nonzero()

    def searchsorted(self, *a, **k):
        return unmodelled('searchsorted')

    def cumprod(self, axis=None, dtype=None, out=None):
        return ufunc(np.multiply, 'accumulate', (self.ravel() if axis is None else self,), {'axis': axis or 0})


def _is_elem_result(a, ix, r):
    """Did integer indexing return a stored object that happens to be an array?"""
    return False


def round_sym(x, decimals):
    if isinstance(x, Num) and x.is_const():
        return Num.of(round(float(x.cval()), decimals))
    if isinstance(x, Num):
        return N.num_round_to(x, 'dec%d' % decimals)
    return x


def _axlen(a, axis):
    if isinstance(axis, tuple):
        n = 1
        for x in axis:
            n *= a.shape[x]
        return n
    return a.shape[axis]


def _vmap(f, raw):
    out = np.empty(raw.shape, dtype=object)
    of, rf = out.reshape(-1) if out.ndim else None, raw.reshape(-1)
    if out.ndim == 0:
        out[()] = f(raw[()])
        return out
    for i in range(rf.shape[0]):
        of[i] = f(rf[i])
    return out


def mapel(f, a, dt):
    return SymArray(_vmap(f, a.view(ND)), dt)


def to_obj(a):
    """Object ndarray of canonical elements for any array."""
    if isinstance(a, SymArray):
        return a.view(ND)
    return _vmap(elem, np.asarray(a).astype(object) if not a.dtype == object else np.asarray(a))


def wrap_const(a, force=False):
    """A plain numpy array becomes symbolic when it holds floats (or when asked to)."""
    if isinstance(a, SymArray) or not isinstance(a, ND):
        return a
    if a.dtype.kind == 'f' or (force and a.dtype.kind in 'biuUO'):
        return SymArray(to_obj(a), a.dtype if a.dtype != OBJ else OBJ)
    return a


def _walk(obj, out):
    """Nested lists to (shape, flat leaves); mirrors numpy's discovery of nested sequences."""
    if isinstance(obj, ND):
        raw = obj.view(ND) if isinstance(obj, SymArray) else obj
        out.extend(raw.reshape(-1).tolist() if obj.dtype.kind != 'O' and not isinstance(obj, SymArray)
                   else list(raw.reshape(-1)))
        return obj.shape
    if isinstance(obj, (list, tuple, range)):
        shp = None
        for x in obj:
            s = _walk(x, out)
            if shp is None:
                shp = s
            elif s != shp:
                raise ValueError('setting an array element with a sequence. The requested array has '
                                 'an inhomogeneous shape after 1 dimensions.')
        return (len(obj),) + (shp or ())
    out.append(obj)
    return ()


def has_sym(obj, depth=0):
    if is_sym(obj):
        return True
    if isinstance(obj, (list, tuple)) and depth < 5:
        return any(has_sym(x, depth + 1) for x in obj)
    if isinstance(obj, ND) and obj.dtype == object:
        return any(is_sym(x) for x in obj.reshape(-1))
    return False


def array_dtypes(obj, acc):
    if isinstance(obj, ND):
        acc.append(obj.dtype)
    elif isinstance(obj, (list, tuple)):
        for x in obj:
            array_dtypes(x, acc)
    else:
        acc.append(dtype_of_elem(obj))


def asarr(obj, dtype=None, copy=True, ndmin=0):
    """np.array for anything; symbolic when it holds symbols or floats."""
    dt = None if dtype is None else np.dtype(dtype)
    if isinstance(obj, SymSparse):
        z = np.empty((), dtype=object)
        z[()] = obj
        return z
    if isinstance(obj, SymArray):
        r = obj if dt is None or dt == obj.dtype else obj.astype(dt)
        if r is obj and copy:
            r = obj.copy()
        return _ndmin(r, ndmin)
    if not has_sym(obj):
        if hasattr(obj, '__iter__') and not isinstance(obj, (list, tuple, ND, str, range, dict, set)):
            pass
        r = np.array(obj, dtype=dt, ndmin=ndmin) if copy else np.asarray(obj, dtype=dt)
        return wrap_const(r)
    if isinstance(obj, ND):
        o = to_obj(obj)
        dts = [dtype_of_elem(x) for x in o.reshape(-1)]
        d = dt or _common(dts)
        return _ndmin(SymArray(_vmap(lambda e: cast_elem(e, d), o), d), ndmin)
    leaves = []
    shape = _walk(obj, leaves)
    if dt is None:
        acc = []
        array_dtypes(obj, acc)
        dt = _common(acc)
    raw = np.empty(len(leaves), dtype=object)
    for i, x in enumerate(leaves):
        raw[i] = cast_elem(elem(x), dt)
    return _ndmin(SymArray(raw.reshape(shape), dt), ndmin)


def _ndmin(r, ndmin):
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


def _common(dts):
    d = None
    for x in set(dts):
        d = x if d is None else np.result_type(d, x)
    return d if d is not None else F8


def conc_bool(x):
    return bool(x)


def mask_of(a):
    """Concrete boolean mask (each undetermined element is decided by forking)."""
    raw = to_obj(a)
    out = np.empty(raw.shape, dtype=bool)
    flat = out.reshape(-1)
    for i, x in enumerate(raw.reshape(-1)):
        flat[i] = True if is_special(x) else bool(SymBool.of(x))
    return out


def conc_index(ix):
    if isinstance(ix, tuple):
        return tuple(conc_index(i) for i in ix)
    if isinstance(ix, SymArray):
        if ix.dtype.kind == 'b':
            return mask_of(ix)
        if ix.dtype.kind in 'iu':
            return np.array([int(x) for x in ix.view(ND).reshape(-1)], dtype=np.intp).reshape(ix.shape)
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(ix, Num):
        if not ix.isint:
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) '
                             'and integer or boolean arrays are valid indices')
        return int(ix)
    if isinstance(ix, SymBool):
        return bool(ix)
    if isinstance(ix, slice):
        f = (lambda v: int(v) if isinstance(v, Num) else v)
        return slice(f(ix.start), f(ix.stop), f(ix.step))
    if isinstance(ix, list) and has_sym(ix):
        return conc_index(asarr(ix))
    return ix


# ------------------------------------------------------------------ scalar semantics of ufuncs
def _n(x):
    if isinstance(x, (SymBool, bool, np.bool_)):
        return Num.of(1 if x is True else 0) if not isinstance(x, SymBool) else x.as_num()
    return x


def _bin(op):
    def f(a, b):
        a, b = _n(a), _n(b)
        if isinstance(a, float) and isinstance(b, float):
            with np.errstate(all='ignore'):
                return float(op(np.float64(a), np.float64(b)))
        return op(a, b)
    return f


def _cmp(op):
    def f(a, b):
        if isinstance(a, (SymStr, str)) or isinstance(b, (SymStr, str)):
            return op(a, b)
        return op(_n(a), _n(b))
    return f


def s_max(a, b, nanprop=True):
    return _ext(a, b, 1, nanprop)


def s_min(a, b, nanprop=True):
    return _ext(a, b, -1, nanprop)


def _ext(a, b, sg, nanprop):
    a, b = _n(a), _n(b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, float):
            if x != x:
                return x if nanprop else y
            if isinstance(y, float) and y != y:
                return y if nanprop else x
            if isinstance(y, Num):
                return x if (x > 0) == (sg > 0) else y
            return max(x, y) if sg > 0 else min(x, y)
    d = a - b
    if d.is_const():
        return a if (d.cval() >= 0) == (sg > 0) else b
    k = N.ctx().known_sign(d)
    if k is not None:
        return a if k == sg or k * sg > 0 else b
    r = (a + b + N.num_abs(d) * sg) / 2
    return Num(r.n, r.d, a.isint and b.isint)


def s_sign(a):
    a = _n(a)
    if isinstance(a, float):
        return a if a != a else Num.of(math.copysign(1.0, a))
    p, q = a > 0, a < 0
    v = lambda s: s.as_num() if isinstance(s, SymBool) else Num.of(int(s))
    r = v(p) - v(q)
    return Num(r.n, r.d, a.isint)


def s_ite(c, a, b):
    """Elementwise where."""
    c = SymBool.of(c)
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, Num) and isinstance(b, Num):
        if a.key() == b.key():
            return a
        ci = c.as_num()
        r = b + ci * (a - b)
        return Num(r.n, r.d, a.isint and b.isint)
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return s_or([s_and([c, a]), s_and([s_not(c), b])])
    return a if bool(c) else b


def _unary(f):
    return lambda a: f(_n(a))


def _sq(a):
    return a * a if not isinstance(a, float) else a * a


def _isfin(a):
    return not is_special(a)


def _isnan(a):
    return isinstance(a, float) and a != a


def _isinf(a):
    return is_special(a) and a == a


def _int2(op):
    def f(a, b):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return op(a, b) if not (isinstance(a, bool) and isinstance(b, bool)) else bool(op(a, b))
        return Num.of(op(int(a), int(b)))
    return f


def _inv(a):
    if isinstance(a, bool):
        return not a
    if isinstance(a, SymBool):
        return ~a
    return Num.of(~int(a))


def _pow(a, b):
    a, b = _n(a), _n(b)
    if isinstance(a, Num) and isinstance(b, Num):
        return N.num_pow(a, b)
    if isinstance(a, float) and isinstance(b, float):
        return float(np.power(np.float64(a), np.float64(b)))
    if isinstance(a, float):
        return N.num_pow(a, b)
    return unmodelled('power with a special exponent')


def _exp(a):
    return N.num_exp(_n(a))


def _log(a):
    a = _n(a)
    if isinstance(a, float):
        return a if a != a or a > 0 else math.nan
    if a.is_const() and a.cval() == 1:
        return Num.of(0.0)
    return N.num_uf('log', a)


def _hyp(which):
    def f(a):
        e, g = N.num_exp(a), N.num_exp(-a)
        return (e - g) / 2 if which == 's' else (e + g) / 2
    return f


def _uf(name):
    def f(a):
        a = _n(a)
        if isinstance(a, float):
            return unmodelled('%s of a special value' % name)
        if a.is_const():
            return Num.of(float(getattr(np, name)(float(a.cval()))))
        return N.num_uf(name, a)
    return f


def _floor(a):
    return Num(*_nd(N.num_floor(a))) if isinstance(a, Num) else a


def _nd(x):
    return x.n, x.d, False


def _rint(a):
    return round_sym(a, 0)


def _neg(a):
    if isinstance(a, (bool, SymBool)):
        raise TypeError('The numpy boolean negative, the `-` operator, is not supported, '
                        'use the `~` operator or the logical_not function instead.')
    return -a


def _subtract(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        raise TypeError('numpy boolean subtract, the `-` operator, is not supported, use the '
                        'bitwise_xor, the `^` operator, or the logical_xor function instead.')
    return _bin(operator.sub)(a, b)


def _addb(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return s_or([a, b])
    if isinstance(a, (str, SymStr)):
        return a + b
    return _bin(operator.add)(a, b)


def _mulb(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return s_and([a, b])
    return _bin(operator.mul)(a, b)


def _absb(a):
    return a if isinstance(a, (bool, SymBool)) else abs(a)


def _xor(a, b):
    a, b = SymBool.of(a), SymBool.of(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    return a ^ b


def _b(x):
    """Truth of an element, NaN is true."""
    return True if is_special(x) else SymBool.of(x)


SC = {
    'add': _addb, 'subtract': _subtract, 'multiply': _mulb,
    'divide': _bin(operator.truediv), 'true_divide': _bin(operator.truediv),
    'floor_divide': _bin(operator.floordiv), 'remainder': _bin(operator.mod),
    'mod': _bin(operator.mod), 'power': _pow, 'float_power': _pow, 'pow': _pow,
    'negative': _neg, 'positive': lambda a: a, 'absolute': _absb, 'fabs': _absb, 'abs': _absb,
    'sqrt': _unary(N.num_sqrt), 'square': _unary(_sq), 'exp': _exp,
    'exp2': lambda a: _pow(Num.of(2.0), a), 'expm1': lambda a: _exp(a) - 1, 'log': _log,
    'log1p': lambda a: _log(a + 1), 'log2': lambda a: _log(a) / math.log(2),
    'log10': lambda a: _log(a) / math.log(10), 'tanh': _unary(N.num_tanh),
    'sinh': _hyp('s'), 'cosh': _hyp('c'), 'reciprocal': lambda a: Num.of(1.0) / a,
    'maximum': s_max, 'minimum': s_min, 'fmax': lambda a, b: s_max(a, b, False),
    'fmin': lambda a, b: s_min(a, b, False), 'sign': s_sign,
    'equal': _cmp(operator.eq), 'not_equal': _cmp(operator.ne), 'less': _cmp(operator.lt),
    'less_equal': _cmp(operator.le), 'greater': _cmp(operator.gt),
    'greater_equal': _cmp(operator.ge),
    'logical_and': lambda a, b: s_and([_b(a), _b(b)]), 'logical_or': lambda a, b: s_or([_b(a), _b(b)]),
    'logical_not': lambda a: s_not(_b(a)), 'logical_xor': _xor,
    'isfinite': _isfin, 'isnan': _isnan, 'isinf': _isinf,
    'bitwise_and': _int2(operator.and_), 'bitwise_or': _int2(operator.or_),
    'bitwise_xor': _int2(operator.xor), 'invert': _inv, 'bitwise_not': _inv,
    'conjugate': lambda a: a, 'floor': _floor, 'ceil': lambda a: -_floor(-a),
    'trunc': lambda a: Num(*_nd(N.num_trunc(a))) if isinstance(a, Num) else a, 'rint': _rint,
    'hypot': lambda a, b: N.num_sqrt(a * a + b * b),
    'signbit': lambda a: (a < 0) if isinstance(a, Num) else math.copysign(1, a) < 0,
    'copysign': lambda a, b: s_ite(b >= 0, abs(a), -abs(a)),
    'heaviside': lambda a, b: s_ite(a > 0, Num.of(1.0), s_ite(a < 0, Num.of(0.0), b)),
    'cbrt': lambda a: s_sign(a) * _pow(abs(a), Num.of(1 / 3)),
}
for _nm in ('sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos', 'arcsinh', 'arccosh', 'arctanh'):
    SC[_nm] = _uf(_nm)


def arg_dtype(x):
    """What resolve_dtypes should see for this operand."""
    if isinstance(x, ND):
        return x.dtype
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, (bool, SymBool)):
        return BOOL
    if isinstance(x, Num):
        if type(x) is NInt:
            return x.dt
        return int if x.isint and type(x) is not SInt else (I8 if x.isint else F8)
    if isinstance(x, (SymStr, str)):
        return dtype_of_elem(x)
    if isinstance(x, int):
        return int
    if isinstance(x, float):
        return float
    return OBJ


def result_dtype(uf, ins):
    nm = uf.__name__
    if nm in ('equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'logical_and',
              'logical_or', 'logical_not', 'logical_xor', 'isfinite', 'isnan', 'isinf', 'signbit'):
        return BOOL, None
    ds = [arg_dtype(x) for x in ins]
    if any(d is OBJ or (isinstance(d, np.dtype) and d.kind == 'O') for d in ds):
        return OBJ, None
    if nm == 'matmul':
        pass
    if all(isinstance(d, type) for d in ds):
        ds = [I8 if d is int else F8 for d in ds]
    try:
        r = uf.resolve_dtypes(tuple(ds) + (None,) * uf.nout)
    except TypeError:
        raise
    return r[-1], r[:-1]


def _wrapcast(x, dt):
    """Result of a machine operation of this dtype."""
    if dt.kind in 'iu':
        if is_special(x):
            return unmodelled('special value in an integer result')
        x = _n(x)
        if dt.itemsize < 8:
            return N.num_wrap(Num(x.n, x.d, True), dt.itemsize * 8, dt.kind == 'i')
        return Num(x.n, x.d, True)
    if dt.kind == 'f':
        return cast_elem(x, dt)
    return x


def ufunc(uf, method, inputs, kw):
    nm = uf.__name__
    ins = []
    for x in inputs:
        if isinstance(x, (list, tuple)):
            x = asarr(x)
        if isinstance(x, SymSparse):
            return NotImplemented
        if not isinstance(x, (ND, Num, SymBool, SymStr, np.generic, int, float, bool, str)) and x is not None:
            if hasattr(type(x), '__array_ufunc__') or not np.isscalar(x):
                return NotImplemented
        ins.append(x)
    if method == 'reduce':
        return reduce_(uf, ins[0], kw.get('axis', 0), kw.get('keepdims', False), kw.get('initial'),
                       kw.get('where', True), kw.get('dtype'))
    if method == 'outer':
        a, b = [asarr(x) for x in ins]
        return ufunc(uf, '__call__', (a.reshape(a.shape + (1,) * b.ndim), b), kw)
    if method == 'accumulate':
        a = asarr(ins[0], copy=False)
        ax = kw.get('axis', 0)
        if ax < 0:
            ax += a.ndim
        raw = np.moveaxis(to_obj(a), ax, 0)
        out = np.empty(raw.shape, dtype=object)
        dt, _ = result_dtype(uf, [a, a])
        f = SC.get(nm) or unmodelled('ufunc ' + nm)
        for i in range(raw.shape[0]):
            if i == 0:
                out[0] = raw[0]
            else:
                x, y = SymArray(np.asarray(out[i - 1], dtype=object), a.dtype), SymArray(np.asarray(raw[i], dtype=object), a.dtype)
                r = ufunc(uf, '__call__', (x, y), {})
                out[i] = r.view(ND) if isinstance(r, ND) else r
        return SymArray(np.moveaxis(out, 0, ax), dt)
    if method == 'at':
        return unmodelled('ufunc.at')
    if method != '__call__':
        return unmodelled('ufunc method ' + method)
    if nm == 'matmul':
        return dot(ins[0], ins[1], mm=True)
    f = SC.get(nm)
    if f is None:
        return unmodelled('ufunc ' + nm)
    if nm in ('conjugate', 'positive') and len(ins) == 1 and not isinstance(ins[0], ND):
        return ins[0]
    dt, ind = result_dtype(uf, ins)
    if kw.get('dtype') is not None:
        dt = np.dtype(kw['dtype'])
        ind = None
    if nm == 'power' and dt.kind in 'iu':
        e = to_obj(asarr(ins[1], copy=False)) if not isinstance(ins[1], Num) else None
        es = e.reshape(-1) if e is not None else [ins[1]]
        for v in es:
            if bool(_n(v) < 0):
                raise ValueError('Integers to negative integer powers are not allowed.')
    raws = []
    for i, x in enumerate(ins):
        if isinstance(x, ND):
            raw = to_obj(x)
        else:
            raw = np.empty((), dtype=object)
            raw[()] = elem(x)
        if ind is not None and dt.kind != 'O' and ind[i] is not None and ind[i].kind in 'iufb':
            want = ind[i]
            have = x.dtype if isinstance(x, ND) else None
            if have is None or have != want:
                if want.kind == 'f' and have is not None and have.kind in 'iub' or \
                        (want.kind == 'f' and want.itemsize == 8 and have is None):
                    raw = _vmap(lambda e: cast_elem(e, want), raw)
        raws.append(raw)
    scalar = all(r.ndim == 0 for r in raws) and not any(isinstance(x, ND) for x in ins)
    bc = np.broadcast_arrays(*raws) if len(raws) > 1 else raws
    out = np.empty(bc[0].shape, dtype=object)
    wh = kw.get('where', True)
    outk = kw.get('out')
    if isinstance(outk, tuple):
        outk = outk[0]
    whm = None if wh is True else np.broadcast_to(mask_of(asarr(wh, copy=False)), bc[0].shape)
    it = np.ndindex(*bc[0].shape)
    for ix in it:
        if whm is not None and not whm[ix]:
            out[ix] = to_obj(outk)[ix] if outk is not None else math.nan
            continue
        out[ix] = _wrapcast(f(*[b[ix] for b in bc]), dt)
    if outk is not None:
        if not isinstance(outk, SymArray):
            return unmodelled('ufunc output into a plain array')
        if not np.can_cast(dt, outk.dtype, 'same_kind'):
            raise TypeError("Cannot cast ufunc '%s' output from %r to %r with casting rule 'same_kind'"
                            % (nm, dt, outk.dtype))
        outk[...] = SymArray(out, dt)
        return outk
    if out.ndim == 0:
        return out_elem(out[()], dt)
    return SymArray(out, dt)


def call(uf, *args, **kw):
    return ufunc(uf, '__call__', args, kw)


IDENT = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False}


def reduce_(uf, a, axis=None, keepdims=False, initial=None, where=True, dtype=None):
    a = asarr(a, copy=False)
    nm = uf.__name__
    f = SC.get(nm) or unmodelled('reduce ' + nm)
    raw = to_obj(a)
    if nm in ('logical_and', 'logical_or'):
        dt = BOOL
    elif nm in ('add', 'multiply'):
        dt = a.dtype
        if dt.kind == 'b' or (dt.kind == 'i' and dt.itemsize < 8):
            dt = I8
        elif dt.kind == 'u' and dt.itemsize < 8:
            dt = np.dtype('u8')
    else:
        dt = a.dtype
    if dtype is not None:
        dt = np.dtype(dtype)
    if dt.kind in 'iuf' and a.dtype != dt:
        raw = _vmap(lambda e: cast_elem(e, dt), raw)
    if where is not True:
        wm = np.broadcast_to(mask_of(asarr(where, copy=False)), raw.shape)
    else:
        wm = None
    if axis is None:
        axes = tuple(range(raw.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % raw.ndim for x in axis)
    else:
        if not -raw.ndim <= int(axis) < max(raw.ndim, 1):
            raise np.exceptions.AxisError(int(axis), raw.ndim)
        axes = (int(axis) % raw.ndim,) if raw.ndim else ()
    rest = tuple(i for i in range(raw.ndim) if i not in axes)
    t = raw.transpose(rest + axes)
    rs = t.shape[:len(rest)]
    m = t.reshape((int(np.prod(rs)) if rs else 1, -1)) if raw.size else np.empty(
        (int(np.prod(rs)) if rs else 1, 0), dtype=object)
    wmm = wm.transpose(rest + axes).reshape(m.shape) if wm is not None else None
    res = np.empty(m.shape[0], dtype=object)
    for i in range(m.shape[0]):
        xs = [m[i, j] for j in range(m.shape[1]) if wmm is None or wmm[i, j]]
        res[i] = _fold(nm, f, xs, dt, initial)
    out = res.reshape(rs)
    if keepdims:
        out = out.reshape(tuple(1 if i in axes else raw.shape[i] for i in range(raw.ndim)))
    if out.ndim == 0:
        return out_elem(out[()], dt)
    return SymArray(out, dt)


def _fold(nm, f, xs, dt, initial):
    if nm == 'logical_and':
        return s_and([_b(x) for x in xs])
    if nm == 'logical_or':
        return s_or([_b(x) for x in xs])
    if not xs and initial is None:
        if nm in IDENT:
            return cast_elem(Num.of(IDENT[nm]), dt)
        raise ValueError('zero-size array to reduction operation %s which has no identity' % nm)
    acc = elem(initial) if initial is not None else None
    if nm in ('maximum', 'minimum', 'fmax', 'fmin') and len(xs) > 1 and \
            any(isinstance(x, Num) and not x.is_const() for x in xs):
        return extremum(nm, xs + ([acc] if acc is not None else []))
    for x in xs:
        acc = x if acc is None else _wrapcast(f(acc, x), dt)
    return acc


def extremum(nm, xs):
    """max/min of several values: a defined atom."""
    nanprop = nm in ('maximum', 'minimum')
    sg = 1 if nm in ('maximum', 'fmax') else -1
    if any(isinstance(x, float) for x in xs):
        acc = xs[0]
        for x in xs[1:]:
            acc = _ext(acc, x, sg, nanprop)
        return acc
    uniq = []
    for x in xs:
        if not any(x.key() == y.key() for y in uniq):
            uniq.append(x)
    if len(uniq) == 1:
        return uniq[0]
    if len(uniq) == 2:
        return _ext(uniq[0], uniq[1], sg, nanprop)
    import z3
    c = N.ctx()
    isint = all(x.isint for x in uniq)
    at = c.defined('max' if sg > 0 else 'min', frozenset(x.key() for x in uniq), isint)
    if at.arg is None:
        at.arg = uniq
        zs = [c.zpoly_of(x, at) for x in uniq]
        at.defs += [(at.zr() >= z) if sg > 0 else (at.zr() <= z) for z in zs]
        at.defs.append(z3.Or(*[at.zr() == z for z in zs]))
    return Num(N.Poly.atom(at.id), N.P1, isint)


def argbest(a, axis, better):
    if axis is not None and a.ndim > 1:
        return unmodelled('argmax along an axis')
    xs = list(to_obj(a).reshape(-1))
    if not xs:
        raise ValueError('attempt to get argmax of an empty sequence')
    for i, x in enumerate(xs):
        if _isnan(x):
            return np.intp(i)
    b = 0
    for i in range(1, len(xs)):
        if bool(SymBool.of(better(xs[i], xs[b]))):
            b = i
    return np.intp(b)


def _argsort(xs):
    import functools

    def c(i, j):
        a, b = xs[i], xs[j]
        if _isnan(a) or _isnan(b):
            return (1 if _isnan(a) else 0) - (1 if _isnan(b) else 0)
        if bool(SymBool.of(a < b)):
            return -1
        if bool(SymBool.of(b < a)):
            return 1
        return 0
    return sorted(range(len(xs)), key=functools.cmp_to_key(c))


def dot(a, b, mm=False):
    if isinstance(a, SymSparse) or isinstance(b, SymSparse):
        return unmodelled('product with a sparse matrix')
    a, b = asarr(a, copy=False), asarr(b, copy=False)
    if a.ndim == 0 or b.ndim == 0:
        if mm:
            raise ValueError('matmul: Input operand does not have enough dimensions')
        return call(np.multiply, a, b)
    if a.ndim > 2 or b.ndim > 2:
        return unmodelled('product of more than 2 dimensions')
    ka = a.shape[-1]
    kb = b.shape[0] if b.ndim == 1 else b.shape[-2]
    if ka != kb:
        raise ValueError('shapes %s and %s not aligned: %d (dim %d) != %d (dim 0)'
                         % (a.shape, b.shape, ka, a.ndim - 1, kb))
    if 'O' in (a.dtype.kind, b.dtype.kind):
        dt = OBJ
    else:
        dt = np.result_type(a.dtype, b.dtype)
    if dt.kind in 'US':
        raise TypeError("ufunc 'multiply' did not contain a loop with signature matching types")
    ra, rb = to_obj(a), to_obj(b)
    A = ra.reshape(1, -1) if ra.ndim == 1 else ra
    B = rb.reshape(-1, 1) if rb.ndim == 1 else rb
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    mul, add = SC['multiply'], SC['add']

    def zero(x):
        return isinstance(x, Num) and not x.n.t
    fin = all(isinstance(x, Num) for x in A.flat) and all(isinstance(x, Num) for x in B.flat)
    nzb = [{k for k in range(ka) if not zero(B[k, j])} if fin else range(ka) for j in range(B.shape[1])]
    for i in range(A.shape[0]):
        nza = {k for k in range(ka) if not zero(A[i, k])} if fin else None
        for j in range(B.shape[1]):
            acc = None
            for k in (nzb[j] if nza is None else sorted(nza.intersection(nzb[j]))):
                x, y = A[i, k], B[k, j]
                t = mul(x, y)
                acc = t if acc is None else add(acc, t)
            if acc is None:
                acc = Num.of(0)
            out[i, j] = _wrapcast(acc, dt) if dt.kind in 'iu' else (
                cast_elem(acc, dt) if dt.kind == 'f' else acc)
    shape = (() if a.ndim == 1 else (a.shape[0],)) + (() if b.ndim == 1 else (b.shape[1],))
    out = out.reshape(shape)
    if out.ndim == 0:
        return out_elem(out[()], dt)
    return SymArray(out, dt)


# ------------------------------------------------------------------ sparse matrices
class SymSparse:
    """scipy.sparse.lil_matrix / csr_matrix as far as this package uses it (matrix semantics)."""
    __array_priority__ = 3000
    __array_ufunc__ = None
    ndim = 2

    def __init__(self, arg, dtype=None, shape=None, copy=False, fmt='lil'):
        if isinstance(arg, SymSparse):
            self._a = arg._a.copy()
        elif isinstance(arg, tuple) and len(arg) == 2 and all(isinstance(x, (int, np.integer)) for x in arg):
            from . import npx
            self._a = npx.P.zeros(arg, dtype=dtype or F8)
        else:
            a = asarr(arg)
            if a.ndim != 2:
                a = a.reshape(1, -1)
            self._a = wrap_const(a, force=True)
        if dtype is not None and self._a.dtype != np.dtype(dtype):
            self._a = self._a.astype(dtype)
        self.format = fmt

    @property
    def shape(self):
        return self._a.shape

    @property
    def dtype(self):
        return self._a.dtype

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *a, **k):
        return SymSparse(self._a.T.copy(), fmt=self.format)

    @property
    def nnz(self):
        return int(mask_of(self._a != 0).sum())
    size = nnz

    def todense(self, *a, **k):
        return SymMatrix(self._a.copy())

    def toarray(self, *a, **k):
        return self._a.copy()
    A = property(lambda self: self.toarray())

    def copy(self):
        return SymSparse(self)

    def tolil(self, copy=False):
        return SymSparse(self)

    def tocsr(self, copy=False):
        return SymSparse(self, fmt='csr')
    tocsc = tocoo = tocsr

    def diagonal(self, k=0):
        return self._a.diagonal(k).copy()

    def sum(self, axis=None):
        return self._a.sum(axis)

    def __getitem__(self, ix):
        r = self._a[ix]
        if isinstance(r, SymArray):
            if r.ndim == 1:
                r = r.reshape(1, -1)
            return SymSparse(r, fmt=self.format)
        return r

    def __setitem__(self, ix, v):
        if isinstance(v, SymSparse):
            v = v._a
            if isinstance(ix, tuple) and isinstance(ix[0], ND) and ix[0].ndim == 1:
                v = v.reshape(-1)
        self._a[ix] = v

    def multiply(self, o):
        return SymSparse(self._a * (o._a if isinstance(o, SymSparse) else o), fmt=self.format)

    def dot(self, o):
        return SymSparse(dot(self._a, o._a), fmt=self.format) if isinstance(o, SymSparse) else dot(self._a, o)
    __matmul__ = dot
    __mul__ = dot

    def __rmatmul__(self, o):
        return dot(o, self._a)

    def __add__(self, o):
        if isinstance(o, SymSparse):
            return SymSparse(self._a + o._a, fmt=self.format)
        if isinstance(o, ND):
            return SymMatrix(self._a + o)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SymSparse):
            return SymSparse(self._a - o._a, fmt=self.format)
        if isinstance(o, ND):
            return SymMatrix(self._a - o)
        return NotImplemented

    def __len__(self):
        raise TypeError('sparse array length is ambiguous; use getnnz() or shape[0] etc.')

    def __bool__(self):
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in ('_full', 'kernel', 'num_samples'):
            raise AttributeError(name)
        return unmodelled('sparse.' + name)

    def __deepcopy__(self, memo):
        return SymSparse(self)
    __copy__ = __deepcopy__


class SymMatrix(SymArray):
    """np.matrix: always two-dimensional, * is the matrix product."""

    def __new__(cls, a):
        r = ND.view(a.view(ND), cls)
        r._dt = a._dt
        return r

    def __mul__(self, o):
        if isinstance(o, (ND, list, tuple)):
            return SymMatrix(dot(self, o))
        return SymMatrix(call(np.multiply, self, o))

    def __rmul__(self, o):
        if isinstance(o, (ND, list, tuple)):
            return SymMatrix(dot(o, self))
        return SymMatrix(call(np.multiply, o, self))

    def __getitem__(self, ix):
        r = SymArray.__getitem__(self, ix)
        if isinstance(r, SymArray) and r.ndim == 1:
            r = SymArray(r.view(ND).reshape(1, -1), self._dt)
        return SymMatrix(r) if isinstance(r, SymArray) else r

    def ravel(self, *a):
        return SymMatrix(SymArray(self.view(ND).reshape(1, -1), self._dt))

    def diagonal(self, *a):
        return SymMatrix(SymArray(self.view(ND).diagonal(*a).reshape(1, -1).copy(), self._dt))

    @property
    def A(self):
        return SymArray(self.view(ND), self._dt)

    def __deepcopy__(self, memo):
        return SymMatrix(SymArray(self.view(ND).copy(), self._dt))
