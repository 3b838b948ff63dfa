"""Loads /repo/kernelmethods from its current source so that it runs on symbolic values.

The source is compiled as it is, except that calls of a few builtins (isinstance, type, float,
any, all, round, sum, abs...) are redirected to shims that understand symbolic operands, and that
`import` statements are answered with the numpy/scipy/sklearn stand-ins.
"""
import ast
import builtins
import os
import sys
import types
import importlib
import numbers

import numpy as np

from . import arr as A
from . import npx
from . import num as N
from . import skl
from .arr import ND, SInt, SymArray, SymSparse, SymStr
from .num import Ctl, Num, SymBool, s_and, s_or, unmodelled

REPO = os.environ.get('SYMK_REPO', '/repo')
PKG = 'kernelmethods'

_INTLIKE = (int, np.integer, np.int64, np.signedinteger, numbers.Integral)
_FLOATLIKE = (float, np.floating, np.float64, np.inexact)
_NUMLIKE = (np.number, numbers.Number, numbers.Real, numbers.Complex, np.generic)


def sh_isinstance(x, t):
    if isinstance(x, (Num, SymBool, SymStr)):
        ts = t if isinstance(t, tuple) else (t,)
        for u in ts:
            if isinstance(u, tuple):
                if sh_isinstance(x, u):
                    return True
                continue
            if isinstance(x, SymBool):
                if u in (bool, np.bool_) or u is int and False:
                    return True
            elif isinstance(x, SymStr):
                if u in (str, np.str_) or getattr(u, '__name__', '') in ('Iterable', 'Sequence', 'Sized', 'Container', 'Hashable'):
                    return True
            else:
                if x.isint and u in _INTLIKE or not x.isint and u in _FLOATLIKE or u in _NUMLIKE:
                    return True
                if getattr(u, '__name__', '') == 'Hashable':
                    return True
            if u is object:
                return True
        return False
    if isinstance(x, SymSparse):
        ts = t if isinstance(t, tuple) else (t,)
        return any(u is SymSparse or u is skl.LilMatrix or u is object or u is skl.SpMatrix for u in ts)
    if t is npx.Vectorize:
        return isinstance(x, t)
    return isinstance(x, t)


def sh_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, Num):
        return SInt if x.isint else Num
    if isinstance(x, SymArray):
        return ND
    return type(x)


def sh_float(*a):
    if a and Ctl.cur is not None:
        x = a[0]
        if isinstance(x, SymArray) and x.size == 1:
            x = x.view(ND).reshape(-1)[0]
        if isinstance(x, SymBool):
            x = x.as_num()
        if isinstance(x, Num):
            return Num(x.n, x.d, False)
    return float(*a)


def sh_int(*a):
    if a and isinstance(a[0], Num) and a[0].isint:
        return a[0] if type(a[0]) is SInt else A.sint(a[0]) if not a[0].is_const() else int(a[0])
    if a and isinstance(a[0], Num):
        r = N.num_trunc(a[0])
        return int(r.cval()) if r.is_const() else A.sint(r)
    if a and isinstance(a[0], float) and a[0] != a[0]:
        raise ValueError('cannot convert float NaN to integer')
    return int(*a)


def sh_any(xs):
    if isinstance(xs, (list, tuple, SymArray)):
        ys = list(xs)
        if any(isinstance(y, SymBool) for y in ys):
            return s_or([A._b(y) if not isinstance(y, SymArray) else bool(y) for y in ys])
        return any(ys)
    return any(xs)


def sh_all(xs):
    if isinstance(xs, (list, tuple, SymArray)):
        ys = list(xs)
        if any(isinstance(y, SymBool) for y in ys):
            return s_and([A._b(y) if not isinstance(y, SymArray) else bool(y) for y in ys])
        return all(ys)
    return all(xs)


def sh_round(x, nd=None):
    if isinstance(x, Num):
        return A.round_sym(x, nd or 0)
    return round(x, nd) if nd is not None else round(x)


def sh_bool(*a):
    if a and isinstance(a[0], SymBool):
        return a[0]
    return bool(*a)


def sh_str(*a, **k):
    if a and isinstance(a[0], SymStr):
        return a[0]
    return str(*a, **k)


def _ext(sg):
    real = max if sg > 0 else min

    def f(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if k or not any(isinstance(x, Num) and not x.is_const() for x in xs):
            return real(*a, **k)
        acc = xs[0]
        for x in xs[1:]:
            acc = A._ext(A.elem(acc), A.elem(x), sg, False)
        return acc
    return f


def sh_npscalar(name, *a):
    if a and Ctl.cur is not None and (isinstance(a[0], (Num, SymBool)) or
                                      (isinstance(a[0], ND) and isinstance(a[0], SymArray))):
        dt = np.dtype(name.rstrip('_') if name in ('float_', 'bool_') else name)
        if isinstance(a[0], SymArray) and a[0].ndim:
            return a[0].astype(dt)
        x = a[0].view(ND)[()] if isinstance(a[0], SymArray) else a[0]
        return A.out_elem(A.cast_elem(x, dt), dt)
    return getattr(np, name)(*a)


SHIMS = {'isinstance': sh_isinstance, 'type': sh_type, 'float': sh_float, 'int': sh_int, 'any': sh_any,
         'all': sh_all, 'round': sh_round, 'bool': sh_bool, 'max': _ext(1), 'min': _ext(-1), 'str': sh_str}
NPSC = ('float64', 'float32', 'int64', 'int32', 'intp', 'bool_', 'float16', 'longdouble')


class Rewrite(ast.NodeTransformer):
    def __init__(self, local):
        self.local = local

    def visit_ExceptHandler(self, node):
        # the engine steers paths with BaseException: a catch-all handler must not swallow it
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == 'BaseException'):
            node.type = ast.Name('Exception', ast.Load())
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in SHIMS and f.id not in self.local:
            node.func = ast.copy_location(ast.Name('symk_shim_%s' % f.id, ast.Load()), f)
        elif isinstance(f, ast.Name) and f.id == 'map' and node.args and isinstance(node.args[0], ast.Name) \
                and node.args[0].id in ('float', 'bool', 'str') and node.args[0].id not in self.local:
            node.args[0] = ast.copy_location(ast.Name('symk_shim_%s' % node.args[0].id, ast.Load()), node.args[0])
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('np', 'numpy') \
                and f.attr in NPSC:
            node.args.insert(0, ast.Constant(f.attr))
            node.func = ast.copy_location(ast.Name('symk_shim_npscalar', ast.Load()), f)
        return node


def _bound_names(tree):
    s = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            s.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            s.add(n.id)
        elif isinstance(n, ast.arg):
            s.add(n.arg)
        elif isinstance(n, ast.alias):
            s.add((n.asname or n.name).split('.')[0])
    return s


class Package:
    """One fresh copy of the package."""

    def __init__(self, root=None):
        self.root = root or os.path.join(REPO, PKG)
        self.mods = {}
        b = dict(vars(builtins))
        b['__import__'] = self._import
        for k, v in SHIMS.items():
            b['symk_shim_' + k] = v
        b['symk_shim_npscalar'] = sh_npscalar
        self.builtins = b

    def path_of(self, name):
        if name == PKG:
            return os.path.join(self.root, '__init__.py')
        p = os.path.join(self.root, *name.split('.')[1:])
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        path = self.path_of(name)
        if not os.path.exists(path):
            raise ModuleNotFoundError('No module named %r' % name)
        m = types.ModuleType(name)
        m.__file__ = path
        ispkg = path.endswith('__init__.py')
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        try:
            code = compiled(path)
            saved, Ctl.cur = Ctl.cur, None
            try:
                exec(code, m.__dict__)
            finally:
                Ctl.cur = saved
        except BaseException:
            del self.mods[name]
            raise
        if '.' in name:
            par, _, leaf = name.rpartition('.')
            setattr(self.mods[par], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = (globals or {}).get('__package__') or PKG
            parts = pk.split('.')
            base = '.'.join(parts[:len(parts) - (level - 1)])
            name = base + ('.' + name if name else '')
        top = name.split('.')[0]
        if top == PKG:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and hasattr(m, '__path__') and \
                            os.path.exists(self.path_of(name + '.' + f)):
                        self.load(name + '.' + f)
                return m
            return self.load(top)
        if top == 'numpy':
            if not fromlist:
                return npx.P
            o = npx.P
            for p in name.split('.')[1:]:
                o = getattr(o, p)
            return o
        if top in ('scipy', 'sklearn'):
            o = skl.module(name)
            return o if fromlist else skl.module(top)
        if top == 'math':
            return npx.MATH
        return importlib.__import__(name, globals, locals, fromlist, 0)


_code = {}


def compiled(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _code:
        with open(path, encoding='utf-8') as fh:
            src = fh.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, path)
            tree = ast.fix_missing_locations(Rewrite(_bound_names(tree)).visit(tree))
            _code[k] = compile(tree, path, 'exec')
    return _code[k]
