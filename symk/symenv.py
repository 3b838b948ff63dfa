"""Scenario environment for symbolic runs."""
import os
import traceback
import warnings

import numpy as np
import z3
from fractions import Fraction

from . import arr as A
from . import npx
from . import skl
from .arr import ND, SInt, SymArray, SymMatrix, SymSparse, SymStr
from .common import EnvBase, Outcome
from .loader import Package
from .num import Num, SymBool, is_special, s_and, s_not, s_or


class SymEnv(EnvBase):
    concrete = False

    def __init__(self, ctx, tier, seed):
        self.ctx = ctx
        self.tier, self.seed = tier, seed
        self.np = npx.P
        self.nan, self.inf = float('nan'), float('inf')
        self.pkg = Package()
        skl.LOG.clear()
        self.svm_log = skl.LOG

    def mod(self, name):
        return self.pkg.load('kernelmethods' + ('.' + name if name else ''))

    def sk(self, name):
        return skl.module(name)

    # ---- inputs
    def real(self, name, lo=None, hi=None, strict=False):
        return self.ctx.real(name, lo, hi, strict, strict)

    def int(self, name, lo, hi):
        return A.sint(self.ctx.real(name, lo, hi, isint=True))

    def npint(self, x, ty):
        """x as an integer of the given type."""
        if ty == 'int':
            return x
        return getattr(np, ty)(int(x))

    def choice(self, name, k):
        return self.ctx.choice(name, k)

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def string(self, name, table):
        return SymStr(self.ctx.real(name, 0, len(table) - 1, isint=True), table)

    def strarray(self, xs, width=8):
        o = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            o[i] = x
        return SymArray(o, np.dtype('U%d' % width))

    def typed(self, nested, dtype):
        """Array of a machine dtype from already in-range values."""
        if np.dtype(dtype).kind == 'f':      # the values given are exactly representable
            return SymArray(A.asarr(nested, dtype='f8').view(ND), np.dtype(dtype))
        if np.dtype(dtype).kind in 'iu':     # in range: nothing wraps
            return SymArray(A.to_obj(A.asarr(nested)), np.dtype(dtype))
        return A.asarr(nested, dtype=dtype)

    def assume(self, c):
        self.ctx.assume(c)

    # ---- claims
    def prove(self, c, label, soft=None):
        if isinstance(c, np.bool_):
            c = bool(c)
        self.ctx.prove(c, label)

    def close(self, a, b):
        a, b = A._n(A.elem(a)), A._n(A.elem(b))
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, float) and isinstance(b, float):
                return (a == b) or (a != a and b != b)
            return False
        if not isinstance(a, Num) or not isinstance(b, Num):
            return a is b
        return a == b

    def expect_close(self, a, b, label):
        c = self.close(a, b)
        margins = ()
        if isinstance(c, SymBool):
            d = A._n(A.elem(a)) - A._n(A.elem(b))
            bb = A._n(A.elem(b))
            q = []
            for eps in (Fraction(1, 20), Fraction(1, 2000)):
                eps = eps * Fraction(self.unit)
                m = s_or([d >= eps, d <= -eps])
                if isinstance(m, SymBool):
                    q.append((m.b, m.at))
            margins = q
        elif c is True:
            a, b = A._n(A.elem(a)), A._n(A.elem(b))
            if isinstance(a, Num) and isinstance(b, Num) and (a.n.t or b.n.t):
                self.ctx.batch.append((a, b))
        self.ctx.prove(c, label, margins)

    def expect_tight(self, a, b, label, rel=1e-11):
        self.expect_close(a, b, label)

    def prove_near(self, a, b, label, rel=1e-5):
        """Equality up to single precision rounding."""
        d = A._n(A.elem(a)) - A._n(A.elem(b))
        t = Fraction(rel).limit_denominator(10**9)
        m = abs(A._n(A.elem(b)))
        self.ctx.prove(s_and([d <= t * m + t, d >= -(t * m) - t]), label)

    def all_(self, xs):
        return s_and(xs)

    def any_(self, xs):
        return s_or(xs)

    def not_(self, x):
        return s_not(x)

    def implies(self, a, b):
        return s_or([s_not(a), b])

    def is_true(self, x):
        """Fork on a condition."""
        return bool(x)

    def is_number(self, x):
        return isinstance(x, Num)

    def is_dense(self, x):
        return isinstance(x, ND) and not isinstance(x, SymMatrix)

    def is_sparse(self, x):
        return isinstance(x, SymSparse)

    def todense(self, x):
        return x.toarray() if isinstance(x, SymSparse) else x

    def shape_of(self, x):
        return getattr(x, 'shape', None) or ()

    def isfinite(self, x):
        return not is_special(A.elem(x))

    def isnan(self, x):
        x = A.elem(x)
        return isinstance(x, float) and x != x

    def sqrt(self, x):
        return npx.P.sqrt(x)

    def exp(self, x):
        return npx.P.exp(x)

    def tanh(self, x):
        return npx.P.tanh(x)

    def power(self, a, b):
        return A._pow(A.elem(a), A.elem(b))

    def abs(self, x):
        return abs(x)

    def div(self, a, b):
        return A.elem(a) / A.elem(b)

    def const(self, x):
        return Num.of(x)

    # ---- running the code
    def call(self, f, *a, **k):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            try:
                v = f(*a, **k)
                e = None
            except RecursionError:
                from .num import Unmodelled
                raise Unmodelled('recursion depth')
            except Exception as ex:
                v, e = None, ex
                if os.environ.get('SYMK_TRACE'):
                    traceback.print_exc()
        if self.ctx.poison is not None:
            from .num import Unmodelled
            raise Unmodelled(self.ctx.poison)
        return Outcome(v, e, [(w.category.__name__, str(w.message)) for w in ws])

    def note(self, s):
        self.ctx.notes.append(s)
