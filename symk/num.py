"""Exact symbolic numbers: rational functions over named atoms.

A `Num` is P/Q with P, Q polynomials (rational coefficients) over *atoms*.  Atoms are
input variables, or defined symbols (sqrt, exp, abs, pow, 0/1 of a boolean, wrapped machine
integer, rounded float) that carry a defining constraint given to the SMT solver.
NaN and infinities are ordinary Python floats: which of them a value is, is a concrete fact
of each path (the engine forks where it is not determined).
"""
from fractions import Fraction
import math

import z3

F0, F1 = Fraction(0), Fraction(1)


class Unmodelled(BaseException):
    """The code did something the symbolic model has no semantics for."""


class Ctl:
    """Current path context (set by the engine)."""
    cur = None


def ctx():
    c = Ctl.cur
    if c is None:
        raise RuntimeError('no symbolic context')
    return c


def unmodelled(what):
    c = Ctl.cur
    if c is not None:
        c.poison = c.poison or str(what)
    raise Unmodelled(what)


# ----------------------------------------------------------------- float -> rational
_fcache = {}


def frac_of_float(x):
    """The real number a float constant stands for: the simplest rational that it denotes.

    1/3 computed in floating point means 1/3, 1e-8 means 10**-8."""
    r = _fcache.get(x)
    if r is None:
        f = Fraction(x)
        if f.denominator <= 4096:
            r = f
        else:
            g = f.limit_denominator(4096)
            if g != 0 and abs(float(g) - x) <= 4e-16 * abs(x):
                r = g
            else:
                g = Fraction(repr(x))
                # a binary power such as machine epsilon stays exact
                if f.denominator & (f.denominator - 1) == 0 and abs(f.numerator) == 1:
                    r = f
                else:
                    r = g
        _fcache[x] = r
    return r


# ----------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ('t', '_h', '_z')

    def __init__(self, terms):
        self.t = terms          # dict: monomial (tuple of (atom, exp)) -> Fraction
        self._h = None
        self._z = None

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)} if c else {})

    @staticmethod
    def atom(aid):
        return Poly({((aid, 1),): F1})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), F0)

    def is_zero(self):
        return not self.t

    def __eq__(self, o):
        return self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def add(self, o, k=F1):
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, F0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def scale(self, k):
        if k == 1:
            return self
        if not k:
            return Poly({})
        return Poly({m: c * k for m, c in self.t.items()})

    def mul(self, o):
        if self.is_const():
            return o.scale(self.cval())
        if o.is_const():
            return self.scale(o.cval())
        acc = {}
        pend = None
        table = ctx().atoms
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, extra = _mulmono(m1, m2, table)
                c = c1 * c2
                if extra is None:
                    v = acc.get(m, F0) + c
                    if v:
                        acc[m] = v
                    else:
                        acc.pop(m, None)
                else:
                    p = Poly({m: c}).mul(extra)
                    pend = p if pend is None else pend.add(p)
        r = Poly(acc)
        return r if pend is None else r.add(pend)

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def z(self):
        if self._z is None:
            at = ctx().atoms
            terms = []
            for m, c in self.t.items():
                fs = []
                for a, e in m:
                    v = at[a].zr()
                    fs.extend([v] * e)
                cz = z3.RealVal(str(c))
                if not fs:
                    terms.append(cz)
                elif c == 1:
                    terms.append(z3.Product(fs) if len(fs) > 1 else fs[0])
                else:
                    terms.append(z3.Product([cz] + fs))
            if not terms:
                self._z = z3.RealVal(0)
            else:
                self._z = z3.Sum(terms) if len(terms) > 1 else terms[0]
        return self._z


def _mulmono(m1, m2, table):
    """Product of two monomials; second result: an extra factor (Poly) from rewriting."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = None
    exps = None
    for a in list(d):
        at = table[a]
        e = d[a]
        if at.sq is not None and e >= 2:
            q, r = divmod(e, 2)
            p = at.sq
            for _ in range(q):
                extra = p if extra is None else extra.mul(p)
            if r:
                d[a] = 1
            else:
                del d[a]
        elif at.idem and e >= 2:
            d[a] = 1
        elif at.kind == 'exp':
            if exps is None:
                exps = []
            exps.append((a, e))
    if exps is not None and (len(exps) > 1 or exps[0][1] > 1):
        arg = None
        for a, e in exps:
            del d[a]
            t = table[a].arg * e
            arg = t if arg is None else arg + t
        x = num_exp(arg)
        # x is const (1) or a pure exp atom with den 1
        extra = x.n if extra is None else extra.mul(x.n)
    return tuple(sorted(d.items())), extra


class Atom:
    __slots__ = ('id', 'name', 'kind', 'isint', 'zv', 'arg', 'sq', 'idem', 'defs', 'deps', 'meta')

    def __init__(self, id, name, kind, isint=False):
        self.id, self.name, self.kind, self.isint = id, name, kind, isint
        self.zv = z3.Int(name) if isint else z3.Real(name)
        self.arg = None
        self.sq = None
        self.idem = False
        self.defs = []       # z3 constraints
        self.deps = set()    # atoms occurring in the definition
        self.meta = None

    def zr(self):
        return z3.ToReal(self.zv) if self.isint else self.zv


def _monogcd(p, q):
    g = None
    for poly in (p, q):
        for m in poly.t:
            d = dict(m)
            if g is None:
                g = d
            else:
                g = {a: min(e, d[a]) for a, e in g.items() if a in d}
            if not g:
                return None
    return g


def _divmono(p, g):
    r = {}
    for m, c in p.t.items():
        nm = []
        for a, e in m:
            e2 = e - g.get(a, 0)
            if e2:
                nm.append((a, e2))
        r[tuple(nm)] = c
    return Poly(r)


P0, P1 = Poly({}), Poly({(): F1})


def is_special(x):
    return isinstance(x, float) and (x != x or x in (math.inf, -math.inf))


class Num:
    """Symbolic real (or integer) number."""
    __slots__ = ('n', 'd', 'isint', '__weakref__')
    __array_priority__ = 1000
    __array_ufunc__ = None      # numpy scalars defer to our reflected operators

    def __init__(self, n, d=P1, isint=False):
        self.n, self.d, self.isint = n, d, isint

    # ---- constructors
    @staticmethod
    def of(x):
        """Exact number for a Python/numpy scalar; specials come back as floats."""
        if isinstance(x, Num):
            return x
        if isinstance(x, SymBool):
            return x.as_num()
        if isinstance(x, bool):
            return Num(P1 if x else P0, P1, True)
        if isinstance(x, int):
            return Num(Poly.const(x), P1, True)
        if isinstance(x, Fraction):
            return Num(Poly.const(x), P1, False)
        if isinstance(x, float):          # includes np.float64
            x = float(x)
            if x != x or x in (math.inf, -math.inf):
                return x
            return Num(Poly.const(frac_of_float(x)), P1, False)
        import numpy as np
        if isinstance(x, np.bool_):
            return Num.of(bool(x))
        if isinstance(x, np.integer):
            return Num.of(int(x))
        if isinstance(x, np.floating):
            return Num.of(float(x))
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return Num.of(x[()])
        return None

    def make(n, d, isint=False):
        if d.is_const():
            c = d.cval()
            if c != 1:
                n = n.scale(1 / c)
            return Num(n, P1, isint)
        if n.is_zero():
            return Num(P0, P1, isint)
        g = _monogcd(n, d)
        if g:
            n, d = _divmono(n, g), _divmono(d, g)
            if d.is_const():
                return Num.make(n, d, isint)
        # lone exp factors in the denominator move up
        if len(d.t) == 1:
            (m, c), = d.t.items()
            table = ctx().atoms
            ex = [(a, e) for a, e in m if table[a].kind == 'exp']
            if ex:
                rest = tuple((a, e) for a, e in m if table[a].kind != 'exp')
                arg = None
                for a, e in ex:
                    t = table[a].arg * (-e)
                    arg = t if arg is None else arg + t
                x = num_exp(arg)
                return Num.make(n.mul(x.n), Poly({rest: c}), isint)
        # normalise leading coefficient of the denominator
        lead = d.t[max(d.t)]
        if lead != 1:
            n, d = n.scale(1 / lead), d.scale(1 / lead)
        if len(n.t) == len(d.t):
            mlead = max(n.t)
            k = n.t[mlead]
            if mlead in d.t and d.scale(k / d.t[mlead]) == n:
                return Num(Poly.const(k / d.t[mlead]), P1, isint)
        return Num(n, d, isint)
    make = staticmethod(make)

    # ---- inspection
    def is_const(self):
        return self.n.is_const() and self.d.is_const()

    def cval(self):
        return self.n.cval()

    def atoms(self):
        return self.n.atoms() | self.d.atoms()

    def key(self):
        return (self.n, self.d)

    def z(self):
        if self.d.is_const():
            return self.n.z()
        return self.n.z() / self.d.z()

    # ---- arithmetic
    def _bin(self, o):
        if isinstance(o, Num):
            return o
        import numpy as np
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        r = Num.of(o)
        return NotImplemented if r is None else r

    def __add__(self, o):
        o = self._bin(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o
        i = self.isint and o.isint
        if self.d == o.d:
            return Num.make(self.n.add(o.n), self.d, i)
        return Num.make(self.n.mul(o.d).add(o.n.mul(self.d)), self.d.mul(o.d), i)
    __radd__ = __add__

    def __neg__(self):
        return Num(self.n.scale(-1), self.d, self.isint)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._bin(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return -o
        return self + (-o)

    def __rsub__(self, o):
        o = self._bin(o)
        if o is NotImplemented:
            return o
        return (-self) + o

    def __mul__(self, o):
        o = self._bin(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            if o != o:
                return o
            return o if bool(self > 0) else (-o if bool(self < 0) else math.nan)
        return Num.make(self.n.mul(o.n), self.d.mul(o.d), self.isint and o.isint)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._bin(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o if o != o else Num(P0)
        return num_div(self, o)

    def __rtruediv__(self, o):
        o = self._bin(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            if o != o:
                return o
            return o if not bool(self < 0) else -o
        return num_div(o, self)

    def __floordiv__(self, o):
        q = self / o
        return num_floor(q) if isinstance(q, Num) else q

    def __rfloordiv__(self, o):
        q = Num.of(o) / self
        return num_floor(q) if isinstance(q, Num) else q

    def __mod__(self, o):
        return self - (self // o) * o

    def __rmod__(self, o):
        o = Num.of(o)
        return o - (o // self) * self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, e, mod=None):
        e = self._bin(e)
        if e is NotImplemented:
            return e
        return num_pow(self, e)

    def __rpow__(self, b):
        b = self._bin(b)
        if b is NotImplemented:
            return b
        return num_pow(b, self)

    def __abs__(self):
        return num_abs(self)

    # ---- comparison
    def _cmp(self, o, op):
        o = self._bin(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            if o != o:
                return op == '!='
            return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0, '==': False, '!=': True}[op]
        d = self - o
        return cmp0(d, op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __hash__(self):
        if self.is_const():
            return hash(self.cval())
        if self.isint:
            return hash(self.concretize())
        # one bucket for all of them: equality (which forks) tells them apart
        return 0x5eed

    # ---- conversions
    def __bool__(self):
        return bool(self != 0)

    def concretize(self):
        if self.is_const():
            v = self.cval()
            return int(v) if v.denominator == 1 else v
        if not self.isint:
            return unmodelled('concretisation of a symbolic real')
        return ctx().concretize_int(self)

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return self.concretize()

    def __int__(self):
        if self.isint:
            return self.concretize()
        if self.is_const():
            return int(self.cval())
        return unmodelled('int() of a symbolic real')

    def __float__(self):
        if self.is_const():
            return float(self.cval())
        if self.isint:
            return float(self.concretize())
        return unmodelled('float() of a symbolic real')

    def __complex__(self):
        return complex(float(self))

    def __round__(self, nd=None):
        return unmodelled('round() of a symbolic value')

    def __floor__(self):
        return num_floor(self)

    def __ceil__(self):
        return -num_floor(-self)

    def __trunc__(self):
        return num_trunc(self)

    def __repr__(self):
        if self.is_const():
            return 'Num(%s)' % self.cval()
        return 'Num(%s)' % show(self)

    def __str__(self):
        if self.is_const():
            v = self.cval()
            return str(int(v)) if self.isint else str(float(v))
        return '<sym>'

    def __format__(self, spec):
        return str(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy scalar-ish interface
    def exp(self):
        return num_exp(self)

    def sqrt(self):
        return num_sqrt(self)

    def tanh(self):
        return num_tanh(self)

    def log(self):
        return num_uf('log', self)

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt):
        import numpy as np
        from . import arr
        return arr.cast_elem(self, np.dtype(dt))

    def reshape(self, *s):
        from . import arr
        return arr.asarr(self).reshape(*s)

    def sum(self, *a, **k):
        return self
    mean = max = min = sum

    def is_integer(self):
        if self.isint:
            return True
        if self.is_const():
            return self.cval().denominator == 1
        return bool(num_trunc(self) == self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Num(P0)

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        import numpy as np
        return np.dtype('i8') if self.isint else np.dtype('f8')

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1


def show(x):
    at = ctx().atoms if Ctl.cur else None

    def sp(p):
        out = []
        for m, c in list(p.t.items())[:12]:
            ms = '*'.join((at[a].name if at else str(a)) + ('^%d' % e if e > 1 else '') for a, e in m)
            out.append((str(c) + '*' if c != 1 else '') + ms if ms else str(c))
        return ' + '.join(out) or '0'
    return sp(x.n) if x.d.is_const() else '(%s)/(%s)' % (sp(x.n), sp(x.d))


def cmp0(d, op):
    """Truth of  d <op> 0  for a Num d."""
    if d.is_const():
        c = d.cval()
        return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]
    if op in ('==', '!='):
        if d.n.is_const():
            return (op == '!=') if not d.n.is_zero() else (op == '==')
        lead = d.n.t[max(d.n.t)]
        p = d.n.scale(1 / abs(lead)) if lead > 0 else d.n.scale(-1 / abs(lead))
        at = p.atoms()
        b = SymBool(p.z() == 0, at)
        return b if op == '==' else ~b
    if d.d.is_const():
        p = d.n
    elif all(ctx().atoms[a].kind in ('sqrt', 'exp') for m in d.d.t for a, _ in m) and \
            all(c > 0 for c in d.d.t.values()):
        p = d.n           # the denominator is positive (nonzero sums of nonnegative terms)
    else:
        p = d.n.mul(d.d)
    # canonical sense: the leading coefficient is positive and the relation is < or <=
    lead = p.t[max(p.t)] if p.t else F0
    if p.is_const():
        return cmp0(Num(p), op)
    p = p.scale(1 / abs(lead))
    z = p.z()
    at = p.atoms()
    if op == '<':
        return SymBool(z < 0, at)
    if op == '<=':
        return SymBool(z <= 0, at)
    if op == '>':
        return SymBool(z > 0, at)
    return SymBool(z >= 0, at)


def num_div(a, b):
    if b.is_const():
        c = b.cval()
        if c == 0:
            if a.is_const():
                v = a.cval()
                return math.nan if v == 0 else math.copysign(math.inf, v)
            return math.nan if bool(a == 0) else (math.inf if bool(a > 0) else -math.inf)
        return Num(a.n.scale(1 / c), a.d, False)
    if bool(b == 0):
        return math.nan if bool(a == 0) else (math.inf if bool(a > 0) else -math.inf)
    return Num.make(a.n.mul(b.d), a.d.mul(b.n), False)


def num_abs(a):
    if a.is_const():
        return Num(Poly.const(abs(a.cval())), P1, a.isint)
    c = ctx()
    k = c.known_sign(a)
    if k is not None:
        return a if k >= 0 else -a
    lead = a.n.t[max(a.n.t)]
    if lead < 0:
        a = -a
    # |c*t| = c*|t|
    lead = abs(lead)
    base = Num(a.n.scale(1 / lead), a.d, a.isint and lead == 1)
    at = c.defined('abs', base.key(), isint=base.isint)
    if at.arg is None:
        at.arg = base
        zb = c.zpoly_of(base, at)
        at.defs.append(at.zr() == z3.If(zb >= 0, zb, -zb))
        if base.d.is_const():
            at.sq = base.n.mul(base.n)
    r = Num(Poly.atom(at.id), P1, at.isint)
    return r if lead == 1 else r * Num.of(lead)


def num_sqrt(a):
    if not isinstance(a, Num):
        a = Num.of(a)
        if isinstance(a, float):
            return math.nan if a != a or a < 0 else a
    if a.is_const():
        v = a.cval()
        if v < 0:
            return math.nan
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return Num.of(Fraction(n, d))
    if bool(a < 0):
        return math.nan
    return _sqrt_nonneg(a)


def _sqrt_nonneg(a):
    c = ctx()
    if not a.d.is_const():
        # sqrt(N/D) = sqrt(N*D)/|D|
        den = num_abs(Num(a.d))
        nd = Num(a.n.mul(a.d))
        return num_div(_sqrt_nonneg(nd) if not nd.is_const() else num_sqrt(nd), den)
    p = a.n
    # perfect square of a single monomial
    if len(p.t) == 1:
        (m, co), = p.t.items()
        if m and all(e % 2 == 0 for _, e in m):
            root = num_sqrt(Num.of(co))
            mono = Num(Poly({tuple((x, e // 2) for x, e in m): F1}))
            return root * num_abs(mono)
    lead = abs(p.t[max(p.t)])
    n_, d_ = math.isqrt(lead.numerator), math.isqrt(lead.denominator)
    k = F1
    if lead != 1 and n_ * n_ == lead.numerator and d_ * d_ == lead.denominator:
        k = Fraction(n_, d_)
        p = p.scale(1 / lead)
    for at in c.by_kind.get('sqrt', ()):
        if at.sq == p:
            break
    else:
        at = c.defined('sqrt', p)
        at.arg = Num(p)
        at.sq = p
        zp = c.zpoly_of(at.arg, at)
        at.defs += [at.zv >= 0, at.zv * at.zv == zp]
    r = Num(Poly.atom(at.id))
    return r if k == 1 else r * Num.of(k)


def num_exp(a):
    if not isinstance(a, Num):
        a = Num.of(a)
        if isinstance(a, float):
            return a if a != a else (Num(P0) if a < 0 else math.inf)
    if a.is_const() and a.cval() == 0:
        return Num(P1)
    c = ctx()
    for at in c.by_kind.get('exp', ()):
        o = at.arg
        if o.key() == a.key() or (not (o.d.is_const() and a.d.is_const()) and
                                  o.n.mul(a.d) == a.n.mul(o.d)):
            return Num(Poly.atom(at.id))
    at = c.defined('exp', a.key())
    at.arg = a
    za = c.zpoly_of(a, at)
    at.defs += [at.zv > 0, (za > 0) == (at.zv > 1), (za < 0) == (at.zv < 1)]
    return Num(Poly.atom(at.id))


def num_tanh(a):
    if not isinstance(a, Num):
        a = Num.of(a)
        if isinstance(a, float):
            return a if a != a else Num.of(1 if a > 0 else -1)
    if a.is_const() and a.cval() == 0:
        return Num(P0)
    e = num_exp(a * 2)
    n, d = e - 1, e + 1
    return Num.make(n.n.mul(d.d), n.d.mul(d.n), False)


def num_pow(b, e):
    if isinstance(e, float):
        return unmodelled('power with a special exponent')
    if isinstance(b, float):
        if e.is_const():
            return Num.of(b ** float(e.cval())) if b == b else b
        return unmodelled('power of a special value')
    if e.is_const():
        ev = e.cval()
        if ev.denominator == 1:
            k = int(ev)
            if k == 0:
                return Num(P1, P1, b.isint)
            base = b
            if k < 0:
                base = num_div(Num(P1), b)
                if isinstance(base, float):
                    return base if k % 2 else abs(base)
                k = -k
            r = None
            if k > 64:
                return _powatom(b, e)
            for _ in range(k):
                r = base if r is None else r * base
            if b.isint and e.isint and ev > 0:
                r = Num(r.n, r.d, True)
            return r
        if ev == Fraction(1, 2):
            return num_sqrt(b)
        if ev == Fraction(-1, 2):
            s = num_sqrt(b)
            return 1 / s
    return _powatom(b, e)


def _powatom(b, e):
    c = ctx()
    if b.is_const() and e.is_const() and b.cval() >= 0:
        pass
    if bool(b < 0):
        if e.is_const() and e.cval().denominator == 1:
            r = _powatom(-b, e)
            return r if int(e.cval()) % 2 == 0 else -r
        return math.nan
    if bool(b == 0):
        if bool(e > 0):
            return Num(P0)
        return Num(P1) if bool(e == 0) else math.inf
    at = c.defined('pow', (b.key(), e.key()))
    if at.arg is None:
        at.arg = (b, e)
        zb, ze = c.zpoly_of(b, at), c.zpoly_of(e, at)
        at.defs += [at.zv > 0, z3.Implies(zb == 1, at.zv == 1), z3.Implies(ze == 1, at.zv == zb),
                    z3.Implies(ze == 0, at.zv == 1),
                    z3.Implies(z3.And(zb > 1, ze > 0), at.zv > 1),
                    z3.Implies(z3.And(zb < 1, ze > 0), at.zv < 1)]
    return Num(Poly.atom(at.id))


def num_uf(name, a):
    if not isinstance(a, Num):
        a = Num.of(a)
        if isinstance(a, float):
            return unmodelled(name + ' of a special value')
    if name == 'log':
        if a.d.is_const() and len(a.n.t) == 1:
            (m, co), = a.n.t.items()
            if co == 1 and len(m) == 1 and m[0][1] == 1 and ctx().atoms[m[0][0]].kind == 'exp':
                return ctx().atoms[m[0][0]].arg
        if bool(a <= 0):
            return -math.inf if bool(a == 0) else math.nan
    c = ctx()
    at = c.defined('uf:' + name, a.key())
    if at.arg is None:
        at.arg = a
        za = c.zpoly_of(a, at)
        if name == 'log':
            at.defs += [(za > 1) == (at.zv > 0), (za < 1) == (at.zv < 0)]
    return Num(Poly.atom(at.id))


def num_floor(a):
    if a.isint:
        return a
    if a.is_const():
        return Num.of(math.floor(a.cval()))
    c = ctx()
    at = c.defined('floor', a.key(), isint=True)
    if at.arg is None:
        at.arg = a
        za = c.zpoly_of(a, at)
        at.defs += [at.zr() <= za, za < at.zr() + 1]
    return Num(Poly.atom(at.id), P1, True)


def num_trunc(a):
    if a.isint:
        return a
    if bool(a >= 0):
        return num_floor(a)
    return -num_floor(-a)


def num_wrap(a, bits, signed):
    """Value of integer `a` stored in a machine word."""
    lo = -(1 << (bits - 1)) if signed else 0
    M = 1 << bits
    if a.is_const():
        v = int(a.cval())
        return Num.of((v - lo) % M + lo)
    c = ctx()
    at = c.defined('wrap%d%s' % (bits, 's' if signed else 'u'), a.key(), isint=True)
    if at.arg is None:
        at.arg = a
        za = c.zpoly_of(a, at)
        q = z3.Int(at.name + '_q')
        at.defs += [at.zv >= lo, at.zv < lo + M, za == at.zr() + M * z3.ToReal(q)]
    return Num(Poly.atom(at.id), P1, True)


def num_round_to(a, tag):
    """Value of `a` after storage in a narrower float format (lossy, otherwise unspecified)."""
    if isinstance(a, float):
        return a
    if a.is_const() and a.cval().denominator & (a.cval().denominator - 1) == 0 and \
            abs(a.cval().numerator) < 1024 and a.cval().denominator <= 1024:
        return a
    c = ctx()
    at = c.defined('round:' + tag, a.key())
    if at.arg is None:
        at.arg = a
        c.zpoly_of(a, at)
    return Num(Poly.atom(at.id))


# ----------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ('b', 'at')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, b, atoms=frozenset()):
        self.b, self.at = b, atoms

    @staticmethod
    def of(x):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, Num):
            return x != 0
        import numpy as np
        if isinstance(x, (bool, np.bool_)):
            return bool(x)
        return bool(x)

    def __bool__(self):
        return ctx().branch(self)

    def __invert__(self):
        return SymBool(z3.Not(self.b), self.at)

    def _lift(self, o):
        import numpy as np
        if isinstance(o, np.ndarray) and o.ndim:
            return None
        return SymBool.of(o)

    def __and__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        if o is True:
            return self
        if o is False:
            return False
        return SymBool(z3.And(self.b, o.b), self.at | o.at)
    __rand__ = __and__

    def __or__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        if o is True:
            return True
        if o is False:
            return self
        return SymBool(z3.Or(self.b, o.b), self.at | o.at)
    __ror__ = __or__

    def __xor__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        if o is True:
            return ~self
        if o is False:
            return self
        return SymBool(z3.Xor(self.b, o.b), self.at | o.at)
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool,)):
            return self if o else ~self
        if isinstance(o, SymBool):
            return SymBool(self.b == o.b, self.at | o.at)
        return self.as_num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else (not r)

    def __hash__(self):
        return hash(bool(self))

    def as_num(self):
        c = ctx()
        at = c.defined('b2i', self.b.get_id(), isint=True)
        if at.arg is None:
            at.arg = self
            at.idem = True
            at.deps |= set(self.at)
            at.defs += [at.zv == z3.If(self.b, 1, 0)]
        return Num(Poly.atom(at.id), P1, True)

    def __add__(self, o):
        return self.as_num() + (o.as_num() if isinstance(o, SymBool) else o)
    __radd__ = __add__

    def __mul__(self, o):
        return self.as_num() * (o.as_num() if isinstance(o, SymBool) else o)
    __rmul__ = __mul__

    def __sub__(self, o):
        return self.as_num() - (o.as_num() if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return o - self.as_num()

    def __truediv__(self, o):
        return self.as_num() / o

    def __lt__(self, o):
        return self.as_num() < o

    def __gt__(self, o):
        return self.as_num() > o

    def __le__(self, o):
        return self.as_num() <= o

    def __ge__(self, o):
        return self.as_num() >= o

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return 'SymBool(...)'

    def any(self, *a, **k):
        return self
    all = any
    item = any

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def dtype(self):
        import numpy as np
        return np.dtype(bool)


def s_and(xs):
    ys = []
    at = set()
    for x in xs:
        x = SymBool.of(x)
        if x is False:
            return False
        if x is True:
            continue
        ys.append(x.b)
        at |= x.at
    if not ys:
        return True
    return SymBool(z3.And(*ys) if len(ys) > 1 else ys[0], frozenset(at))


def s_or(xs):
    ys = []
    at = set()
    for x in xs:
        x = SymBool.of(x)
        if x is True:
            return True
        if x is False:
            continue
        ys.append(x.b)
        at |= x.at
    if not ys:
        return False
    return SymBool(z3.Or(*ys) if len(ys) > 1 else ys[0], frozenset(at))


def s_not(x):
    x = SymBool.of(x)
    return (~x) if isinstance(x, SymBool) else (not x)


def _with_arrays(cls):
    """Operators between a scalar and an array are elementwise."""
    import operator
    import numpy as np

    def wrap(name, uf, refl):
        orig = cls.__dict__.get(name)
        if orig is None:
            return

        def op(self, o, *a):
            if isinstance(o, np.ndarray) and o.ndim:
                from . import arr
                return arr.call(uf, o, self) if refl else arr.call(uf, self, o)
            return orig(self, o, *a)
        op.__name__ = name
        setattr(cls, name, op)
    for n, uf in (('add', np.add), ('sub', np.subtract), ('mul', np.multiply), ('truediv', np.true_divide),
                  ('floordiv', np.floor_divide), ('mod', np.remainder), ('pow', np.power)):
        wrap('__%s__' % n, uf, False)
        wrap('__r%s__' % n, uf, True)
    for n, uf in (('lt', np.less), ('le', np.less_equal), ('gt', np.greater), ('ge', np.greater_equal),
                  ('eq', np.equal), ('ne', np.not_equal)):
        wrap('__%s__' % n, uf, False)


_with_arrays(Num)
