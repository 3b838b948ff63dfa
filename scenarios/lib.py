"""Shared building blocks of the scenarios (runs in both environments; no solver import)."""
import ast
import os

from symk.common import id_sample, table_kernel

REPO = os.environ.get('SYMK_REPO', '/repo')


BOUND = 10 ** 6         # kernel values range over [-BOUND, BOUND]


def sym_table(env, ids, lo_diag=0.5, name='K'):
    """Independent symbolic kernel values for every unordered pair of row ids."""
    ids = sorted(set(ids))
    T = {}
    for a in ids:
        for b in ids:
            if a <= b:
                if a == b and lo_diag is not None:
                    T[a, b] = env.real('%s_%d_%d' % (name, a, b), lo=lo_diag, hi=BOUND)
                else:
                    T[a, b] = env.real('%s_%d_%d' % (name, a, b), lo=-BOUND, hi=BOUND)
    return T


UNITS = (1e-13, 1e-6, 1e9)


def unit_table(env, ids, unit, diag):
    """Kernel values of the magnitude of the unit (self similarities: of diag): none of them is negligible."""
    env.unit = unit
    ids = sorted(set(ids))
    return {(a, b): env.real('K_%d_%d' % (a, b), lo=0.5 if a == b else -100, hi=100) * (diag if a == b else unit)
            for a in ids for b in ids if a <= b}


class Oracle:
    """What every access must yield, straight from the definition."""

    def __init__(self, env, T, ids1, ids2=None):
        self.env, self.T = env, T
        self.two = ids2 is not None
        self.a, self.b = list(ids1), list(ids2) if self.two else list(ids1)
        self.shape = (len(self.a), len(self.b))
        self._n = self._c = None

    def k(self, x, y):
        if (x, y) in self.T:
            return self.T[x, y]
        return self.T[y, x]

    def raw(self):
        return [[self.k(x, y) for y in self.b] for x in self.a]

    def sub(self, rows, cols):
        return [[self.k(self.a[i], self.b[j]) for j in cols] for i in rows]

    def normed(self):
        if self._n is None:
            e = self.env
            ra = [e.sqrt(self.k(x, x)) for x in self.a]
            rb = [e.sqrt(self.k(y, y)) for y in self.b]
            self._n = [[self.k(x, y) / (ra[i] * rb[j]) for j, y in enumerate(self.b)]
                       for i, x in enumerate(self.a)]
        return self._n

    def centered(self):
        if self._c is None:
            n = len(self.a)
            R = self.raw()
            rs = [sum(r[1:], r[0]) for r in R]
            t = sum(rs[1:], rs[0])
            self._c = [[R[i][j] - rs[i] / n - rs[j] / n + t / (n * n) for j in range(n)] for i in range(n)]
        return self._c

    def diag(self):
        return [self.k(x, x) for x in self.a]

    def frob_sq(self):
        s = 0
        for r in self.raw():
            for v in r:
                s = s + v * v
        return s


def check_full(env, km, O, norm, tag):
    out = env.call(lambda: km.full)
    if env.expect_ok(out, tag + '.full succeeds'):
        env.expect_matrix(out.val, O.normed() if norm else O.raw(), tag + '.full')


def check_slice_all(env, km, O, norm, tag):
    out = env.call(lambda: km[:, :])
    if env.expect_ok(out, tag + '[:,:] succeeds'):
        env.expect_matrix(out.val, O.raw(), tag + '[:,:]')


def check_sparse(env, km, O, norm, tag):
    """full_sparse promises the upper triangle."""
    out = env.call(lambda: km.full_sparse)
    if not env.expect_ok(out, tag + '.full_sparse succeeds'):
        return
    env.prove(tuple(env.shape_of(out.val)) == O.shape, tag + '.full_sparse shape')
    W = O.normed() if norm else O.raw()
    D = env.todense(out.val)
    for i in range(O.shape[0]):
        for j in range(i, O.shape[1]):
            env.expect_close(D[i, j], W[i][j], tag + '.full_sparse upper triangle')


def check_normed(env, km, O, norm, tag):
    out = env.call(lambda: km.normed_km)
    if env.expect_ok(out, tag + '.normed_km succeeds'):
        env.expect_matrix(out.val, O.normed(), tag + '.normed_km')


def check_normalize(env, km, O, norm, tag):
    out = env.call(km.normalize)
    if env.expect_ok(out, tag + '.normalize() succeeds'):
        check_normed(env, km, O, norm, tag)


def check_centered(env, km, O, norm, tag):
    out = env.call(lambda: km.centered)
    if O.two:
        env.prove(not out.ok, tag + '.centered rejected for two samples')
    elif env.expect_ok(out, tag + '.centered succeeds'):
        env.expect_matrix(out.val, O.centered(), tag + '.centered')


def check_frob(env, km, O, norm, tag):
    out = env.call(lambda: km.frob_norm)
    if env.expect_ok(out, tag + '.frob_norm succeeds'):
        v = out.val
        env.prove(v >= 0, tag + '.frob_norm is nonnegative')
        env.expect_close(v * v, O.frob_sq(), tag + '.frob_norm')


def check_diag(env, km, O, norm, tag):
    out = env.call(km.diagonal)
    if O.two:
        env.prove(not out.ok, tag + '.diagonal() rejected for two samples')
    elif env.expect_ok(out, tag + '.diagonal() succeeds'):
        env.expect_vector(out.val, O.diag(), tag + '.diagonal()')


def expect_block(env, km, index, rows, cols, O, tag):
    out = env.call(lambda: km[index])
    if env.expect_ok(out, tag + ' succeeds'):
        env.expect_matrix(out.val, O.sub(rows, cols), tag)


def check_elem(env, km, O, norm, tag):
    """An element below the diagonal, then its mirror image."""
    i, j = O.shape[0] - 1, 0
    expect_block(env, km, (i, j), [i], [j], O, tag + '[last,0]')
    i, j = 0, O.shape[1] - 1
    expect_block(env, km, (i, j), [i], [j], O, tag + '[0,last]')


def check_lists(env, km, O, norm, tag):
    r = sorted({O.shape[0] - 1, 0})
    c = [O.shape[1] // 2]
    expect_block(env, km, (list(reversed(r)), c), r, c, O, tag + '[list,list]')


def check_slices(env, km, O, norm, tag):
    r = list(range(1, O.shape[0])) or [0]
    s = slice(1, None) if O.shape[0] > 1 else slice(None)
    c = list(range(0, O.shape[1], 2))
    expect_block(env, km, (s, slice(None, None, 2)), r, c, O, tag + '[1:,::2]')


def check_allrows(env, km, O, norm, tag):
    """Every index listed explicitly, unordered: same as [:,:]."""
    r = list(range(O.shape[0]))
    c = list(range(O.shape[1]))
    expect_block(env, km, (r[::-1], c), r, c, O, tag + '[all,all]')


def check_flat(env, km, O, norm, tag):
    m = O.shape[0] * O.shape[1]
    p = max(0, m - O.shape[1])            # first element of the last row
    i, j = divmod(p, O.shape[1])
    expect_block(env, km, p, [i], [j], O, tag + '[flat]')


OPS = [('full', check_full), ('[:,:]', check_slice_all), ('elem', check_elem), ('sparse', check_sparse),
       ('normed', check_normed), ('centered', check_centered), ('diag', check_diag), ('lists', check_lists),
       ('frob', check_frob), ('slices', check_slices), ('all', check_allrows), ('flat', check_flat),
       ('normalize', check_normalize)]
OP = dict(OPS)


def history(env, km, O, norm, names, length, tag='km', prefix='op'):
    for t in range(length):
        nm = env.pick('%s%d' % (prefix, t), names)
        OP[nm](env, km, O, norm, '%s (step %d %s)' % (tag, t + 1, nm))


def _const(n):
    if isinstance(n, ast.Constant) and type(n.value) in (int, float):
        return n.value
    if isinstance(n, ast.BinOp):
        a, b = _const(n.left), _const(n.right)
        if a is None or b is None or max(abs(a), abs(b)) > 1e4:
            return None
        try:
            if isinstance(n.op, ast.Pow) and abs(b) <= 16:
                return a ** b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.LShift) and 0 <= b <= 16:
                return a << b
        except TypeError:
            return None
    return None


def source_int_literals(limit=64, lo=2):
    """Small integer constants in the current source: sizes at which code may behave differently."""
    import warnings
    out = set()
    d = os.path.join(REPO, 'kernelmethods')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                try:
                    tree = ast.parse(open(os.path.join(d, f)).read())
                except (OSError, SyntaxError):
                    continue
                for n in ast.walk(tree):
                    v = _const(n)
                    if v is not None and lo <= v <= limit and v == int(v):
                        out.add(int(v))
    return sorted(out)


def source_str_literals(limit=24):
    """Short string constants of the current source: names that code may treat specially."""
    import warnings
    out = set()
    d = os.path.join(REPO, 'kernelmethods')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                try:
                    tree = ast.parse(open(os.path.join(d, f)).read())
                except (OSError, SyntaxError):
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) <= limit \
                            and not any(c in n.value for c in '\n{}'):
                        out.add(n.value)
    return sorted(out)


USUAL = {2, 3, 4, 5, 6, 7, 10, 50, 100}


KNOWN_MAGNITUDES = {0, 1e-06, 0.001, 0.1, 1, 2, 3, 4, 5, 6, 7, 10, 50, 100, 0.5, 1e-8, 1e-5}


def span(x, limit=10 ** 6):
    """A bound for inputs: x, or more where the current source has a larger constant than it had."""
    return max([x] + [4 * v for v in source_numbers() if x / 4 < v <= limit and v not in KNOWN_MAGNITUDES])


def source_numbers():
    """All numeric constants of the current source."""
    import warnings
    out = set()
    d = os.path.join(REPO, 'kernelmethods')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                try:
                    tree = ast.parse(open(os.path.join(d, f)).read())
                except (OSError, SyntaxError):
                    continue
                for n in ast.walk(tree):
                    v = _const(n)
                    if v is not None:
                        out.add(abs(v))
    return sorted(out)


def sizes(tier, quick_limit=110, thorough_limit=520, small=8, new_limit=300):
    """Sizes to sweep: all small ones, and around every integer constant of the current source."""
    lim = quick_limit if tier == 'quick' else thorough_limit
    out = set(range(1, small + 1))
    for v in source_int_literals(lim):
        out |= {v - 1, v, v + 1}
        if v not in USUAL:
            out |= {v + 2, 2 * v, 2 * v + 1}
    out = {x for x in out if 1 <= x <= lim}
    # constants that the source did not have when this was written are visited even when larger
    for v in source_int_literals(new_limit):
        if v not in USUAL and v + 1 > lim:
            out |= {v, v + 1, v + 2}
    return sorted(out)


def scaled_table(env, ids, name='s'):
    """Kernel values s*c_ij for distinct constants c_ij: cheap symbolic values for large sizes."""
    s = env.real(name, lo=0.5, hi=4)
    ids = sorted(set(ids))
    T = {}
    n = len(ids)
    for a, x in enumerate(ids):
        T[x, x] = s * s * (1 + a % 3) ** 2
        for b in range(a + 1, n):
            T[x, ids[b]] = s * ((a * 31 + b * 17 + a * b * 7) % 1009 + 1)
    return T


class Odd:
    """Equal to everything."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = object.__hash__


def odd_values(env):
    """Values of many kinds."""
    np_ = env.np
    return [0, 1, -1, 1.5, 0.0, True, False, None, '', 'a', 'text', (), (1, 2), [], [1], {}, {'a': 1}, set(), {1}, frozenset((1,)),
            b'', b'a', 1j, len, lambda: 1, int, Odd, Odd(), object(), Exception('e'), ValueError, slice(None), range(3), iter([1, 2]),
            float('nan'), float('inf'), 10 ** 30, Ellipsis, NotImplemented, np_.array([1.0, 2.0]), np_.zeros((2, 2))]


__all__ = [n for n in dir() if not n.startswith('_')]
