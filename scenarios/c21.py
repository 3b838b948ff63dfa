"""C21: precomputed and constant kernel matrices."""
from symk.scen import Registry
from .lib import *

R = Registry()
lookup = R.lookup


def err(env):
    return env.mod('config').KMAccessError


def symm(env, n, name='a'):
    return [[env.real('%s_%d_%d' % (name, min(i, j), max(i, j)), lo=-9, hi=9) for j in range(n)] for i in range(n)]


def given(env, A, form):
    if form == 'list':
        return [list(r) for r in A]
    if form == 'tuple':
        return tuple(tuple(r) for r in A)
    return env.np.array(A)


FORMS = ['array', 'list', 'tuple']


def views(env, km, A, tag=''):
    n = len(A)
    env.prove(km.num_samples == n, tag + 'number of samples')
    env.prove(km.size == n and len(km) == n, tag + 'size')
    env.expect_matrix(km.full, A, tag + 'full')
    env.expect_vector(km.diag, [A[i][i] for i in range(n)], tag + 'diagonal')


@R.add(variants=[dict(n=n) for n in (1, 2, 3)], wits=3)
def accepted(env, n):
    """Every symmetric matrix is taken and shown as it is, in any form it is given."""
    base = env.mod('base')
    A = symm(env, n)
    X = given(env, A, env.pick('form', FORMS))
    out = env.call(base.KernelMatrixPrecomputed, X)
    if env.expect_ok(out, 'accepted'):
        views(env, out.val, A)
        env.expect_matrix(env.np.array(X), A, 'the input is unchanged')
        views(env, out.val, A, 'again: ')


@R.add(variants=[dict(n=n) for n in (2, 3)], wits=4)
def asymmetric(env, n):
    """A difference at any one mirrored pair is refused; otherwise accepted."""
    base = env.mod('base')
    A = symm(env, n)
    i, j = env.pick('at', [(i, j) for i in range(n) for j in range(n) if i != j])
    A[i][j] = env.real('other', lo=-9, hi=9)
    d = A[i][j] - A[j][i]
    env.assume(env.any_([d >= 0.01, d <= -0.01, d == 0]))
    out = env.call(base.KernelMatrixPrecomputed, given(env, A, env.pick('form', FORMS)))
    if env.is_true(d == 0):
        if env.expect_ok(out, 'accepted'):
            views(env, out.val, A)
    else:
        env.prove(out.raised(ValueError), 'refused', soft=out)


@R.add(variants=[dict(n=n) for n in (2, 3)], wits=4)
def arbitrary(env, n):
    """All entries free: accepted exactly when all mirrored pairs agree."""
    base = env.mod('base')
    A = [[env.real('b_%d_%d' % (i, j), lo=-9, hi=9) for j in range(n)] for i in range(n)]
    same = []
    for i in range(n):
        for j in range(i):
            d = A[i][j] - A[j][i]
            env.assume(env.any_([d >= 0.01, d <= -0.01, d == 0]))
            same.append(env.is_true(d == 0))
    out = env.call(base.KernelMatrixPrecomputed, env.np.array(A))
    env.prove(out.ok if all(same) else out.raised(ValueError), 'accepted exactly when symmetric', soft=out)


@R.add(wits=4)
def bad_shapes(env):
    """Things that are no square real matrix."""
    base = env.mod('base')
    x = env.real('x', lo=-9, hi=9)
    what = env.pick('what', ['1d', '3d', 'row', 'col', 'wide', 'tall', 'scalar', 'nan', 'flat'])
    X = {'1d': lambda: env.np.array([x, x]), '3d': lambda: env.np.array([[[x, x], [x, x]], [[x, x], [x, x]]]),
         'row': lambda: env.np.array([[x, x]]), 'col': lambda: env.np.array([[x], [x]]),
         'wide': lambda: env.np.array([[x, x, x], [x, x, x]]), 'tall': lambda: env.np.array([[x, x], [x, x], [x, x]]),
         'scalar': lambda: x, 'nan': lambda: env.np.array([[x, env.nan], [env.nan, x]]), 'flat': lambda: [x, x, x, x]}[what]()
    out = env.call(base.KernelMatrixPrecomputed, X)
    env.prove(out.raised(ValueError), 'refused', soft=out)


@R.add(variants=[dict(n=n) for n in (2, 3)], wits=4)
def selections(env, n):
    """Elements, rows, slices and lists; repeatedly."""
    base = env.mod('base')
    A = symm(env, n)
    km = base.KernelMatrixPrecomputed(given(env, A, env.pick('form', FORMS[:2])))
    for t in range(2):
        sel = env.pick('sel%d' % t, ['elem', 'row', 'col', 'slice', 'rows', 'step', 'all', 'neg'])
        i, j = env.pick('i%d' % t, list(range(n))), (t + 1) % n
        if sel == 'elem':
            env.expect_close(km[i, j], A[i][j], 'element')
        elif sel == 'row':
            env.expect_vector(km[i], A[i], 'row')
            env.expect_vector(km[i, :], A[i], 'row')
        elif sel == 'col':
            env.expect_vector(km[:, i], [r[i] for r in A], 'column')
        elif sel == 'slice':
            env.expect_matrix(km[i:, :j + 1], [r[:j + 1] for r in A[i:]], 'block')
        elif sel == 'rows':
            env.expect_matrix(km[[j, i], :], [A[j], A[i]], 'rows listed')
        elif sel == 'step':
            env.expect_matrix(km[::2, ::-1], [r[::-1] for r in A[::2]], 'steps')
        elif sel == 'neg':
            env.expect_close(km[-1, i], A[n - 1][i], 'from the end')
        else:
            env.expect_matrix(km[:, :], A, 'all')
    views(env, km, A, 'afterwards: ')


@R.add(wits=4)
def bad_selections(env):
    """Refused as access errors, and harmless."""
    base = env.mod('base')
    n = 2
    A = symm(env, n)
    km = base.KernelMatrixPrecomputed(env.np.array(A))
    b = env.int('b', -9, 9)
    what = env.pick('what', ['row', 'col', 'single', 'text', 'three', 'float', 'listed'])
    if what in ('row', 'col', 'single', 'listed'):
        env.assume(env.any_([b < -n, b >= n]))
    ix = {'row': (b, 0), 'col': (0, b), 'single': b, 'text': 'a', 'three': (0, 0, 0), 'float': (0.5, 0), 'listed': ([0, b], 0)}[what]
    out = env.call(lambda: km[ix])
    env.prove(out.raised(err(env)), 'refused', soft=out)
    views(env, km, A, 'afterwards: ')


# --- constant


def const(env, n=3, **kw):
    base = env.mod('base')
    v = env.real('v', lo=-9, hi=9)
    return base.ConstantKernelMatrix(n, v, **kw), v


@R.add(variants=[dict(n=n) for n in (1, 2, 4)], wits=3)
def constant_views(env, n):
    """The constant everywhere."""
    km, v = const(env, n)
    for t in range(2):
        env.prove(km.num_samples == n and km.size == n and len(km) == n, 'size')
        env.prove(tuple(km.shape) == (n, n), 'shape')
        env.expect_matrix(km.full, [[v] * n] * n, 'full')
        env.expect_vector(km.diag, [v] * n, 'diagonal')
        env.expect_matrix(km[:, :], [[v] * n] * n, 'all')


@R.add(wits=3)
def constant_default(env):
    """Zero by default; integers if asked for."""
    base = env.mod('base')
    n = env.pick('n', [1, 3])
    km = base.ConstantKernelMatrix(n)
    env.expect_matrix(km.full, [[env.const(0)] * n] * n, 'zero')
    v = env.int('w', -5, 5)
    for dt in ('int', 'float'):
        km = base.ConstantKernelMatrix(n, v, dtype=dt)
        env.expect_matrix(km.full, [[v * env.const(1)] * n] * n, dt)
        env.expect_vector(km.diag, [v * env.const(1)] * n, dt)
        env.expect_matrix(km[0, :], [[v * env.const(1)] * n], dt)


@R.add(wits=5)
def constant_selections(env):
    """Any selection has the constant at each row and column selected."""
    n = 4
    km, v = const(env, n)
    def pick(dim):
        w = env.pick('w%d' % dim, ['int', 'np', 'slice', 'step', 'list', 'dups', 'array', 'all'])
        i = env.pick('i%d' % dim, [0, 1, 3])
        return {'int': (i, 1), 'np': (env.npint(i, 'int32'), 1), 'slice': (slice(0, i + 1), i + 1), 'step': (slice(0, 4, 2), 2),
                'list': ([i, 2], 2), 'dups': ([i, i], 1), 'array': (env.np.array([0, 2]), 2), 'all': (slice(None), n)}[w]
    (a, r), (b, c) = pick(0), pick(1)
    out = env.call(lambda: km[a, b])
    if env.expect_ok(out, 'selected'):
        env.expect_matrix(out.val, [[v] * c] * r, 'block')


@R.add(wits=5)
def constant_refusals(env):
    """Out of range, empty or malformed."""
    n = 3
    km, v = const(env, n)
    b = env.int('b', -12, 12)
    env.assume(env.any_([b < 0, b >= n]))
    bad = env.pick('what', ['int', 'list', 'empty slice', 'empty list', 'text', 'none', 'float'])
    x = {'int': b, 'list': [0, b], 'empty slice': slice(3, None), 'empty list': [], 'text': '0', 'none': None, 'float': 1.5}[bad]
    g = env.pick('g', [0, 2])
    out = env.call(lambda: km[(x, g) if env.pick('dim', [0, 1]) == 0 else (g, x)])
    env.prove(out.raised(err(env)), 'refused', soft=out)
    w = env.pick('whole', ['scalar', 'three', 'str', 'one'])
    out = env.call(lambda: km[{'scalar': 1, 'three': (0, 1, 2), 'str': 'ab', 'one': (1,)}[w]])
    env.prove(out.raised(err(env)), 'refused', soft=out)
    env.expect_matrix(km.full, [[v] * n] * n, 'full afterwards')


@R.add(wits=3)
def in_sets(env):
    """Precomputed matrices in sets and composites keep their values."""
    base = env.mod('base')
    A, B = symm(env, 2, 'a'), symm(env, 2, 'b')
    ks = base.KernelSet([base.KernelMatrixPrecomputed(env.np.array(A)), base.KernelMatrixPrecomputed(env.np.array(B))])
    env.expect_matrix(ks[0].full, A, 'first')
    env.expect_matrix(ks[1].full, B, 'second')
    s = base.SumKernel(ks)
    s.fit()
    env.expect_matrix(s.composite_KM, [[A[i][j] + B[i][j] for j in range(2)] for i in range(2)], 'sum')
    p = base.ProductKernel(ks)
    p.fit()
    env.expect_matrix(p.composite_KM, [[A[i][j] * B[i][j] for j in range(2)] for i in range(2)], 'product')
    env.expect_matrix(ks[0].full, A, 'first unchanged')


@R.add(variants=lambda t: [dict(n=n) for n in sizes(t, quick_limit=34)], wits=1)
def size_sweep(env, n):
    """Any size."""
    base = env.mod('base')
    O = Oracle(env, scaled_table(env, range(n)), list(range(n)))
    A = O.raw()
    v = env.real('v', lo=-9, hi=9)
    i, j = env.pick('at', sorted({(0, n - 1), (n // 2, n - 1), (n - 1, 0), (n - 1, n // 2)}))
    out = env.call(base.KernelMatrixPrecomputed, env.np.array(A))
    if env.expect_ok(out, 'accepted'):
        views(env, out.val, A)
        env.expect_close(out.val[i, j], A[i][j], 'element')
    if i != j:
        B = [list(r) for r in A]
        B[i][j] = B[i][j] + env.const(10)
        out = env.call(base.KernelMatrixPrecomputed, env.np.array(B))
        env.prove(out.raised(ValueError), 'refused', soft=out)
    c = base.ConstantKernelMatrix(n, v)
    env.expect_matrix(c[:, i], [[v]] * n, 'constant')
    env.expect_vector(c.diag, [v] * n, 'constant')


@R.add(variants=[dict(dt=d) for d in ('int8', 'uint8', 'int16', 'int32', 'int64', 'float32')], wits=3)
def number_types(env, dt):
    """Any number type, over all of its range: the values are the ones given."""
    base = env.mod('base')
    lo, hi = {'int8': (-128, 127), 'uint8': (0, 255), 'int16': (-2**15, 2**15 - 1)}.get(dt, (-2**31, 2**31 - 1))
    if dt == 'float32':
        v = [[0.5, -1.25], [-1.25, 4096.0]]
    else:
        e = [env.int('a%d' % i, lo, hi) for i in range(3)]
        v = [[e[0], e[1]], [e[1], e[2]]]
    A = [[x * env.const(1) for x in r] for r in v]
    out = env.call(base.KernelMatrixPrecomputed, env.typed(v, dt))
    if env.expect_ok(out, 'accepted'):
        km = out.val
        views(env, km, A)
        for i in range(2):
            for j in range(2):
                env.expect_close(km[i, j], A[i][j], 'element')
        env.expect_matrix(km[:, :], A, 'all')


@R.add(wits=3)
def constant_types(env):
    """Constants of various types are kept as they are, everywhere."""
    base = env.mod('base')
    kind = env.pick('kind', ['int', 'neg', 'real', 'int as int', 'zero'])
    v = {'int': 3, 'neg': -7, 'zero': 0, 'int as int': 200}.get(kind)
    if v is None:
        v = env.real('v', lo=-1e6, hi=1e6)
    km = base.ConstantKernelMatrix(3, v, dtype='int') if kind == 'int as int' else base.ConstantKernelMatrix(3, v)
    c = v * env.const(1)
    for rnd in range(2):
        env.expect_matrix(km.full, [[c] * 3] * 3, 'full')
        env.expect_vector(km.diag, [c] * 3, 'diagonal')
        env.expect_matrix(km[0:2, [2]], [[c], [c]], 'selection')
        env.expect_matrix(km[1, 1], [[c]], 'element')


@R.add(wits=4)
def large_constants(env):
    """Constants of any magnitude, whole or not."""
    base = env.mod('base')
    lo, hi = env.pick('m', [(1e9, 1e12), (-1e15, -1e10), (1e-12, 1e-6), (-1, 1), (100, 70000)])
    v = env.real('v', lo=lo, hi=hi)
    if env.pick('whole', [True, False]):
        v = env.pick('w', [0, 1, 127, 128, 255, 256, 32768, 65536, 2 ** 31, 2 ** 32, 10 ** 12, -129, -2 ** 31 - 1, 16777217])
        v = env.pick('as', [v, float(v)])
    km = base.ConstantKernelMatrix(2, v)
    c = v * env.const(1)
    for M in (km.full, km[:, :], km[[0, 1], 0:2]):
        for i in range(2):
            for j in range(2):
                env.expect_tight(M[i, j], c, 'constant')
    env.expect_tight(km.diag[1], c, 'diagonal')


@R.add(wits=4)
def precise(env):
    """Values are kept to the last digit, in whatever form they are given."""
    base = env.mod('base')
    form = env.pick('form', FORMS)
    e = [env.real('e%d' % i, lo=0, hi=1e-9) for i in range(3)]
    b = env.pick('b', [1.0, -3.0, 1000.0])
    A = [[b + e[0], b + e[1]], [b + e[1], b + e[2]]]
    km = base.KernelMatrixPrecomputed(given(env, A, form))
    for i in range(2):
        for j in range(2):
            env.expect_tight(km.full[i, j], A[i][j], 'value', rel=1e-15)
            env.expect_tight(km[i, j], A[i][j], 'element', rel=1e-15)


@R.add(wits=4)
def long_selections(env):
    """Constant: selections longer than the matrix: repeated positions are selected once, any out of range is refused."""
    base = env.mod('base')
    n = env.pick('n', [1, 2])
    v = env.real('v', lo=-5, hi=5)
    km = base.ConstantKernelMatrix(n, v)
    m = env.pick('m', [n + 1, n + 3])
    r = [int(env.int('r%d' % t, -1, n)) for t in range(2)]
    rows = [r[0]] * m
    rows[env.pick('pos', [0, m // 2, m - 1])] = r[1]
    col = env.pick('col', [0, [0] * (n + 2), slice(None)])
    nc = n if isinstance(col, slice) else 1
    form = env.pick('form', [list, env.np.array])
    swap = env.pick('swap', [False, True])
    ix = (col, form(rows)) if swap else (form(rows), col)
    out = env.call(lambda: km[ix])
    if any(a < 0 or a >= n for a in rows):
        env.prove(out.raised(err(env)), 'out of range refused', soft=out)
    elif env.expect_ok(out, 'selected'):
        nr = len(set(rows))
        if swap:
            nr, nc = nc, nr
        env.expect_matrix(out.val, [[v] * nc for _ in range(nr)], 'values')


@R.add(variants=[dict(n=n) for n in (2, 3)], wits=4)
def paired_lists(env, n):
    """Lists of rows and columns select as in the array given: element by element; mixed with slices, whole lines."""
    base = env.mod('base')
    K = env.symm('K', n)
    P = base.KernelMatrixPrecomputed(env.np.array(K))
    k = env.pick('k', [1, 2, 3])
    rows = [env.choice('r%d' % t, n) for t in range(k)]
    cols = [env.choice('c%d' % t, n) for t in range(k)]
    form = env.pick('form', ['list', 'array', 'tuple'])
    mk = {'list': list, 'array': env.np.array, 'tuple': tuple}[form]
    out = env.call(lambda: P[mk(rows), mk(cols)])
    if env.expect_ok(out, 'accepted'):
        env.expect_vector(out.val, [K[a][b] for a, b in zip(rows, cols)], 'pairs')


@R.add(variants=[dict(unit=u) for u in UNITS], wits=3)
def magnitudes(env, unit):
    """Given values however small or large all of them are."""
    base = env.mod('base')
    env.unit = unit
    M = [[x * unit for x in r] for r in env.symm('M', 3)]
    km = base.KernelMatrixPrecomputed(env.np.array(M))
    env.expect_matrix(km.full, M, 'full')
    for i in range(3):
        for j in range(3):
            env.expect_close(km[i, j], M[i][j], 'element')
    v = env.real('v', lo=0.5, hi=100) * unit
    ck = base.ConstantKernelMatrix(num_samples=2, value=v)
    env.expect_matrix(ck.full, [[v, v], [v, v]], 'constant')
