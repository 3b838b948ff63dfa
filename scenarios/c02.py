"""C02: two-sample Gram matrix fidelity for every access form and history."""
from symk.scen import Registry
from .lib import *

R = Registry()
lookup = R.lookup

ALL = [n for n, _ in OPS]
SHAPES = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 4)]


def two_table(env, ids1, ids2, ordered=False):
    """Kernel values; with `ordered`, k(x, y) and k(y, x) differ (x from the first sample)."""
    T = {}
    for a in sorted(set(ids1) | set(ids2)):
        T[a, a] = env.real('K_%d_%d' % (a, a), lo=0.5, hi=50)
    for a in ids1:
        for b in ids2:
            if a == b or (a, b) in T:
                continue
            if not ordered and (b, a) in T:
                continue
            T[a, b] = env.real('K_%d_%d' % (a, b), lo=-BOUND, hi=BOUND)
            if ordered and (b, a) not in T:
                T[b, a] = T[a, b] + 1000
    return T


def _ids(shape, kind):
    n1, n2 = shape
    a = list(range(n1))
    if kind == 'disjoint':
        return a, list(range(10, 10 + n2))
    if kind == 'overlap':                      # one point is in both samples
        return a, [a[-1]] + list(range(10, 10 + n2 - 1))
    if kind == 'same':                         # the same points in the other order
        return a, (a[::-1] * 5)[:n2]
    return a, a[:]                             # identical


def _km(env, ids1, ids2, T, norm):
    base = env.mod('base')
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
    km.attach_to(id_sample(env, ids1), 'one', id_sample(env, ids2), 'two')
    return km


def _facts(env, km, shape):
    env.prove(tuple(km.shape) == shape, 'shape')
    env.prove(tuple(km.num_samples) == shape, 'num_samples')
    env.prove(km.size == shape[0] * shape[1] and len(km) == shape[0] * shape[1], 'size')


def _hist(tier):
    out = []
    for norm in (False, True):
        for sh in SHAPES:
            out.append(dict(shape=sh, norm=norm, length=2, first=None))
        for sh in [(3, 2), (2, 3)] if tier == 'quick' else SHAPES:
            for f in ALL:
                out.append(dict(shape=sh, norm=norm, length=3, first=f))
    return out


@R.add(variants=_hist, wits=2)
def histories(env, shape, norm, length, first):
    """Every sequence of accesses to a two-sample matrix yields k(x_i, y_j)."""
    i1, i2 = _ids(shape, 'disjoint')
    T = two_table(env, i1, i2)
    km = _km(env, i1, i2, T, norm)
    O = Oracle(env, T, i1, i2)
    _facts(env, km, shape)
    if first is not None:
        OP[first](env, km, O, norm, 'km (step 0 %s)' % first)
        length -= 1
    history(env, km, O, norm, ALL, length)
    _facts(env, km, shape)


@R.add(variants=[dict(shape=s, kind=k, norm=nm) for s in ((3, 3), (3, 2), (2, 3)) for k in ('overlap', 'same', 'identical')
                 for nm in (False, True) if not (k == 'identical' and s[0] != s[1])], wits=2)
def shared_points(env, shape, kind, norm):
    """Points common to both samples; both samples equal up to order."""
    i1, i2 = _ids(shape, kind)
    T = two_table(env, i1, i2)
    km = _km(env, i1, i2, T, norm)
    O = Oracle(env, T, i1, i2)
    history(env, km, O, norm, ['full', 'elem', '[:,:]', 'lists', 'sparse', 'normed'], 2)


@R.add(variants=[dict(shape=s) for s in ((3, 3), (3, 2), (2, 3))], wits=2)
def argument_order(env, shape):
    """The row comes from the first sample, the column from the second (k need not be symmetric)."""
    i1, i2 = _ids(shape, 'disjoint')
    T = two_table(env, i1, i2, ordered=True)
    km = _km(env, i1, i2, T, False)
    O = Oracle(env, T, i1, i2)
    history(env, km, O, False, ['full', 'elem', '[:,:]', 'slices', 'sparse'], 2)


@R.add(wits=2)
def same_object_twice(env):
    """The very same array given as both samples."""
    base = env.mod('base')
    ids = [0, 1, 2]
    T = {(a, b): env.real('K_%d_%d' % (a, b), lo=-BOUND, hi=BOUND) for a in ids for b in ids}
    for a in ids:
        env.assume(T[a, a] >= 0.5)
    X = id_sample(env, ids)
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=False)
    km.attach_to(X, sample_two=X)
    O = Oracle(env, T, ids, ids)
    history(env, km, O, False, ['full', 'elem', '[:,:]', 'slices', 'sparse', 'diag', 'centered'], 2)


@R.add(variants=[dict(shape=s, norm=nm) for s in ((3, 2), (2, 3), (3, 3)) for nm in (False, True)], wits=3)
def symbolic_element(env, shape, norm):
    """km[i, j] at a symbolic position."""
    i1, i2 = _ids(shape, 'disjoint')
    T = two_table(env, i1, i2)
    km = _km(env, i1, i2, T, norm)
    O = Oracle(env, T, i1, i2)
    pre = env.pick('pre', [None, 'full', 'sparse', 'elem', 'normed'])
    if pre:
        OP[pre](env, km, O, norm, pre)
    i, j = env.int('i', 0, shape[0] - 1), env.int('j', 0, shape[1] - 1)
    out = env.call(lambda: km[i, j])
    if env.expect_ok(out, 'km[i,j] succeeds'):
        env.expect_matrix(out.val, O.sub([int(i)], [int(j)]), 'km[i,j]')
    p = int(i) * shape[1] + int(j)
    expect_block(env, km, p, [int(i)], [int(j)], O, 'km[p]')


@R.add(variants=[dict(shape=s, step=st) for s in ((3, 2), (2, 3), (3, 3)) for st in (None, -1, 2)], wits=3)
def symbolic_slices(env, shape, step):
    """Row and column slices are taken relative to the right dimension."""
    i1, i2 = _ids(shape, 'disjoint')
    T = two_table(env, i1, i2)
    km = _km(env, i1, i2, T, False)
    O = Oracle(env, T, i1, i2)
    m = max(shape)
    a = None if env.pick('an', [0, 1]) else int(env.int('a', -m - 1, m + 1))
    b = None if env.pick('bn', [0, 1]) else int(env.int('b', -m - 1, m + 1))
    sl = slice(a, b, step)
    for dim in (0, 1):
        sel = sorted(range(shape[dim])[sl])
        ix = (sl, 0) if dim == 0 else (0, sl)
        out = env.call(lambda: km[ix])
        if not sel:
            env.prove(out.raised(env.mod('config').KMAccessError), 'empty selection is rejected')
        elif env.expect_ok(out, 'slice along dim %d succeeds' % dim):
            env.expect_matrix(out.val, O.sub(sel, [0]) if dim == 0 else O.sub([0], sel), 'slice along dim %d' % dim)
    full_rows, full_cols = list(range(shape[0])), list(range(shape[1]))
    expect_block(env, km, (slice(None), [0]), full_rows, [0], O, 'km[:,[0]]')
    expect_block(env, km, ([0], slice(None)), [0], full_cols, O, 'km[[0],:]')


def _sizes(tier):
    out = []
    for n in sizes(tier, quick_limit=110):
        if n > 12 and tier == 'quick':
            out.append(dict(shape=(n, 3), norm=False))
            out.append(dict(shape=(3, n), norm=True))
            if n in (50, 101):
                out.append(dict(shape=(n, n), norm=False))
        else:
            out += [dict(shape=(n, 3), norm=True), dict(shape=(3, n), norm=False), dict(shape=(n, n), norm=True)]
    return out


@R.add(variants=_sizes, wits=1)
def size_sweep(env, shape, norm):
    """Shapes around every integer constant of the source."""
    i1 = list(range(shape[0]))
    i2 = list(range(1000, 1000 + shape[1]))
    s = env.real('s', lo=0.5, hi=4)
    T = {}
    for q, a in enumerate(i1 + i2):
        T[a, a] = s * s * (1 + q % 3) ** 2
    for p, a in enumerate(i1):
        for q, b in enumerate(i2):
            T[a, b] = s * ((p * 31 + q * 17 + p * q * 7) % 1009 + 1)
    km = _km(env, i1, i2, T, norm)
    O = Oracle(env, T, i1, i2)
    big = shape[0] * shape[1] > 900
    first = env.pick('first', ['full', 'elem'] if big else ['full', 'sparse', 'elem', '[:,:]', 'slices', 'lists'])
    OP[first](env, km, O, norm, 'km (%s)' % first)
    OP['full'](env, km, O, norm, 'km (full after %s)' % first)


@R.add(variants=[dict(kern=k, norm=nm) for k in ('linear', 'poly', 'gaussian', 'laplacian', 'hadamard', 'chi2')
                 for nm in (False, True)], wits=2)
def real_kernels(env, kern, norm):
    """With the library's own kernels on two symbolic samples."""
    base, nk = env.mod('base'), env.mod('numeric_kernels')
    k = {'linear': nk.LinearKernel, 'poly': nk.PolyKernel, 'gaussian': nk.GaussianKernel, 'chi2': nk.Chi2Kernel,
         'laplacian': nk.LaplacianKernel, 'hadamard': nk.HadamardKernel}[kern]()
    n1, n2 = env.pick('shape', [(2, 1), (1, 2), (2, 2)])
    X = env.np.array(env.reals('x', (n1, 2), lo=0.25, hi=3))
    Y = env.np.array(env.reals('y', (n2, 2), lo=0.25, hi=3))
    T = {(i, 10 + j): k(X[i, :], Y[j, :]) for i in range(n1) for j in range(n2)}
    for i in range(n1):
        T[i, i] = k(X[i, :], X[i, :])
    for j in range(n2):
        T[10 + j, 10 + j] = k(Y[j, :], Y[j, :])
    if norm:
        for i in list(range(n1)) + [10 + j for j in range(n2)]:
            env.assume(T[i, i] >= 0.01)
    O = Oracle(env, T, range(n1), [10 + j for j in range(n2)])
    km = base.KernelMatrix(k, normalized=norm)
    km.attach_to(X, sample_two=Y)
    first = env.pick('first', ['elem', 'full', 'sparse'])
    OP[first](env, km, O, norm, 'km (%s)' % first)
    OP['full'](env, km, O, norm, 'km (full)')


@R.add(variants=[dict(view=v) for v in ('full', '[:,:]', 'elem', 'row', 'list', 'flat', 'sparse')], wits=3)
def exact_values(env, view):
    """The very value the kernel function returned, to the last digit."""
    base = env.mod('base')
    i1, i2 = [0, 1, 2], [3, 4]
    T = two_table(env, [0, 1, 2], [3, 4])
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=False)
    km.attach_to(id_sample(env, i1), sample_two=id_sample(env, i2))
    O = Oracle(env, T, i1, i2)
    n, m = O.shape
    W = O.raw()
    if view == 'full':
        G = km.full
    elif view == '[:,:]':
        G = km[:, :]
    elif view == 'sparse':
        G = km.full_sparse.toarray()
        W = [[W[i][j] if i <= j else G[i, j] for j in range(m)] for i in range(n)]
    elif view == 'elem':
        G = env.np.array([[km[i, j][0, 0] for j in range(m)] for i in range(n)])
    elif view == 'row':
        G = env.np.array([list(km[i, :][0]) for i in range(n)])
    elif view == 'list':
        G = km[[0, 1], [0]]
        W = [[W[0][0]], [W[1][0]]]
    elif view == 'flat':
        G = env.np.array([[km[i * m + j][0, 0] for j in range(m)] for i in range(n)])
    else:
        d = km.diagonal()
        for i in range(n):
            env.expect_tight(d[i], W[i][i], view, rel=0)
        return
    for i in range(len(W)):
        for j in range(len(W[0])):
            env.expect_tight(G[i, j], W[i][j], view, rel=0)


@R.add(variants=[dict(what=w, length=2) for w in ('same', 'rev', 'tail', 'head', 'step', 'whole')], wits=3)
def views_of_one_sample(env, what, length):
    """The second sample may be a view into the first one (or the reverse), in any order."""
    norm = env.pick('norm', [False, True])
    ids = [0, 1, 2]
    X = id_sample(env, ids)
    Y, j2 = {'same': lambda: (X, ids), 'rev': lambda: (X[::-1], ids[::-1]), 'tail': lambda: (X[1:], ids[1:]),
             'head': lambda: (X[:2], ids[:2]), 'step': lambda: (X[::2], ids[::2]), 'whole': lambda: (X[:], ids)}[what]()
    if env.pick('swap', [False, True]):
        X, Y, ids, j2 = Y, X, j2, ids
    T = sym_table(env, [0, 1, 2], lo_diag=0.001)
    base = env.mod('base')
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
    km.attach_to(X, sample_two=Y)
    O = Oracle(env, T, ids, j2)
    for t in range(length):
        nm = env.pick('op%d' % t, ['full', 'sparse', 'elem', '[:,:]', 'slices', 'normed', 'frob', 'flat'])
        OP[nm](env, km, O, norm, '%s: %s' % (what, nm))
    _facts(env, km, (len(ids), len(j2)))


@R.add(variants=[dict(unit=u, shape=s) for u in UNITS for s in ((2, 3), (3, 2))], wits=3)
def magnitudes(env, unit, shape):
    """Kernel values of any magnitude are kept, however small or large all of them are."""
    norm = env.pick('norm', [False, True])
    ids1, ids2 = list(range(shape[0])), list(range(shape[0], sum(shape)))
    T = unit_table(env, ids1 + ids2, unit, max(unit, 1.0) if norm else unit)
    km = _km(env, ids1, ids2, T, norm)
    O = Oracle(env, T, ids1, ids2)
    first = env.pick('first', ['full', '[:,:]', 'sparse', 'elem', 'slices'] + (['normed'] if norm else ['frob']))
    OP[first](env, km, O, norm, 'km (%s)' % first)
    second = env.pick('second', ['full', '[:,:]', 'sparse', 'elem'] + (['normed'] if norm else []))
    OP[second](env, km, O, norm, 'km (%s, then %s)' % (first, second))
