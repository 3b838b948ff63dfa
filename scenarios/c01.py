"""C01: single-sample Gram matrix fidelity for every access form and history."""
from symk.scen import Registry
from .lib import *

R = Registry()
lookup = R.lookup

ALL = [n for n, _ in OPS]


def _km(env, ids, T, norm):
    base = env.mod('base')
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
    km.attach_to(id_sample(env, ids))
    return km


def _hist_variants(tier):
    out = []
    for norm in (False, True):
        for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)):
            L = 2 if n == 1 else (3 if tier == 'thorough' or n == 3 else 2)
            for first in ALL if (L == 3) else [None]:
                out.append(dict(n=n, norm=norm, length=L, first=first))
    if tier == 'thorough':
        for norm in (False, True):
            for first in ALL:
                out.append(dict(n=3, norm=norm, length=4, first=first))
    return out


@R.add(variants=_hist_variants, wits=2)
def histories(env, n, norm, length, first):
    """Every sequence of access operations yields K(x_i, x_j) for all kernel values."""
    ids = list(range(n))
    T = sym_table(env, ids)
    km = _km(env, ids, T, norm)
    O = Oracle(env, T, ids)
    env.prove(tuple(km.shape) == (n, n), 'shape')
    env.prove(km.num_samples == n, 'num_samples')
    env.prove(km.size == n * n and len(km) == n * n, 'size')
    if first is not None:
        OP[first](env, km, O, norm, 'km (step 0 %s)' % first)
        length -= 1
    history(env, km, O, norm, ALL, length)


@R.add(variants=[dict(norm=False), dict(norm=True)], wits=3)
def duplicate_rows(env, norm):
    """Samples with repeated rows."""
    ids = [0, 1, 0, 2]
    T = sym_table(env, ids)
    km = _km(env, ids, T, norm)
    O = Oracle(env, T, ids)
    history(env, km, O, norm, ['full', '[:,:]', 'elem', 'lists', 'sparse', 'diag'], 2)


PRE = [None, 'full', 'sparse', 'elem', '[:,:]', 'normed', 'centered']


def _prefix(env, km, O, norm, pre):
    if pre is not None:
        OP[pre](env, km, O, norm, 'km (%s)' % pre)


@R.add(variants=[dict(n=n, norm=nm) for n in (1, 3) for nm in (False, True)], wits=4)
def symbolic_element(env, n, norm):
    """km[i, j] for a symbolic position, of any integer type, after any kind of access."""
    ids = list(range(n))
    T = sym_table(env, ids)
    km = _km(env, ids, T, norm)
    O = Oracle(env, T, ids)
    _prefix(env, km, O, norm, env.pick('pre', PRE))
    i, j = env.int('i', 0, n - 1), env.int('j', 0, n - 1)
    ty = env.pick('ty', ['int', 'int64', 'int32', 'uint8'])
    out = env.call(lambda: km[env.npint(i, ty), env.npint(j, ty)])
    if env.expect_ok(out, 'km[i,j] succeeds'):
        env.expect_matrix(out.val, O.sub([int(i)], [int(j)]), 'km[i,j]')


@R.add(variants=[dict(n=3, norm=False), dict(n=2, norm=True)], wits=4)
def symbolic_flat(env, n, norm):
    """km[p] reads position p of the flattened matrix."""
    ids = list(range(n))
    T = sym_table(env, ids)
    km = _km(env, ids, T, norm)
    O = Oracle(env, T, ids)
    _prefix(env, km, O, norm, env.pick('pre', PRE))
    p = env.int('p', 0, n * n - 1)
    ty = env.pick('ty', ['int', 'int64'])
    out = env.call(lambda: km[env.npint(p, ty)])
    if env.expect_ok(out, 'km[p] succeeds'):
        env.expect_matrix(out.val, O.sub([int(p) // n], [int(p) % n]), 'km[p]')


@R.add(variants=[dict(form=f) for f in ('list', 'tuple', 'array', 'set', 'range')], wits=4)
def symbolic_lists(env, form):
    """km[rows, cols] for symbolic index collections: the block on the distinct indices, in order."""
    n = 3
    ids = list(range(n))
    T = sym_table(env, ids)
    km = _km(env, ids, T, False)
    O = Oracle(env, T, ids)
    _prefix(env, km, O, False, env.pick('pre', [None, 'full', 'sparse']))
    if form == 'range':
        a, b = int(env.int('a', 0, n - 1)), int(env.int('b', 1, n))
        env.assume(a < b)
        rows = list(range(a, b))
        robj = range(a, b)
    else:
        m = env.pick('m', [1, 2, 3])
        rows = [int(env.int('r%d' % t, 0, n - 1)) for t in range(m)]
        robj = {'list': list, 'tuple': tuple, 'set': set, 'array': env.np.array}[form](rows)
    c = int(env.int('c', 0, n - 1))
    swap = env.pick('swap', [False, True])
    R_ = sorted(set(rows))
    cols = {'list': [c], 'tuple': (c,), 'set': {c}, 'array': env.np.array([c]), 'range': range(c, c + 1)}[form]
    if swap:
        expect_block(env, km, (cols, robj), [c], R_, O, 'km[cols,rows]')
    else:
        expect_block(env, km, (robj, cols), R_, [c], O, 'km[rows,cols]')
    expect_block(env, km, (robj, robj), R_, R_, O, 'km[rows,rows]')


@R.add(variants=lambda t: [dict(n=n, step=s) for n in ((3,) if t == 'quick' else (3, 4))
                           for s in (None, 1, 2, -1, -2)], wits=4)
def symbolic_slices(env, n, step):
    """Slices select what they select on a numpy array (empty selections are rejected)."""
    ids = list(range(n))
    T = sym_table(env, ids)
    km = _km(env, ids, T, False)
    O = Oracle(env, T, ids)
    _prefix(env, km, O, False, env.pick('pre', [None, 'full', 'sparse']))
    a = env.int('a', -n - 1, n + 1)
    b = env.int('b', -n - 1, n + 1)
    a = None if env.pick('a_none', [False, True]) else int(a)
    b = None if env.pick('b_none', [False, True]) else int(b)
    sl = slice(a, b, step)
    sel = sorted(range(n)[sl])
    out = env.call(lambda: km[sl, 0])
    if not sel:
        env.prove(out.raised(env.mod('config').KMAccessError), 'empty selection is rejected')
        return
    if env.expect_ok(out, 'km[slice,0] succeeds'):
        env.expect_matrix(out.val, O.sub(sel, [0]), 'km[slice,0]')
    expect_block(env, km, (n - 1, sl), [n - 1], sel, O, 'km[last,slice]')
    expect_block(env, km, (sl, sl), sel, sel, O, 'km[slice,slice]')


def _size_variants(tier):
    return [dict(n=n, norm=norm) for n in sizes(tier) for norm in (False, True)]


@R.add(variants=_size_variants, wits=1)
def size_sweep(env, n, norm):
    """Sizes around every integer constant of the source, with scaled symbolic kernel values."""
    ids = list(range(n))
    T = scaled_table(env, ids)
    km = _km(env, ids, T, norm)
    O = Oracle(env, T, ids)
    big = n > 30
    first = env.pick('first', ['full', 'sparse', 'elem'] if big else ['full', 'sparse', 'elem', '[:,:]', 'slices', 'lists'])
    OP[first](env, km, O, norm, 'km (%s)' % first)
    for nm in (['full'] if first != 'full' else ['[:,:]']) + ([] if big else ['diag', 'flat', 'elem']):
        OP[nm](env, km, O, norm, 'km (%s after %s)' % (nm, first))


@R.add(variants=[dict(kern=k, norm=nm) for k in ('linear', 'poly', 'gaussian', 'laplacian', 'hadamard', 'callable')
                 for nm in (False, True)], wits=2)
def real_kernels(env, kern, norm):
    """With the library's own kernels on symbolic features: entry (i,j) is the kernel of rows i and j."""
    base, nk = env.mod('base'), env.mod('numeric_kernels')
    if kern == 'callable':
        k = base.KernelFromCallable(lambda x, y, p=1: p * x[0] * y[0] + x[1] * y[1] + 1, p=3)
    else:
        k = {'linear': nk.LinearKernel, 'poly': nk.PolyKernel, 'gaussian': nk.GaussianKernel,
             'laplacian': nk.LaplacianKernel, 'hadamard': nk.HadamardKernel}[kern]()
    n = 3
    X = env.np.array(env.reals('x', (n, 2), lo=0.25, hi=3))
    O = Oracle(env, {(i, j): k(X[i, :], X[j, :]) for i in range(n) for j in range(i, n)}, range(n))
    if norm:
        for i in range(n):
            env.assume(O.k(i, i) >= 0.01)
    km = base.KernelMatrix(k, normalized=norm)
    km.attach_to(X)
    first = env.pick('first', ['elem', 'full', 'sparse', 'lists'])
    OP[first](env, km, O, norm, 'km (%s)' % first)
    OP['full'](env, km, O, norm, 'km (full)')
    OP['diag'](env, km, O, norm, 'km (diag)')


@R.add(variants=[dict(view=v) for v in ('full', '[:,:]', 'elem', 'row', 'list', 'flat', 'sparse', 'diag')], wits=3)
def exact_values(env, view):
    """The very value the kernel function returned, to the last digit."""
    base = env.mod('base')
    i1, i2 = [0, 1, 2], None
    T = sym_table(env, range(3))
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=False)
    km.attach_to(id_sample(env, i1))
    O = Oracle(env, T, i1, i2)
    n, m = O.shape
    W = O.raw()
    if view == 'full':
        G = km.full
    elif view == '[:,:]':
        G = km[:, :]
    elif view == 'sparse':
        G = km.full_sparse.toarray()
        W = [[W[i][j] if i <= j else G[i, j] for j in range(m)] for i in range(n)]
    elif view == 'elem':
        G = env.np.array([[km[i, j][0, 0] for j in range(m)] for i in range(n)])
    elif view == 'row':
        G = env.np.array([list(km[i, :][0]) for i in range(n)])
    elif view == 'list':
        G = km[[0, 1], [0]]
        W = [[W[0][0]], [W[1][0]]]
    elif view == 'flat':
        G = env.np.array([[km[i * m + j][0, 0] for j in range(m)] for i in range(n)])
    else:
        d = km.diagonal()
        for i in range(n):
            env.expect_tight(d[i], W[i][i], view, rel=0)
        return
    for i in range(len(W)):
        for j in range(len(W[0])):
            env.expect_tight(G[i, j], W[i][j], view, rel=0)


@R.add(variants=[dict(unit=u, norm=b) for u in UNITS for b in (False, True)], wits=3)
def magnitudes(env, unit, norm):
    """Kernel values of any magnitude are kept, however small or large all of them are."""
    ids = [0, 1, 2]
    # self similarities close to zero cannot be normalised
    T = unit_table(env, ids, unit, max(unit, 1.0) if norm else unit)
    km = _km(env, ids, T, norm)
    O = Oracle(env, T, ids)
    ops = ['full', '[:,:]', 'sparse', 'elem', 'diag', 'slices', 'flat'] + (['normed', 'normalize'] if norm else ['centered', 'frob'])
    first = env.pick('first', ops)
    OP[first](env, km, O, norm, 'km (%s)' % first)
    second = env.pick('second', ops[:5] + ops[7:8])
    OP[second](env, km, O, norm, 'km (%s, then %s)' % (first, second))
