"""C20: infinite or undefined kernel values."""
from symk.scen import Registry
from .lib import *
from .c02 import two_table

R = Registry()
lookup = R.lookup

VIEWS = {'full': lambda km: km.full, '[:,:]': lambda km: km[:, :], 'sparse': lambda km: km.full_sparse,
         'normed': lambda km: km.normed_km, 'normalize': lambda km: km.normalize(),
         'centered': lambda km: km.centered, 'center': lambda km: km.center(), 'frob': lambda km: km.frob_norm,
         'all': lambda km: km[list(range(km.shape[0])), list(range(km.shape[1]))]}
PART = {'none': lambda km: None, 'elem': lambda km: km[0, 1], 'diag': lambda km: km.diagonal(), 'row': lambda km: km[1, :]}


def told(out):
    """Warnings of the package, as opposed to those of numpy."""
    return [w for w in out.warns if w[0] not in ('RuntimeWarning', 'DeprecationWarning', 'PendingDeprecationWarning', 'FutureWarning')]


def noticed(env, out, label):
    env.prove(not out.ok or len(told(out)) > 0, label, soft=out)


def quiet(env, out, label):
    env.prove(out.ok, label + ' succeeds', soft=out)
    env.prove(not told(out), label + ': no warning', soft=out)


def attach(env, T, ids, ids2, norm):
    base = env.mod('base')
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
    if ids2:
        km.attach_to(id_sample(env, ids), sample_two=id_sample(env, ids2))
    else:
        km.attach_to(id_sample(env, ids))
    return km


def bads(env):
    return env.pick('bad', [env.nan, env.inf, -env.inf])


@R.add(variants=[dict(view=v, norm=b) for v in VIEWS for b in (False, True)], wits=4)
def one_sample(env, view, norm):
    """One bad value anywhere: computing the matrix in full warns or is refused."""
    ids = [0, 1, 2]
    T = sym_table(env, ids)
    at = env.pick('at', [(i, j) for i in ids for j in ids if i <= j])
    T[at] = bads(env)
    km = attach(env, T, ids, None, norm)
    pre = env.pick('pre', list(PART))
    env.call(PART[pre], km)
    noticed(env, env.call(VIEWS[view], km), view)


@R.add(variants=[dict(view=v, norm=b) for v in ('full', '[:,:]', 'sparse', 'normed', 'normalize', 'frob', 'all') for b in (False, True)], wits=4)
def two_samples(env, view, norm):
    """Between two samples, both triangles."""
    shape = env.pick('shape', [(2, 3), (3, 2), (2, 2)])
    i1, i2 = list(range(shape[0])), list(range(10, 10 + shape[1]))
    T = two_table(env, i1, i2)
    at = env.pick('at', [(i, j) for i in i1 for j in i2])
    T[at] = bads(env)
    km = attach(env, T, i1, i2, norm)
    if env.pick('pre', [False, True]):
        env.call(lambda: km[0, 1])
    out = env.call(VIEWS[view], km)
    # the sparse form shows the upper triangle only
    if view == 'sparse' and not norm and at[0] > at[1] - 10:
        return
    noticed(env, out, view)


@R.add(variants=[dict(two=b) for b in (False, True)], wits=4)
def several(env, two):
    """Any number of bad values, of different kinds."""
    i1, i2 = [0, 1], [10, 11]
    T = two_table(env, i1, i2) if two else sym_table(env, i1)
    keys = [(i, j) for i in i1 for j in (i2 if two else i1) if two or i <= j]
    vals = [None, env.nan, env.inf, -env.inf]
    n = 0
    for t, k in enumerate(keys):
        v = env.pick('v%d' % t, vals)
        if v is not None:
            T[k] = v
            n += 1
    if not n:
        return
    km = attach(env, T, i1, i2 if two else None, False)
    noticed(env, env.call(VIEWS[env.pick('view', ['full', '[:,:]', 'normed'])], km), 'view')


@R.add(variants=[dict(two=b) for b in (False, True)], wits=4)
def normalising(env, two):
    """Values that normalisation makes undefined (a negative, zero, infinite or undefined diagonal)."""
    i1, i2 = [0, 1], [10, 11]
    T = two_table(env, i1, i2) if two else sym_table(env, i1)
    at = env.pick('at', [0, 1, 10] if two else [0, 1])
    v = env.pick('v', ['neg', 'zero', 'nan', 'inf'])
    T[at, at] = {'neg': env.real('neg', lo=-50, hi=-0.5), 'zero': env.const(0), 'nan': env.nan, 'inf': env.inf}[v]
    other = (0, 10) if two else (0, 1)
    norm = env.pick('norm', [False, True])
    km = attach(env, T, i1, i2 if two else None, norm)
    view = env.pick('view', ['normed', 'normalize'] + (['full', 'sparse'] if norm else []))
    out = env.call(VIEWS[view], km)
    if two and v == 'inf':
        # finite / sqrt(inf) is zero: a legitimate limit
        return
    noticed(env, out, 'normalised form')


@R.add(variants=[dict(view=v, norm=b) for v in VIEWS for b in (False, True)], wits=3)
def finite_one(env, view, norm):
    """All finite: no such warning."""
    ids = [0, 1, 2]
    km = attach(env, sym_table(env, ids), ids, None, norm)
    env.call(PART[env.pick('pre', list(PART))], km)
    quiet(env, env.call(VIEWS[view], km), view)
    v2 = env.pick('v2', ['full', '[:,:]', 'normed', 'sparse', 'centered'])
    quiet(env, env.call(VIEWS[v2], km), v2)


@R.add(variants=[dict(view=v, norm=b) for v in ('full', '[:,:]', 'sparse', 'normed', 'normalize', 'frob', 'all') for b in (False, True)], wits=3)
def finite_two(env, view, norm):
    """All finite, two samples: no such warning."""
    shape = env.pick('shape', [(2, 3), (3, 2)])
    i1, i2 = list(range(shape[0])), list(range(10, 10 + shape[1]))
    km = attach(env, two_table(env, i1, i2), i1, i2, norm)
    quiet(env, env.call(VIEWS[view], km), view)
    v2 = env.pick('v2', ['full', '[:,:]', 'normed', 'sparse'])
    quiet(env, env.call(VIEWS[v2], km), v2)


@R.add(wits=4)
def detector(env):
    """The detector itself: dense and sparse, any position."""
    u = env.mod('utils')
    n, m = env.pick('shape', [(1, 1), (2, 2), (2, 3), (1, 4)])
    A = [[env.real('a_%d_%d' % (i, j), lo=-99, hi=99) for j in range(m)] for i in range(n)]
    sp = env.pick('sparse', [False, True])
    k = env.pick('k', list(range(n * m + 1)))
    if k < n * m:
        A[k // m][k % m] = bads(env)
    X = env.np.array(A)
    if sp:
        s = env.sk('scipy.sparse')
        L = s.lil_matrix((n, m))
        for i in range(n):
            for j in range(m):
                L[i, j] = A[i][j]
        X = L
    out = env.call(u.contains_nan_inf, X)
    if env.expect_ok(out, 'succeeds'):
        env.prove(bool(out.val) == (k < n * m), 'found exactly when present')


@R.add(wits=4)
def normalize_function(env):
    """The normalising function warns too."""
    op = env.mod('operations')
    A = [[env.real('a_%d_%d' % (min(i, j), max(i, j)), lo=0.5 if i == j else -9, hi=9) for j in range(2)] for i in range(2)]
    what = env.pick('what', ['ok', 'nan', 'inf', 'neg'])
    i, j = env.pick('at', [(0, 0), (1, 1), (0, 1)])
    if what == 'neg':
        if i != j:
            return
        A[i][i] = env.real('neg', lo=-9, hi=-0.5)
    elif what != 'ok':
        A[i][j] = A[j][i] = env.nan if what == 'nan' else env.inf
    out = env.call(op.normalize_km, env.np.array(A))
    if what == 'ok':
        env.prove(out.ok and not told(out), 'quiet', soft=out)
    else:
        noticed(env, out, 'noticed')


@R.add(variants=lambda t: [dict(n=n, two=b) for n in sizes(t, quick_limit=34, thorough_limit=70, new_limit=130) for b in (False, True)], wits=1)
def size_sweep(env, n, two):
    """Any size: a bad value at the corners, the middle and beside."""
    i1 = list(range(n))
    i2 = list(range(100, 100 + n + 1)) if two else None
    T = scaled_table(env, i1 + (i2 or []))
    c = n // 2
    at = env.pick('at', sorted({(0, 0), (0, n - 1), (n - 1, n - 1), (c, c), (c, n - 1), (0, c)}) + [None])
    if at is not None:
        k = (at[0], 100 + at[1]) if two else at
        T[k] = env.nan if (at[0] + at[1]) % 2 else env.inf
    km = attach(env, T, i1, i2, False)
    out = env.call(VIEWS[env.pick('view', ['full', 'sparse'])], km)
    if at is None:
        quiet(env, out, 'finite')
    else:
        noticed(env, out, 'bad')


MAGNITUDES = [(1.2e308, 1.7e308), (-1.7e308, -1.2e308), (1e-308, 1e-300), (1e150, 1e160), (-1e-5, 1e-5)]


@R.add(variants=[dict(m=m) for m in range(5)], wits=12)
def extremes(env, m):
    """Finite values of any magnitude, up to the largest machine numbers, are no cause for a warning."""
    u = env.mod('utils')
    lo, hi = MAGNITUDES[m]
    v = [env.real('v_%d' % i, lo=lo, hi=hi) for i in range(3)]
    A = env.pick('A', [[[v[0]]], [[v[0], v[1]], [v[1], v[2]]], [[v[0], v[1], v[2]]], [[v[0], 0.0], [0.0, v[0]]]])
    out = env.call(u.contains_nan_inf, env.np.array(A))
    if env.expect_ok(out, 'succeeds'):
        env.prove(not out.val, 'finite')
    k = env.pick('k', ['nan', 'inf', 'both'])
    w = {'nan': [env.nan, v[0]], 'inf': [v[0], env.inf], 'both': [-env.inf, env.inf]}[k]
    out = env.call(u.contains_nan_inf, env.np.array([[v[1], v[2]], w]))
    if env.expect_ok(out, 'succeeds'):
        env.prove(bool(out.val), 'not finite')


@R.add(variants=[dict(two=b, m=m) for b in (False, True) for m in range(5)], wits=3)
def extreme_matrix(env, two, m):
    """Nor in a kernel matrix."""
    lo, hi = MAGNITUDES[m]
    i1, i2 = [0, 1], [10, 11]
    T = two_table(env, i1, i2) if two else sym_table(env, i1)
    for k in list(T):
        if (k[0] in i1) != (k[1] in i1) or not two:
            T[k] = env.real('v_%d_%d' % k, lo=lo, hi=hi)
    km = attach(env, T, i1, i2 if two else None, False)
    view = env.pick('view', ['full', '[:,:]', 'all'])
    quiet(env, env.call(VIEWS[view], km), view)
