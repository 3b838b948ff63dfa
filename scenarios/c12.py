"""C12: integer features, labels and matrices never wrap around."""
from symk.scen import Registry
from .lib import *
from .c07 import hkh
from .c08 import fro
from .c11 import KERNELS, DEFAULTS, make, total

R = Registry()
lookup = R.lookup

RANGE = {'int8': (-128, 127), 'uint8': (0, 255), 'int16': (-2**15, 2**15 - 1), 'uint16': (0, 2**16 - 1),
         'int32': (-2**20, 2**20), 'uint32': (0, 2**20), 'int64': (0, 2**40), 'uint64': (0, 2**40),
         'bool': (0, 1)}
PS = {'poly': dict(degree=3, gamma=1.0, b=1.0), 'sigmoid': dict(gamma=0.001, offset=0.1),
      'laplacian': dict(gamma=0.001), 'chi2': dict(gamma=0.001), 'gaussian': dict(sigma=200.0)}


def ps_of(kern):
    return PS.get(kern, DEFAULTS[kern])


def ints(env, name, n, dt, kern=None, cap=None):
    lo, hi = RANGE[dt]
    if kern == 'chi2':
        lo = max(lo, 0)
    if cap is not None:
        lo, hi = max(lo, -cap), min(hi, cap)
    return [env.int('%s_%d' % (name, i), lo, hi) for i in range(n)]


def real(env, xs):
    """The same numbers as reals."""
    one = env.const(1)
    return [x * one for x in xs]


def near(env, got, want, label):
    env.prove(env.isfinite(got), label + ': finite')
    env.expect_close(got, want, label)


DT_Q = ('int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'bool')


@R.add(variants=[dict(kern=k, dt=d) for k in KERNELS for d in DT_Q], wits=4)
def kernels(env, kern, dt):
    """Every kernel, on vectors of every integer type over its full range: the value on the same real numbers."""
    ps = ps_of(kern)
    cap = 2**20 if kern in ('poly', 'hadamard') else None
    x, y = ints(env, 'x', 2, dt, kern, cap), ints(env, 'y', 2, dt, kern, cap)
    k = make(env, kern, ps)
    X, Y = env.typed(x, dt), env.typed(y, dt)
    want = KERNELS[kern][1](env, real(env, x), real(env, y), ps)
    out = env.call(k, X, Y)
    if env.expect_ok(out, kern + ' succeeds'):
        near(env, out.val, want, '%s on %s' % (kern, dt))
    out = env.call(k, Y, X)
    if env.expect_ok(out, kern + ' swapped succeeds'):
        near(env, out.val, want, '%s on %s is symmetric' % (kern, dt))


@R.add(variants=[dict(kern=k) for k in KERNELS], wits=4)
def mixed(env, kern):
    """Two vectors of different types."""
    ps = ps_of(kern)
    n = 1 if kern in ('chi2', 'hadamard') else 2
    d1, d2 = env.pick('d1', ['int8', 'uint8', 'float64']), env.pick('d2', ['uint8', 'int16', 'float64'])
    x = ints(env, 'x', n, 'int8' if d1 == 'float64' else d1, kern)
    y = ints(env, 'y', n, 'int8' if d2 == 'float64' else d2, kern)
    k = make(env, kern, ps)
    want = KERNELS[kern][1](env, real(env, x), real(env, y), ps)
    out = env.call(k, env.typed(x, d1), env.typed(y, d2))
    if env.expect_ok(out, kern + ' succeeds'):
        near(env, out.val, want, kern)


@R.add(variants=[dict(kern=k) for k in KERNELS], wits=3)
def int_lists(env, kern):
    """Lists of Python integers."""
    ps = ps_of(kern)
    x, y = ints(env, 'x', 2, 'int16', kern), ints(env, 'y', 2, 'int16', kern)
    want = KERNELS[kern][1](env, real(env, x), real(env, y), ps)
    out = env.call(make(env, kern, ps), x, y)
    if env.expect_ok(out, kern + ' succeeds'):
        near(env, out.val, want, kern)


@R.add(variants=[dict(kern=k, dt=d) for k in ('linear', 'poly', 'laplacian', 'hadamard', 'chi2') for d in ('int8', 'uint8', 'int32')], wits=3)
def through_matrix(env, kern, dt):
    """Kernel matrices attached to integer samples, one and two."""
    base = env.mod('base')
    ps = ps_of(kern)
    two = env.pick('two', [False, True])
    cap = 2**20
    X = [ints(env, 'x%d' % i, 1, dt, kern, cap) for i in range(2)]
    Y = [ints(env, 'y%d' % i, 1, dt, kern, cap) for i in range(1)] if two else X
    km = base.KernelMatrix(make(env, kern, ps), normalized=False)
    km.attach_to(env.typed(X, dt), sample_two=env.typed(Y, dt) if two else None)
    out = env.call(lambda: km.full)
    if env.expect_ok(out, '.full succeeds'):
        for i in range(2):
            for j in range(len(Y)):
                near(env, out.val[i, j], KERNELS[kern][1](env, real(env, X[i]), real(env, Y[j]), ps), 'entry')


@R.add(variants=[dict(view=v, dt=d) for v in ('element', 'flat', 'row', 'list', 'all', 'diagonal', 'sparse', 'normed', 'centered', 'frob')
                 for d in ('int8', 'uint8', 'int64', 'bool')], wits=3)
def views(env, view, dt):
    """Every view of a kernel matrix over integer samples has the real values, fractions included."""
    base = env.mod('base')
    two = env.pick('two', [False, True]) if view not in ('diagonal', 'centered') else False
    ids = [0, 1, 1] if dt == 'bool' else [3, 1, 2]
    ids2 = [1, 0] if dt == 'bool' else [1, 3]
    T = sym_table(env, sorted(set(ids + ids2)))
    for k in list(T):
        T[k] = T[k] + 0.25
    O = Oracle(env, T, ids, ids2 if two else None)
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=False)
    km.attach_to(env.typed([[i] for i in ids], dt), sample_two=env.typed([[i] for i in ids2], dt) if two else None)
    n, m = O.shape
    if view == 'element':
        i, j = env.choice('i', n), env.choice('j', m)
        env.expect_matrix(km[i, j], O.sub([i], [j]), view)
    elif view == 'flat':
        i = env.choice('i', n * m)
        env.expect_matrix(km[i], O.sub([i // m], [i % m]), view)
    elif view == 'row':
        i = env.choice('i', n)
        env.expect_matrix(km[i, :], O.sub([i], range(m)), view)
    elif view == 'list':
        env.expect_matrix(km[[0, 2], [1]], O.sub([0, 2], [1]), view)
    elif view == 'all':
        env.expect_matrix(km[:, :], O.raw(), view)
    elif view == 'diagonal':
        for v, w in zip(km.diagonal(), O.diag()):
            near(env, v, w, view)
    elif view == 'sparse':
        S = km.full_sparse.toarray()
        for i in range(n):
            for j in range(i, m):
                near(env, S[i, j], O.raw()[i][j], view)
    elif view == 'normed':
        env.expect_matrix(km.normed_km, O.normed(), view)
    elif view == 'centered':
        env.expect_matrix(km.centered, O.centered(), view)
    else:
        f = km.frob_norm
        near(env, f * f, O.frob_sq(), view)


@R.add(variants=[dict(dt=d) for d in ('int8', 'uint8', 'int16', 'int32')], wits=4)
def frobenius(env, dt):
    """Frobenius products and norms of integer matrices."""
    ops = env.mod('operations')
    A = [ints(env, 'a%d' % i, 2, dt) for i in range(2)]
    B = [ints(env, 'b%d' % i, 2, dt) for i in range(2)]
    ra, rb = [real(env, r) for r in A], [real(env, r) for r in B]
    out = env.call(ops.frobenius_product, env.typed(A, dt), env.typed(B, dt))
    if env.expect_ok(out, 'product'):
        near(env, out.val, fro(ra, rb), 'product')
    out = env.call(ops.frobenius_norm, env.typed(A, dt))
    if env.expect_ok(out, 'norm'):
        near(env, out.val * out.val, fro(ra, ra), 'squared norm')


@R.add(variants=[dict(dt=d) for d in ('int8', 'uint8', 'int64')], wits=4)
def centering(env, dt):
    """Centering integer matrices."""
    ops = env.mod('operations')
    K = [[None] * 2 for _ in range(2)]
    lo, hi = RANGE[dt] if dt != 'int64' else (-1000, 1000)
    for i in range(2):
        for j in range(i, 2):
            K[i][j] = K[j][i] = env.int('K_%d_%d' % (i, j), lo, hi)
    out = env.call(ops.center_km, env.typed(K, dt))
    if env.expect_ok(out, 'succeeds'):
        W = hkh([real(env, r) for r in K])
        for i in range(2):
            for j in range(2):
                near(env, out.val[i, j], W[i][j], 'entry')


@R.add(variants=[dict(dt=d) for d in ('int8', 'uint8', 'int16', 'int32')], wits=4)
def target_kernels(env, dt):
    """The ideal kernel and the target alignment of integer labels."""
    sm, rk, base = env.mod('sampling'), env.mod('ranking'), env.mod('base')
    y = ints(env, 'y', 3, dt)
    out = env.call(sm.ideal_kernel, env.typed(y, dt))
    ry = real(env, y)
    if env.expect_ok(out, 'ideal kernel'):
        for i in range(3):
            for j in range(3):
                near(env, out.val[i, j], ry[i] * ry[j], 'ideal kernel')


@R.add(variants=[dict(dt=d) for d in ('int8', 'uint8', 'int32')], wits=4)
def target_alignment(env, dt):
    """Ranking by alignment with integer labels: the same metric as with the same real labels."""
    rk = env.mod('ranking')
    sm = env.mod('sampling')
    y = ints(env, 'y', 3, dt, cap=300)
    ry = real(env, y)
    env.assume(env.abs(ry[0] - ry[1]) >= 1)
    X = id_sample(env, [0, 1, 2])
    kb = sm.make_kernel_bucket('linear_only', normalize_kernels=False)
    kb.attach_to(X)
    got = env.call(rk.rank_kernels, kb, env.typed(y, dt), method='align/corr')
    want = env.call(rk.rank_kernels, kb, env.np.array(ry), method='align/corr')
    if env.expect_ok(got, 'integer labels') and env.expect_ok(want, 'real labels'):
        near(env, got.val[0], want.val[0], 'alignment')


@R.add(variants=[dict(dt=d) for d in ('int8', 'uint8', 'int64')], wits=3)
def combinations(env, dt):
    """Sums, products and averages of precomputed integer matrices."""
    base, ops = env.mod('base'), env.mod('operations')
    mats = []
    for t in range(3):
        v = ints(env, 'm%d' % t, 3, dt, cap=1000)
        mats.append([[v[0], v[1]], [v[1], v[2]]])
    ks = base.KernelSet([base.KernelMatrixPrecomputed(env.typed(m, dt)) for m in mats])
    rm = [[real(env, r) for r in m] for m in mats]
    cs = {'sum': (base.SumKernel, lambda v: total(v)), 'avg': (base.AverageKernel, lambda v: total(v) / 3),
          'prod': (base.ProductKernel, lambda v: v[0] * v[1] * v[2])}
    what = env.pick('what', list(cs))
    ck = cs[what][0](ks)
    ck.fit()
    for i in range(2):
        for j in range(2):
            near(env, ck.full[i, j], cs[what][1]([m[i][j] for m in rm]), what)
    lc = ops.linear_combination(ks, env.typed([100, 100, 27], 'int8'), norm_weights=True)
    for i in range(2):
        for j in range(2):
            near(env, lc[i, j], (100 * rm[0][i][j] + 100 * rm[1][i][j] + 27 * rm[2][i][j]) / 227, 'linear combination')


@R.add(wits=3)
def int_precomputed_symmetry(env):
    """Symmetry of integer matrices is judged on the numbers themselves."""
    base = env.mod('base')
    a, b = env.int('a', -128, 127), env.int('b', -128, 127)
    dt = env.pick('dt', ['int8', 'int16'])
    out = env.call(base.KernelMatrixPrecomputed, env.typed([[1, a], [b, 1]], dt))
    if env.is_true(a == b):
        env.expect_ok(out, 'symmetric accepted')
    else:
        env.prove(out.raised(ValueError), 'asymmetric refused', soft=out)


@R.add(variants=[dict(dt=d) for d in ('int8', 'uint8')], wits=3)
def normalization(env, dt):
    """Cosine normalization of small-integer matrices."""
    ops = env.mod('operations')
    lo, hi = RANGE[dt]
    a, b = env.int('a', 1, hi), env.int('b', 1, hi)
    c = env.int('c', lo, hi)
    out = env.call(ops.normalize_km, env.typed([[a, c], [c, b]], dt).astype('int64'))
    if env.expect_ok(out, 'succeeds'):
        v = out.val[0, 1]
        one = env.const(1)
        near(env, v * v * (a * one) * (b * one), (c * one) * (c * one), 'entry')


@R.add(variants=[dict(dt=d) for d in ('int8', 'uint8', 'int64', 'bool')], wits=3)
def fractional_weights(env, dt):
    """Weighted combinations of integer matrices with weights that are not whole."""
    base, ops = env.mod('base'), env.mod('operations')
    mats = []
    for t in range(2):
        v = ints(env, 'm%d' % t, 3, dt, cap=1000)
        mats.append([[v[0], v[1]], [v[1], v[2]]])
    rm = [[real(env, r) for r in m] for m in mats]
    ks = base.KernelSet([base.KernelMatrixPrecomputed(env.typed(m, dt)) for m in mats])
    w = [env.real('w%d' % t, lo=-2, hi=2) for t in range(2)]
    what = env.pick('what', ['sum', 'wavg', 'lin', 'ints', 'ints wavg', 'ints lin'])
    if what == 'sum':
        ck = base.SumKernel(ks)
        ck.fit(env.np.array(w))
        got = ck.full
    elif what == 'wavg':
        ck = base.WeightedAverageKernel(ks, env.np.array(w))
        ck.fit()
        got = ck.full
    elif what == 'lin':
        got = ops.linear_combination(ks, env.np.array(w))
    else:
        u = ints(env, 'u', 2, 'int8')
        w = real(env, u)
        if what == 'ints':
            ck = base.SumKernel(ks)
            ck.fit(env.typed(u, 'int8'))
            got = ck.full
        elif what == 'ints wavg':
            ck = base.WeightedAverageKernel(ks, env.typed(u, 'int8'))
            ck.fit()
            got = ck.full
        else:
            got = ops.linear_combination(ks, env.typed(u, 'int8'))
    for i in range(2):
        for j in range(2):
            near(env, got[i, j], w[0] * rm[0][i][j] + w[1] * rm[1][i][j], what)


@R.add(variants=[dict(op=o) for o in ('center', 'normalize', 'product', 'sum', 'ideal', 'linear')], wits=3)
def large_values(env, op):
    """Integers beyond single precision keep their value."""
    base, ops, sm, nk = (env.mod(m) for m in ('base', 'operations', 'sampling', 'numeric_kernels'))
    big = 2 ** 26
    a, b = env.int('a', 0, 1000) + big, env.int('b', 0, 1000) + big
    ra, rb = real(env, [a, b])
    K = [[a, 2], [2, b]]
    rk = [[ra, env.const(2)], [env.const(2), rb]]
    A = env.typed(K, 'int64')
    if op == 'center':
        got, W = ops.center_km(A), hkh(rk)
        for i in range(2):
            for j in range(2):
                env.expect_tight(got[i, j], W[i][j], 'entry')
    elif op == 'normalize':
        got = ops.normalize_km(A)
        env.expect_tight(got[0, 1] * got[0, 1] * ra * rb, env.const(4), 'entry')
    elif op == 'product':
        env.expect_tight(ops.frobenius_product(A, env.typed([[1, 0], [0, 1]], 'int64')), ra + rb, 'product')
    elif op == 'sum':
        ck = base.SumKernel(base.KernelSet([base.KernelMatrixPrecomputed(A)] * 2))
        ck.fit()
        env.expect_tight(ck.full[0, 0], 2 * ra, 'entry')
        env.expect_tight(ck.full[1, 1], 2 * rb, 'entry')
    elif op == 'ideal':
        got = sm.ideal_kernel(env.typed([a, b], 'int64'))
        env.expect_tight(got[0, 1], ra * rb, 'entry')
    else:
        got = nk.LinearKernel()(env.typed([a, 1], 'int64'), env.typed([b, 2], 'int64'))
        env.expect_tight(got, ra * rb + 2, 'value')
