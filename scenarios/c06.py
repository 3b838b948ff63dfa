"""C06: cosine normalization."""
from symk.scen import Registry
from .lib import *
from .c02 import two_table

R = Registry()
lookup = R.lookup


def mat(env, n, name='K', lo=0.001):
    return env.symm(name, n, diag_lo=lo)


@R.add(variants=lambda t: [dict(n=n) for n in ((1, 2, 3, 4) if t == 'quick' else (1, 2, 3, 4, 5, 6))], wits=3)
def function(env, n):
    """normalize_km(K)[i,j] = K[i,j] / sqrt(K[i,i] K[j,j]), for every symmetric K with positive diagonal."""
    ops = env.mod('operations')
    K = mat(env, n)
    A = env.np.array(K)
    out = env.call(ops.normalize_km, A)
    if not env.expect_ok(out, 'normalization succeeds'):
        return
    V = out.val
    r = [env.sqrt(K[i][i]) for i in range(n)]
    env.expect_matrix(V, [[K[i][j] / (r[i] * r[j]) for j in range(n)] for i in range(n)], 'normalized')
    for i in range(n):
        env.expect_close(V[i, i], env.const(1), 'unit diagonal')
        for j in range(i):
            env.expect_close(V[i, j], V[j, i], 'symmetric')
            env.expect_close(V[i, j] * V[i, j] * K[i][i] * K[j][j], K[i][j] * K[i][j], 'squared entries')
    env.expect_matrix(A, K, 'the input is not modified')


@R.add(variants=[dict(n=n) for n in (1, 2, 3)], wits=4)
def zero_diagonal(env, n):
    """A vanishing self similarity is refused with the normalization error."""
    ops, cfg = env.mod('operations'), env.mod('config')
    K = mat(env, n)
    p = env.choice('p', n)
    tiny = env.real('tiny', lo=-1e-9, hi=1e-9)
    zero = env.pick('zero', [True, False])
    K[p][p] = env.const(0) if zero else tiny
    out = env.call(ops.normalize_km, env.np.array(K))
    env.prove(out.raised(cfg.KMNormError), 'zero diagonal refused', soft=out)


@R.add(variants=[dict(n=n) for n in (2, 3)], wits=4)
def small_diagonal(env, n):
    """Small and large (but not vanishing) self similarities are normalized like all others."""
    ops = env.mod('operations')
    K = env.symm('K', n, diag_lo=1e-6)
    p = env.choice('p', n)
    env.assume(K[p][p] <= 1e-3)
    out = env.call(ops.normalize_km, env.np.array(K))
    if env.expect_ok(out, 'small diagonal accepted'):
        for i in range(n):
            env.expect_close(out.val[i, i], env.const(1), 'unit diagonal')
            for j in range(n):
                env.expect_close(out.val[i, j], K[i][j] / (env.sqrt(K[i][i]) * env.sqrt(K[j][j])), 'entries')


@R.add(variants=[dict(s=s) for s in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3))], wits=2)
def function_two(env, s):
    """normalize_km_2sample(K, dx, dy)[i,j] = K[i,j] / sqrt(dx[i] dy[j])."""
    ops = env.mod('operations')
    K = [[env.real('K_%d_%d' % (i, j), lo=-BOUND, hi=BOUND) for j in range(s[1])] for i in range(s[0])]
    dx = [env.real('dx_%d' % i, lo=0.001, hi=50) for i in range(s[0])]
    dy = [env.real('dy_%d' % j, lo=0.001, hi=50) for j in range(s[1])]
    A = env.np.array(K)
    col = env.pick('col', [False, True])        # the diagonals may be given as columns
    X, Y = ([[v] for v in d] if col else d for d in (dx, dy))
    out = env.call(ops.normalize_km_2sample, A, env.np.array(X), env.np.array(Y))
    if env.expect_ok(out, 'succeeds'):
        env.expect_matrix(out.val, [[K[i][j] / (env.sqrt(dx[i]) * env.sqrt(dy[j])) for j in range(s[1])]
                                    for i in range(s[0])], 'normalized')
    env.expect_matrix(A, K, 'the input is not modified')


@R.add(wits=4)
def refused_two(env):
    """Two-sample normalization refuses zero self similarities, wrong lengths and unknown methods."""
    ops, cfg = env.mod('operations'), env.mod('config')
    s = env.pick('shape', [(2, 2), (2, 3), (3, 2)])
    K = env.np.array([[env.real('K_%d_%d' % (i, j)) for j in range(s[1])] for i in range(s[0])])
    dx = [env.real('dx_%d' % i, lo=0.001, hi=50) for i in range(s[0])]
    dy = [env.real('dy_%d' % j, lo=0.001, hi=50) for j in range(s[1])]
    what = env.pick('what', ['zx', 'zy', 'len_x', 'len_y', 'swap', 'method'])
    arr = env.np.array
    if what == 'zx':
        dx[env.choice('p', s[0])] = 0.0
        out = env.call(ops.normalize_km_2sample, K, arr(dx), arr(dy))
        env.prove(out.raised(cfg.KMNormError), 'zero self similarity of the first sample refused', soft=out)
    elif what == 'zy':
        dy[env.choice('p', s[1])] = 0.0
        out = env.call(ops.normalize_km_2sample, K, arr(dx), arr(dy))
        env.prove(out.raised(cfg.KMNormError), 'zero self similarity of the second sample refused', soft=out)
    elif what == 'len_x':
        out = env.call(ops.normalize_km_2sample, K, arr(dx + [1.0]), arr(dy))
        env.prove(out.raised(ValueError), 'length mismatch refused', soft=out)
    elif what == 'len_y':
        out = env.call(ops.normalize_km_2sample, K, arr(dx), arr(dy[:-1]))
        env.prove(out.raised(ValueError), 'length mismatch refused', soft=out)
    elif what == 'swap':
        env.assume(s[0] != s[1])
        out = env.call(ops.normalize_km_2sample, K, arr(dy), arr(dx))
        env.prove(out.raised(ValueError), 'swapped diagonals refused', soft=out)
    else:
        m = env.pick('m', ['tanh', 'cos', 'max', ''])
        out = env.call(ops.normalize_km_2sample, K, arr(dx), arr(dy), method=m)
        env.prove(out.raised(NotImplementedError), 'unknown method refused', soft=out)


@R.add(wits=4)
def refused(env):
    """Non-square matrices and unknown methods are refused; the method name is not case sensitive."""
    ops = env.mod('operations')
    what = env.pick('what', ['wide', 'tall', 'method', 'case'])
    K = env.np.array(mat(env, 3))
    if what == 'wide':
        out = env.call(ops.normalize_km, K[:2, :])
        env.prove(out.raised(ValueError), 'non-square refused', soft=out)
    elif what == 'tall':
        out = env.call(ops.normalize_km, K[:, :1])
        env.prove(out.raised(ValueError), 'non-square refused', soft=out)
    elif what == 'method':
        m = env.pick('m', ['tanh', 'cosin', 'max', ''])
        out = env.call(ops.normalize_km, K, method=m)
        env.prove(out.raised(NotImplementedError), 'unknown method refused', soft=out)
    else:
        m = env.pick('m', ['cosine', 'COSINE', 'Cosine'])
        out = env.call(ops.normalize_km, K, method=m)
        if env.expect_ok(out, 'method name in any case'):
            env.expect_close(out.val[1, 1], env.const(1), 'unit diagonal')


def _kv(tier):
    return [dict(two=t, norm=nm, n=n) for t in (False, True) for nm in (False, True) for n in ((3,) if tier == 'quick' else (2, 3, 4))]


@R.add(variants=_kv, wits=3)
def matrix_object(env, two, norm, n):
    """A kernel matrix: .normed_km always is, and .full is exactly when so configured, the normalized matrix."""
    base = env.mod('base')
    i1 = list(range(n))
    i2 = list(range(10, 12)) if two else None
    T = two_table(env, i1, i2) if two else sym_table(env, i1, lo_diag=0.001)
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
    km.attach_to(id_sample(env, i1), sample_two=id_sample(env, i2) if two else None)
    O = Oracle(env, T, i1, i2)
    for t in range(3):
        nm = env.pick('op%d' % t, ['normed', 'full', 'normalize', 'elem', 'sparse', 'centered', 'frob'])
        OP[nm](env, km, O, norm, 'step %d %s' % (t, nm))
    OP['normed'](env, km, O, norm, 'finally')
    OP['elem'](env, km, O, norm, 'single elements stay unnormalized')


@R.add(variants=[dict(two=t) for t in (False, True)], wits=3)
def matrix_object_zero(env, two):
    """A kernel matrix with a vanishing self similarity: normalized views are refused, raw ones are not."""
    base, cfg = env.mod('base'), env.mod('config')
    norm = env.pick('norm', [False, True])
    i1 = [0, 1, 2]
    i2 = [10, 11] if two else None
    T = two_table(env, i1, i2) if two else sym_table(env, i1)
    z = env.pick('z', i1 + (i2 or []))
    T[z, z] = env.const(0)
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
    km.attach_to(id_sample(env, i1), sample_two=id_sample(env, i2) if two else None)
    O = Oracle(env, T, i1, i2)
    pre = env.pick('pre', [None, 'elem', 'frob', '[:,:]'])
    if pre:
        OP[pre](env, km, O, norm, pre)
    for _ in range(2):
        out = env.call(lambda: km.normed_km)
        env.prove(out.raised(cfg.KMNormError), 'normed_km refused', soft=out)
        out = env.call(km.normalize)
        env.prove(out.raised(cfg.KMNormError), 'normalize() refused', soft=out)
        out = env.call(lambda: km.full)
        if norm:
            env.prove(out.raised(cfg.KMNormError), 'normalized .full refused', soft=out)
        elif env.expect_ok(out, 'raw .full is fine'):
            env.expect_matrix(out.val, O.raw(), 'raw .full')
    OP['[:,:]'](env, km, O, norm, 'raw values after the refusal')


@R.add(variants=[dict(kern=k, two=t) for k in ('linear', 'poly', 'hadamard', 'gaussian') for t in (False, True)], wits=2)
def real_kernels(env, kern, two):
    """Normalized matrices of the library's kernels, from features to result."""
    base, nk = env.mod('base'), env.mod('numeric_kernels')
    k = {'linear': nk.LinearKernel, 'poly': lambda: nk.PolyKernel(degree=2), 'gaussian': nk.GaussianKernel,
         'hadamard': nk.HadamardKernel}[kern]()
    X = env.np.array(env.reals('x', (2, 2), lo=0.25, hi=3))
    Y = env.np.array(env.reals('y', (1, 2), lo=0.25, hi=3))
    km = base.KernelMatrix(k, normalized=True)
    km.attach_to(X, sample_two=Y if two else None)
    out = env.call(lambda: km.full)
    if not env.expect_ok(out, '.full succeeds'):
        return
    Z = Y if two else X
    for i in range(2):
        for j in range(1 if two else 2):
            q = k(X[i], X[i]) * k(Z[j], Z[j])
            v = out.val[i, j]
            env.expect_close(v * v * q, k(X[i], Z[j]) * k(X[i], Z[j]), 'squared entry')
            env.prove(v * k(X[i], Z[j]) >= 0, 'sign of the entry')


@R.add(variants=lambda t: [dict(n=n) for n in sizes(t, quick_limit=60)], wits=1)
def size_sweep(env, n):
    """Sizes around every integer constant of the source."""
    ops = env.mod('operations')
    ids = list(range(n))
    T = scaled_table(env, ids)
    O = Oracle(env, T, ids)
    A = env.np.array(O.raw())
    out = env.call(ops.normalize_km, A)
    if env.expect_ok(out, 'succeeds'):
        env.expect_matrix(out.val, O.normed(), 'normalized')
    env.expect_matrix(A, O.raw(), 'the input is not modified')


@R.add(variants=[dict(dt=d) for d in ('int64', 'int32')], wits=2)
def other_dtypes(env, dt):
    """Integer matrices."""
    ops = env.mod('operations')
    n = 2
    K = [[env.int('K_%d_%d' % (min(i, j), max(i, j)), 1 if i == j else -9, 9) for j in range(n)] for i in range(n)]
    A = env.typed(K, dt)
    out = env.call(ops.normalize_km, A)
    if env.expect_ok(out, 'succeeds'):
        for i in range(n):
            for j in range(n):
                env.prove_near(out.val[i, j] * out.val[i, j] * K[i][i] * K[j][j], K[i][j] * K[i][j], 'entry')
                env.prove(out.val[i, j] * K[i][j] >= 0, 'sign')


@R.add(variants=[dict(two=t) for t in (False, True)], wits=4)
def matrix_method(env, two):
    """normalize(): the method asked for, or a refusal; a refusal changes nothing."""
    base = env.mod('base')
    ids = [0, 1]
    T = sym_table(env, range(4))
    norm = env.pick('norm', [False, True])
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
    km.attach_to(id_sample(env, ids), sample_two=id_sample(env, [2, 3, 1]) if two else None)
    O = Oracle(env, T, ids, [2, 3, 1] if two else None)
    m = env.pick('m', ['cosine', 'Cosine', 'COSINE', 'median', '', 'cosine '])
    out = env.call(km.normalize, method=m)
    if m.lower() == 'cosine':
        env.expect_ok(out, 'cosine accepted')
    else:
        env.prove(out.raised(NotImplementedError), 'unknown method refused', soft=out)
    OP['normed'](env, km, O, norm, 'km')
    OP['full'](env, km, O, norm, 'km')
    OP['[:,:]'](env, km, O, norm, 'km')


@R.add(variants=[dict(two=t) for t in (False, True)], wits=4)
def zero_in_matrix(env, two):
    """A sample whose self similarity vanishes makes normalisation refused, whatever the size; raw values stay readable."""
    base, cfg = env.mod('base'), env.mod('config')
    norm = env.pick('norm', [True, False])
    n = env.pick('n', [1, 2, 3])
    i1 = list(range(n))
    i2 = env.pick('i2', [[10], [10, 11]]) if two else None
    T = two_table(env, i1, i2) if two else sym_table(env, i1)
    side = i2 if two and env.pick('side', [0, 1]) else i1
    p = side[env.choice('p', len(side))]
    T[p, p] = env.const(0)
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
    km.attach_to(id_sample(env, i1), sample_two=id_sample(env, i2) if two else None)
    O = Oracle(env, T, i1, i2)
    for t in range(2):
        what = env.pick('what%d' % t, ['normed', 'normalize', 'full'])
        if what == 'full' and not norm:
            OP['full'](env, km, O, False, 'raw')
            continue
        out = env.call({'normed': lambda: km.normed_km, 'full': lambda: km.full, 'normalize': km.normalize}[what])
        env.prove(out.raised(cfg.KMNormError), 'refused: ' + what, soft=out)
    OP['elem'](env, km, O, norm, 'raw elements')


@R.add(variants=[dict(what=w) for w in ('same', 'rev', 'tail', 'head', 'step', 'whole', 'copy')], wits=3)
def overlapping_samples(env, what):
    """The second sample may be the first one, or a view into it, in any order."""
    base = env.mod('base')
    norm = env.pick('norm', [True, False])
    ids = [0, 1, 2]
    X = id_sample(env, ids)
    Y, j2 = {'same': lambda: (X, ids), 'rev': lambda: (X[::-1], ids[::-1]), 'tail': lambda: (X[1:], ids[1:]),
             'head': lambda: (X[:2], ids[:2]), 'step': lambda: (X[::2], ids[::2]), 'whole': lambda: (X[:], ids),
             'copy': lambda: (X.copy(), ids)}[what]()
    if env.pick('swap', [False, True]):
        X, Y, ids, j2 = Y, X, j2, ids
    T = sym_table(env, [0, 1, 2], lo_diag=0.001)
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
    km.attach_to(X, sample_two=Y)
    O = Oracle(env, T, ids, j2)
    for t in range(2):
        nm = env.pick('op%d' % t, ['normed', 'full', 'elem', 'sparse'])
        OP[nm](env, km, O, norm, '%s: %s' % (what, nm))


@R.add(variants=[dict(unit=u, n=n) for u in UNITS for n in (2, 3)], wits=3)
def magnitudes(env, unit, n):
    """Off-diagonal values however small or large beside the diagonal."""
    ops = env.mod('operations')
    env.unit = unit if unit < 1 else 1.0
    d = [env.real('d%d' % i, lo=0.5, hi=100) for i in range(n)]
    o = {(i, j): env.real('o%d_%d' % (i, j), lo=-100, hi=100) for i in range(n) for j in range(i)}
    K = [[d[i] if i == j else o[max(i, j), min(i, j)] * unit for j in range(n)] for i in range(n)]
    out = env.call(ops.normalize_km, env.np.array(K))
    if env.expect_ok(out, 'normalization succeeds'):
        r = [env.sqrt(x) for x in d]
        for i in range(n):
            for j in range(n):
                if i != j:
                    env.expect_close(out.val[i, j], K[i][j] / (r[i] * r[j]), 'normalized entry')
    i1, i2 = list(range(n)), list(range(n, 2 * n))
    C = [[env.real('c%d_%d' % (i, j), lo=-100, hi=100) * unit for j in range(n)] for i in range(n)]
    e = [env.real('e%d' % i, lo=0.5, hi=100) for i in range(n)]
    out = env.call(ops.normalize_km_2sample, env.np.array(C), env.np.array(d), env.np.array(e))
    if env.expect_ok(out, 'two-sample normalization succeeds'):
        s = [env.sqrt(x) for x in e]
        for i in range(n):
            for j in range(n):
                env.expect_close(out.val[i, j], C[i][j] / (r[i] * s[j]), 'normalized two-sample entry')
