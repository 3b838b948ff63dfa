"""C23: pairwise similarity, correlation and the ideal kernel."""
from symk.scen import Registry
from .lib import *
from .c07 import hkh
from .c08 import fro
from .c16 import bucket, linear_of

R = Registry()
lookup = R.lookup


def flat(M):
    return [v for r in M for v in r]


def moments(env, a, b):
    """(covariance, variance, variance), unscaled."""
    n = len(a)
    ma, mb = sum(a[1:], a[0]) / n, sum(b[1:], b[0]) / n
    da, db = [x - ma for x in a], [x - mb for x in b]
    dot = lambda u, v: sum([x * y for x, y in zip(u, v)][1:], u[0] * v[0])
    return dot(da, db), dot(da, da), dot(db, db)


def expect_corr(env, v, A, B, label):
    c, va, vb = moments(env, flat(A), flat(B))
    env.expect_close(v * env.sqrt(va) * env.sqrt(vb), c, label)


def expect_align(env, v, A, B, label):
    CA, CB = hkh(A), hkh(B)
    env.expect_close(v * env.sqrt(fro(CA, CA)) * env.sqrt(fro(CB, CB)), fro(CA, CB), label)


def spread(env, A):
    """Not constant."""
    _, va, _ = moments(env, flat(A), flat(A))
    env.assume(va >= 0.01)


def free(env, n, m, name):
    return [[env.real('%s_%d_%d' % (name, i, j), lo=-5, hi=5) for j in range(m)] for i in range(n)]


@R.add(variants=[dict(n=n) for n in (2, 3)], wits=4)
def correlation(env, n):
    """The correlation of two matrices is that of their elements."""
    sm = env.mod('sampling')
    A, B = free(env, n, n, 'a'), free(env, n, n, 'b')
    if n == 3:
        for i in range(3):
            for j in range(3):
                if (i, j) not in ((0, 0), (0, 1), (2, 0)):
                    A[i][j] = env.const((i * 5 + j * 2) % 7 - 2)
                if (i, j) not in ((0, 0), (1, 2)):
                    B[i][j] = env.const((i * 3 + j * 4) % 5 - 1)
    spread(env, A)
    spread(env, B)
    X, Y = env.np.array(A), env.np.array(B)
    out = env.call(sm.correlation_km, X, Y)
    if env.expect_ok(out, 'succeeds'):
        expect_corr(env, out.val, A, B, 'correlation')
    env.expect_matrix(X, A, 'first unmodified')
    env.expect_matrix(Y, B, 'second unmodified')


@R.add(wits=4)
def correlation_laws(env):
    """One with itself and with its positive multiples plus a constant, minus one with its negative."""
    sm = env.mod('sampling')
    A = free(env, 2, 2, 'a')
    spread(env, A)
    k = env.pick('k', [1.0, 2.0, 0.5, -1.0, -3.0])
    c = env.pick('c', [0.0, 1.5])
    out = env.call(sm.correlation_km, env.np.array(A), env.np.array([[k * v + c for v in r] for r in A]))
    if env.expect_ok(out, 'succeeds'):
        env.expect_close(out.val, env.const(1 if k > 0 else -1), 'correlation')


@R.add(variants=[dict(metric=m, k=k) for m in ('corr', 'align') for k in (1, 2)] + [dict(metric='default', k=2)], wits=4)
def pairwise(env, metric, k):
    """Every pair of a bucket: the metric of the two matrices, at (i, j) and (j, i)."""
    sm = env.mod('sampling')
    ids = [1, 2]
    tabs = [sym_table(env, ids, name='K%d' % t) for t in range(k)]
    kb = bucket(env, tabs)
    S = id_sample(env, ids)
    kb.attach_to(S)
    mats = [linear_of(env, S)] + [Oracle(env, T, ids).raw() for T in tabs]
    for M in mats[1:]:
        if metric == 'align':
            d = M[0][0] + M[1][1] - 2 * M[0][1]
            env.assume(env.any_([d >= 0.1, d <= -0.1]))
        else:
            spread(env, M)
    members = list(kb)
    out = env.call(sm.pairwise_similarity, kb, *([] if metric == 'default' else [metric]))
    if env.expect_ok(out, 'succeeds'):
        n = k + 1
        env.prove(tuple(env.shape_of(out.val)) == (n, n), 'shape')
        for i in range(n):
            for j in range(n):
                (expect_align if metric == 'align' else expect_corr)(env, out.val[i, j], mats[i], mats[j], 'pair (%d,%d)' % (i, j))
    env.prove(len(kb) == k + 1 and all(a is b for a, b in zip(kb, members)), 'bucket unchanged')
    for t in range(k + 1):
        env.expect_matrix(kb[t].full, mats[t], 'member %d unchanged' % t)


@R.add(wits=4)
def pairwise_three(env):
    """Three samples, graded kernels, alignment."""
    sm = env.mod('sampling')
    ids = [0, 1, 2]
    y, z = [1.0, -1.0, 0.0], [1.0, 1.0, -2.0]
    bs = [env.real('b_%d' % t, lo=0, hi=4) for t in range(2)]
    tabs = [{(i, j): env.const(y[i] * y[j]) + b * (z[i] * z[j]) for i in ids for j in ids} for b in bs]
    kb = bucket(env, tabs)
    S = id_sample(env, ids)
    kb.attach_to(S)
    mats = [linear_of(env, S)] + [Oracle(env, T, ids).raw() for T in tabs]
    metric = env.pick('m', ['align', 'corr'])
    out = env.call(sm.pairwise_similarity, kb, metric)
    if env.expect_ok(out, 'succeeds'):
        for i in range(3):
            for j in range(3):
                (expect_align if metric == 'align' else expect_corr)(env, out.val[i, j], mats[i], mats[j], 'pair (%d,%d)' % (i, j))


@R.add(wits=3)
def pairwise_set(env):
    """Sets of precomputed matrices too."""
    sm, base = env.mod('sampling'), env.mod('base')
    A = [[[env.real('a%d_%d_%d' % (t, min(i, j), max(i, j)), lo=-5, hi=5) for j in range(2)] for i in range(2)] for t in range(2)]
    for M in A:
        spread(env, M)
    ks = base.KernelSet([base.KernelMatrixPrecomputed(env.np.array(M)) for M in A])
    out = env.call(sm.pairwise_similarity, ks, 'corr')
    if env.expect_ok(out, 'succeeds'):
        for i in range(2):
            for j in range(2):
                expect_corr(env, out.val[i, j], A[i], A[j], 'pair (%d,%d)' % (i, j))


@R.add(wits=3)
def degenerate_alignment(env):
    """A constant kernel has similarity zero with all, under alignment."""
    sm = env.mod('sampling')
    ids = [1, 2]
    c = env.real('c', lo=0.5, hi=5)
    tabs = [{(i, j): c for i in ids for j in ids}, sym_table(env, ids, name='K')]
    T = tabs[1]
    d = T[1, 1] + T[2, 2] - 2 * T[1, 2]
    env.assume(env.any_([d >= 0.1, d <= -0.1]))
    pos = env.pick('pos', [1, 2])
    kb = bucket(env, tabs if pos == 1 else tabs[::-1])
    kb.attach_to(id_sample(env, ids))
    out = env.call(sm.pairwise_similarity, kb, 'align')
    if env.expect_ok(out, 'succeeds'):
        for j in range(3):
            env.expect_close(out.val[pos, j], env.const(0), 'zero')
            env.expect_close(out.val[j, pos], env.const(0), 'zero')


@R.add(wits=3)
def refused(env):
    """Unknown metrics, unattached buckets and mismatched matrices."""
    sm = env.mod('sampling')
    T = sym_table(env, [1, 2])
    kb = bucket(env, [T])
    what = env.pick('what', ['metric', 'unattached', 'sizes'])
    if what == 'metric':
        kb.attach_to(id_sample(env, [1, 2]))
        out = env.call(sm.pairwise_similarity, kb, env.pick('m', ['xyz', '', 'correlation', None]))
    elif what == 'unattached':
        out = env.call(sm.pairwise_similarity, kb)
    else:
        out = env.call(sm.correlation_km, env.np.array(free(env, 2, 2, 'a')), env.np.array(free(env, 3, 3, 'b')))
    env.prove(not out.ok, 'refused', soft=out)


@R.add(variants=[dict(n=n) for n in (1, 2, 3, 4)], wits=3)
def ideal(env, n):
    """The outer product of the labels with themselves, whatever the container."""
    sm = env.mod('sampling')
    kind = env.pick('kind', ['real', 'int'])
    ys = [env.real('y_%d' % i, lo=-9, hi=9) if kind == 'real' else env.int('i_%d' % i, -300, 300) for i in range(n)]
    form = env.pick('form', ['list', 'tuple', 'array', 'column', 'row'])
    Y = {'list': lambda: list(ys), 'tuple': lambda: tuple(ys), 'array': lambda: env.np.array(ys),
         'column': lambda: env.np.array([[y] for y in ys]), 'row': lambda: env.np.array([ys])}[form]()
    out = env.call(sm.ideal_kernel, Y)
    if env.expect_ok(out, 'succeeds'):
        env.expect_matrix(out.val, [[a * b * env.const(1) for b in ys] for a in ys], 'outer product')
    if form == 'array':
        env.expect_vector(Y, [y * env.const(1) for y in ys], 'labels unmodified')


@R.add(wits=3)
def ideal_bad(env):
    """Labels that are no numbers."""
    sm = env.mod('sampling')
    out = env.call(sm.ideal_kernel, env.pick('y', [['a', 'b'], [None, 1], [[1, 2], [3]], 'ab']))
    env.prove(not out.ok, 'refused', soft=out)


@R.add(wits=3)
def ideal_types(env):
    """Integer types never wrap around."""
    sm = env.mod('sampling')
    dt = env.pick('dt', ['int8', 'int16', 'int32', 'uint8', 'int64'])
    lo, hi = {'uint8': (0, 255), 'int8': (-128, 127)}.get(dt, (-30000, 30000))
    ys = [env.int('y_%d' % i, lo, hi) for i in range(2)]
    out = env.call(sm.ideal_kernel, env.np.array(ys).astype(dt))
    if env.expect_ok(out, 'succeeds'):
        env.expect_matrix(out.val, [[a * b * env.const(1) for b in ys] for a in ys], 'outer product')


@R.add(variants=lambda t: [dict(n=n) for n in sizes(t, quick_limit=34)], wits=1)
def size_sweep(env, n):
    """Any number of labels; any number of kernels."""
    sm, base = env.mod('sampling'), env.mod('base')
    s = env.real('s', lo=0.5, hi=2)
    ys = [s * ((i * 5) % 7 - 3) for i in range(n)]
    out = env.call(sm.ideal_kernel, env.np.array(ys))
    if env.expect_ok(out, 'ideal'):
        env.expect_matrix(out.val, [[a * b for b in ys] for a in ys], 'outer product')
    # 2x2 matrices [[c, 0], [0, c]] or [[0, c], [c, 0]]: correlated +1 or -1
    kinds = [(t * t) % 3 == 0 for t in range(n)]
    mats = [[[s * (t + 1), env.const(0)], [env.const(0), s * (t + 1)]] if k else
            [[env.const(0), s * (t + 1)], [s * (t + 1), env.const(0)]] for t, k in enumerate(kinds)]
    if n <= 12:
        ks = base.KernelSet([base.KernelMatrixPrecomputed(env.np.array(M)) for M in mats])
        out = env.call(sm.pairwise_similarity, ks)
        if env.expect_ok(out, 'pairwise'):
            env.expect_matrix(out.val, [[env.const(1 if a == b else -1) for b in kinds] for a in kinds], 'similarity')


@R.add(variants=[dict(metric=m) for m in ('corr', 'align')], wits=5)
def layouts(env, metric):
    """The order in memory, being a view or the number type do not matter."""
    sm, op = env.mod('sampling'), env.mod('operations')
    A, B = free(env, 2, 2, 'a'), free(env, 2, 2, 'b')
    if metric == 'align':
        A[1][0], B[1][0] = A[0][1], B[0][1]
        for M in (A, B):
            env.assume(M[0][0] + M[1][1] - 2 * M[0][1] >= 0.1)
    else:
        spread(env, A)
        spread(env, B)
    np = env.np

    def lay(M, how):
        if how == 'F':
            return np.asfortranarray(np.array(M))
        if how == 'T':
            return np.array([[M[j][i] for j in range(2)] for i in range(2)]).T
        if how == 'view':
            return np.array([[M[0][0], 9.0, M[0][1]], [9.0, 9.0, 9.0], [M[1][0], 9.0, M[1][1]]])[::2, ::2]
        return np.array(M)
    X, Y = lay(A, env.pick('la', ['C', 'F', 'T', 'view'])), lay(B, env.pick('lb', ['C', 'F', 'T', 'view']))
    out = env.call(sm.correlation_km if metric == 'corr' else op.alignment_centered, X, Y)
    if env.expect_ok(out, 'succeeds'):
        (expect_corr if metric == 'corr' else expect_align)(env, out.val, A, B, 'value')
