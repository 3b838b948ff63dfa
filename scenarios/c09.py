"""C09: combinations of kernel matrices."""
from symk.scen import Registry
from .lib import *
from .c02 import two_table

R = Registry()
lookup = R.lookup


def make_set(env, k, n, norm=False, i2=None, tag='K', kinds=('km',)):
    """A set of k kernel matrices over n points; returns (set, list of oracle matrices)."""
    base = env.mod('base')
    ids = list(range(n))
    kms, mats = [], []
    for t in range(k):
        kind = kinds[t % len(kinds)]
        nm = '%s%d' % (tag, t)
        if kind == 'pre':
            M = env.symm(nm, n)
            kms.append(base.KernelMatrixPrecomputed(env.np.array(M)))
            mats.append(M)
            continue
        if kind == 'array':
            M = env.symm(nm, n)
            kms.append(env.np.array(M))
            mats.append(M)
            continue
        if i2 is None:
            T = sym_table(env, ids, name=nm)
        else:
            T = {(x, y): env.real('%s_%d_%d' % (nm, x, y), lo=-BOUND, hi=BOUND) for x in ids for y in i2}
            for x in ids + list(i2):
                T[x, x] = env.real('%s_%d_%d' % (nm, x, x), lo=0.5, hi=50)
        km = base.KernelMatrix(table_kernel(env, base, T), normalized=norm)
        km.attach_to(id_sample(env, ids), sample_two=None if i2 is None else id_sample(env, i2))
        O = Oracle(env, T, ids, i2)
        kms.append(km)
        mats.append(O.normed() if norm else O.raw())
    return base.KernelSet(kms), mats


def comb(mats, ws):
    r, c = len(mats[0]), len(mats[0][0])
    return [[sum([w * m[i][j] for w, m in zip(ws, mats)]) for j in range(c)] for i in range(r)]


def as_form(env, ws, form):
    if form == 'list':
        return list(ws)
    if form == 'tuple':
        return tuple(ws)
    a = env.np.array(ws)
    return a.reshape(-1, 1) if form == 'column' else a


def unchanged(env, ks, mats, tag):
    for t, km in enumerate(ks):
        env.expect_matrix(km.full, mats[t], '%s: member %d is unchanged' % (tag, t))


@R.add(variants=lambda t: [dict(k=k, n=n, norm=nm) for k, n in ((1, 2), (2, 2), (3, 3)) + (((4, 3), (2, 4)) if t != 'quick' else ())
                           for nm in (False, True)], wits=4)
def linear(env, k, n, norm):
    """linear_combination = sum_i w_i K_i, with weights in any form."""
    ops = env.mod('operations')
    ks, mats = make_set(env, k, n, norm)
    ws = [env.real('w%d' % t, lo=-10, hi=10) for t in range(k)]
    form = env.pick('form', ['list', 'tuple', 'array'])
    W = as_form(env, ws, form)
    out = env.call(ops.linear_combination, ks, W)
    if env.expect_ok(out, 'succeeds'):
        env.expect_matrix(out.val, comb(mats, ws), 'combination')
    unchanged(env, ks, mats, 'after')
    for t in range(k):
        env.expect_close(W[t], ws[t], 'the weights are unchanged')


@R.add(variants=[dict(k=k, n=n) for k, n in ((1, 2), (2, 2), (3, 2))], wits=4)
def linear_normed(env, k, n):
    """With normalized weights: sum_i w_i K_i / sum_i w_i; a vanishing sum is refused."""
    ops = env.mod('operations')
    ks, mats = make_set(env, k, n)
    ws = [env.real('w%d' % t, lo=-10, hi=10) for t in range(k)]
    tot = sum(ws[1:], ws[0])
    form = env.pick('form', ['list', 'array'])
    case = env.pick('case', ['positive', 'negative', 'zero'])
    if case == 'zero':
        ws[-1] = env.const(0) - sum(ws[1:-1], ws[0]) if k > 1 else env.const(0)
    else:
        env.assume(tot >= 0.01 if case == 'positive' else tot <= -0.01)
    W = as_form(env, ws, form)
    out = env.call(ops.linear_combination, ks, W, norm_weights=True)
    if case == 'zero':
        env.prove(out.raised(RuntimeError), 'weights summing to zero cannot be normalized', soft=out)
        return
    if env.expect_ok(out, 'succeeds'):
        env.expect_matrix(out.val, comb(mats, [w / tot for w in ws]), 'combination')
    for t in range(k):
        env.expect_close(W[t], ws[t], 'the weights are unchanged')


@R.add(wits=6)
def linear_int_weights(env):
    """Integer weights, with and without normalization."""
    ops = env.mod('operations')
    ks, mats = make_set(env, 2, 2)
    ws = [env.int('w%d' % t, 1, 9) for t in range(2)]
    dt = env.pick('dt', ['list', 'int64', 'int8'])
    W = list(ws) if dt == 'list' else env.typed(ws, dt)
    nw = env.pick('norm', [False, True])
    out = env.call(ops.linear_combination, ks, W, norm_weights=nw)
    if env.expect_ok(out, 'succeeds'):
        one = env.const(1)
        tot = (ws[0] + ws[1]) * one if nw else one
        env.expect_matrix(out.val, comb(mats, [w * one / tot for w in ws]), 'combination')


@R.add(wits=4)
def linear_two(env):
    """Sets over two samples: the combination has the shape rows x columns."""
    ops = env.mod('operations')
    s = env.pick('shape', [(2, 3), (3, 2), (1, 2), (2, 2), (2, 1)])
    norm = env.pick('norm', [False, True])
    ks, mats = make_set(env, 2, s[0], norm, i2=list(range(10, 10 + s[1])))
    ws = [env.real('w%d' % t, lo=-10, hi=10) for t in range(2)]
    out = env.call(ops.linear_combination, ks, ws)
    if env.expect_ok(out, 'succeeds'):
        env.expect_matrix(out.val, comb(mats, ws), 'combination')


@R.add(variants=[dict(k=k) for k in (1, 2, 3)], wits=6)
def wrong_weights(env, k):
    """The number of weights must match, everywhere weights are given."""
    ops, base = env.mod('operations'), env.mod('base')
    ks, mats = make_set(env, k, 2)
    m = env.pick('m', [x for x in (0, 1, 2, 3, 4, 2 * k) if x != k])
    ws = [env.real('w%d' % t, lo=-10, hi=10) for t in range(m)]
    W = as_form(env, ws, env.pick('form', ['list', 'array']))
    out = env.call(ops.linear_combination, ks, W, norm_weights=env.pick('nw', [False, True]))
    env.prove(out.raised(ValueError), 'linear combination refuses a wrong number of weights', soft=out)
    if k > 1:
        out = env.call(base.WeightedAverageKernel, ks, W)
        env.prove(out.raised(ValueError), 'weighted average refuses a wrong number of weights', soft=out)
        sk = base.SumKernel(ks)
        out = env.call(sk.fit, W)
        env.prove(out.raised(ValueError), 'sum refuses a wrong number of weights', soft=out)


def expected(env, what, mats, ws):
    n = len(mats[0])
    if what == 'sum':
        return comb(mats, [1] * len(mats))
    if what in ('wsum', 'wavg'):
        return comb(mats, ws)
    if what == 'avg':
        c = comb(mats, [1] * len(mats))
        return [[v / len(mats) for v in r] for r in c]
    P = [[env.const(1)] * n for _ in range(n)]
    for m in mats:
        P = [[P[i][j] * m[i][j] for j in range(n)] for i in range(n)]
    return P


def build(env, what, ks, ws, form='list'):
    base = env.mod('base')
    W = as_form(env, ws, form)
    if what in ('sum', 'wsum'):
        ck = base.SumKernel(ks)
        return ck, (lambda: ck.fit()) if what == 'sum' else (lambda: ck.fit(W))
    if what == 'avg':
        ck = base.AverageKernel(ks)
    elif what == 'prod':
        ck = base.ProductKernel(ks)
    else:
        ck = base.WeightedAverageKernel(ks, W)
    return ck, lambda: ck.fit()


WHATS = ('sum', 'wsum', 'avg', 'prod', 'wavg')


@R.add(variants=lambda t: [dict(what=w, k=k) for w in WHATS for k in ((2, 3) if t == 'quick' else (2, 3, 4))], wits=4)
def composite(env, what, k):
    """Composite kernels: the entrywise combination of the members; readable only once fitted; fitting again
    gives the same; members unchanged."""
    n = env.pick('n', [1, 2])
    norm = env.pick('norm', [False, True])
    kinds = env.pick('kinds', [('km',), ('pre',), ('km', 'pre'), ('array', 'km')])
    ks, mats = make_set(env, k, n, norm, kinds=kinds)
    ws = [env.real('w%d' % t, lo=-10, hi=10) for t in range(k)]
    ck, fit = build(env, what, ks, ws, env.pick('form', ['list', 'array']) if what[0] == 'w' else 'list')
    for acc in ('composite_KM', 'full'):
        out = env.call(lambda: getattr(ck, acc))
        env.prove(out.raised(ValueError), '%s before fit is refused' % acc, soft=out)
    W = expected(env, what, mats, ws)
    for rnd in range(2):
        if not env.expect_ok(env.call(fit), 'fit succeeds'):
            return
        env.expect_matrix(ck.composite_KM, W, '%s composite (fit %d)' % (what, rnd + 1))
        env.expect_matrix(ck.full, W, '%s full (fit %d)' % (what, rnd + 1))
    unchanged(env, ks, mats, 'after fit')


@R.add(variants=[dict(what=w) for w in WHATS + ('lin', 'linnorm')], wits=4)
def repeated_members(env, what):
    """A matrix that is in the set more than once counts as often as it is there; so do equal ones."""
    base, ops = env.mod('base'), env.mod('operations')
    kinds = env.pick('kinds', [('km',), ('pre',)])
    ks0, m0 = make_set(env, 2, 2, kinds=kinds)
    a, b = ks0[0], ks0[1]
    twin = base.KernelMatrixPrecomputed(env.np.array(m0[0]))
    order = env.pick('order', [[0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 2], [0, 1, 0, 1]])
    ks = base.KernelSet([[a, b, twin][i] for i in order])
    mats = [[m0[0], m0[1], m0[0]][i] for i in order]
    same_w = env.pick('same weights', [False, True])
    ws = [env.real('w%d' % t, lo=0.5, hi=10) for t in range(len(order))]
    if same_w:
        ws = [ws[0]] * len(order)
    if what.startswith('lin'):
        out = env.call(ops.linear_combination, ks, ws, norm_weights=what == 'linnorm')
        if env.expect_ok(out, 'succeeds'):
            tot = sum(ws[1:], ws[0])
            env.expect_matrix(out.val, comb(mats, [w / tot for w in ws] if what == 'linnorm' else ws), 'combination')
        return
    ck, fit = build(env, what, ks, ws)
    if env.expect_ok(env.call(fit), 'fit succeeds'):
        env.expect_matrix(ck.full, expected(env, what, mats, ws), what)
    unchanged(env, ks, mats, 'after')


@R.add(variants=[dict(what=w) for w in WHATS], wits=3)
def reattached_set(env, what):
    """Members attached to another sample (or the same array changed in place): fitting again follows."""
    base = env.mod('base')
    Ts = [sym_table(env, range(5), name='K%d' % t) for t in range(2)]
    kms = [base.KernelMatrix(table_kernel(env, base, T), normalized=False) for T in Ts]
    ks = base.KernelSet(kms)
    X = id_sample(env, [0, 1])
    ks.attach_to(X)
    ws = [env.real('w%d' % t, lo=-10, hi=10) for t in range(2)]
    ck, fit = build(env, what, ks, ws)
    fit()
    env.expect_matrix(ck.full, expected(env, what, [Oracle(env, T, [0, 1]).raw() for T in Ts], ws), 'first')
    if env.pick('in place', [False, True]):
        X[0, 0] = 3.0
        ids = [3, 1]
        ks.attach_to(X)
    else:
        ids = [2, 4]
        ks.attach_to(id_sample(env, ids))
    fit()
    env.expect_matrix(ck.full, expected(env, what, [Oracle(env, T, ids).raw() for T in Ts], ws), 'after attaching again')


@R.add(wits=4)
def refit_weights(env):
    """Fitting a sum with other weights replaces the former result (with and without weights)."""
    base = env.mod('base')
    ks, mats = make_set(env, 2, 2)
    ck = base.SumKernel(ks)
    for t in range(3):
        if env.pick('weighted%d' % t, [False, True]):
            ws = [env.real('w%d_%d' % (t, i), lo=-10, hi=10) for i in range(2)]
            ck.fit(ws)
        else:
            ws = [1, 1]
            ck.fit()
        env.expect_matrix(ck.composite_KM, comb(mats, ws), 'fit %d' % (t + 1))


@R.add(variants=[dict(what=w) for w in WHATS], wits=3)
def grown_set(env, what):
    """Fitting reflects the members of the set, in their order, at that time."""
    base = env.mod('base')
    ks, mats = make_set(env, 2, 2, kinds=('pre',))
    if what in ('wavg', 'wsum'):
        ws = [env.real('w0', lo=-10, hi=10), env.real('w1', lo=-10, hi=10)]
        ck, fit = build(env, what, ks, ws)
        fit()
        env.expect_matrix(ck.full, expected(env, what, mats, ws), 'combination')
        return
    ck, fit = build(env, what, ks, [])
    fit()
    env.expect_matrix(ck.full, expected(env, what, mats, []), 'two members')
    M = env.symm('X', 2)
    ks.append(base.KernelMatrixPrecomputed(env.np.array(M)))
    fit()
    env.expect_matrix(ck.full, expected(env, what, mats + [M], []), 'three members')


@R.add(variants=[dict(what=w) for w in WHATS], wits=4)
def refused(env, what):
    """Composites need a set of two or more matrices over a known sample."""
    base, nk = env.mod('base'), env.mod('numeric_kernels')
    case = env.pick('case', ['list', 'none', 'array', 'km', 'empty', 'one', 'unattached'])
    ks, mats = make_set(env, 2, 2)
    ws = [1.0, 2.0]
    err = TypeError
    if case == 'list':
        x = list(ks)
    elif case == 'none':
        x = None
    elif case == 'array':
        x = env.np.array(mats[0])
    elif case == 'km':
        x = ks[0]
    elif case == 'empty':
        x, ws, err = base.KernelSet(), [], ValueError
    elif case == 'one':
        x, ws, err = base.KernelSet([ks[0]]), [1.0], ValueError
    else:
        x = base.KernelSet([base.KernelMatrix(nk.LinearKernel()), base.KernelMatrix(nk.PolyKernel())])
        err = ValueError
    cls = {'sum': base.SumKernel, 'wsum': base.SumKernel, 'avg': base.AverageKernel, 'prod': base.ProductKernel}
    out = env.call(cls[what], x) if what in cls else env.call(base.WeightedAverageKernel, x, ws)
    env.prove(out.raised(err), 'refused: ' + case, soft=out)


@R.add(variants=[dict(what=w) for w in WHATS + ('lin',)], wits=2)
def negative_weights(env, what):
    """Scaling and additivity: the combination is linear in the weights."""
    ops = env.mod('operations')
    ks, mats = make_set(env, 2, 2, kinds=('pre',))
    a = [env.real('a%d' % t, lo=-5, hi=5) for t in range(2)]
    b = [env.real('b%d' % t, lo=-5, hi=5) for t in range(2)]

    def go(ws):
        if what == 'lin':
            return ops.linear_combination(ks, ws)
        ck, fit = build(env, what, ks, ws)
        fit()
        return ck.full
    if what not in ('wsum', 'wavg', 'lin'):
        A = go(a)
        env.expect_matrix(A, expected(env, what, mats, a), 'value')
        return
    A, B = go(a), go(b)
    C = go([x + 2 * y for x, y in zip(a, b)])
    env.expect_matrix(C, [[A[i, j] + 2 * B[i, j] for j in range(2)] for i in range(2)], 'linear in the weights')


@R.add(variants=lambda t: [dict(k=k) for k in sizes(t, quick_limit=60, thorough_limit=130) if k >= 2], wits=1)
def many(env, k):
    """Sets with as many members as any integer constant of the source."""
    base, ops = env.mod('base'), env.mod('operations')
    s = env.real('s', lo=0.5, hi=2)
    mats = [[[s * (3 * t + 1), s * t], [s * t, s * (2 * t + 5)]] for t in range(k)]
    ks = base.KernelSet([base.KernelMatrixPrecomputed(env.np.array(m)) for m in mats])
    ws = [(7 * t) % 11 - 3 for t in range(k)]
    env.expect_matrix(ops.linear_combination(ks, ws), comb(mats, ws), 'combination')
    for what in ('sum', 'avg', 'wavg', 'wsum') + (('prod',) if k <= 8 else ()):
        ck, fit = build(env, what, ks, ws)
        fit()
        env.expect_matrix(ck.full, expected(env, what, mats, ws), what)


@R.add(variants=lambda t: [dict(n=n) for n in sizes(t, quick_limit=60, thorough_limit=130)], wits=1)
def big(env, n):
    """Matrices with sizes around every integer constant of the source."""
    base, ops = env.mod('base'), env.mod('operations')
    s = env.real('s', lo=0.5, hi=2)
    mats = [[[s * ((min(i, j) * 31 + max(i, j) * 17 + 5 * t) % 101 + 1) for j in range(n)] for i in range(n)]
            for t in range(2)]
    ks = base.KernelSet([base.KernelMatrixPrecomputed(env.np.array(m)) for m in mats])
    ws = [3, -2]
    env.expect_matrix(ops.linear_combination(ks, ws), comb(mats, ws), 'combination')
    for what in ('sum', 'avg', 'wavg', 'wsum', 'prod'):
        ck, fit = build(env, what, ks, ws)
        fit()
        env.expect_matrix(ck.full, expected(env, what, mats, ws), what)


@R.add(variants=[dict(what=w, unit=u) for w in ('sum', 'wsum', 'avg', 'wavg', 'lin') for u in UNITS], wits=3)
def magnitudes(env, what, unit):
    """Weights and members however small or large all of them are."""
    base, ops = env.mod('base'), env.mod('operations')
    env.unit = unit
    small = env.pick('small', ['members', 'weights']) if what in ('wsum', 'wavg', 'lin') else 'members'
    mats = [[[x * (unit if small == 'members' else 1.0) for x in r] for r in env.symm('M%d' % t, 2)] for t in range(2)]
    ws = [env.real('w%d' % t, lo=-10, hi=10) * (unit if small == 'weights' else 1.0) for t in range(2)]
    ks = base.KernelSet([base.KernelMatrixPrecomputed(env.np.array(M)) for M in mats])
    if what == 'lin':
        out = env.call(ops.linear_combination, ks, ws)
        if env.expect_ok(out, 'succeeds'):
            env.expect_matrix(out.val, comb(mats, ws), 'combination')
        return
    ck, fit = build(env, what, ks, ws)
    if env.expect_ok(env.call(fit), 'fit succeeds'):
        env.expect_matrix(ck.full, expected(env, what, mats, ws), what)
