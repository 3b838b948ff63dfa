"""C16: ranking kernels and selecting the best."""
from symk.scen import Registry
from .lib import *
from .c07 import hkh
from .c08 import fro

R = Registry()
lookup = R.lookup


def bucket(env, tabs, norm=False):
    """A bucket of the linear kernel and one kernel per table."""
    base, sm = env.mod('base'), env.mod('sampling')
    kb = sm.make_kernel_bucket('linear_only', normalize_kernels=norm)
    for t, T in enumerate(tabs):
        kb.append(base.KernelMatrix(table_kernel(env, base, T, name='t%d' % t), normalized=norm))
    return kb


def linear_of(env, S):
    return [[S[i].dot(S[j]) for j in range(len(S))] for i in range(len(S))]


def scale_oracle(env, xs):
    """Min-max scaling; forks on the order."""
    lo = hi = xs[0]
    for x in xs[1:]:
        if env.is_true(x < lo):
            lo = x
        if env.is_true(x > hi):
            hi = x
    if env.is_true(hi - lo <= 0):
        return [env.const(0) for _ in xs]
    return [(x - lo) / (hi - lo) for x in xs]


@R.add(variants=lambda t: [dict(n=n) for n in ((1, 2, 3) if t == 'quick' else (1, 2, 3, 4))], wits=4)
def scaling(env, n):
    """Least to zero, greatest to one, linear between; all equal: zeros.  The input is left as it was."""
    u = env.mod('utils')
    xs = [env.real('x_%d' % i, lo=-9, hi=9) for i in range(n)]
    for i in range(n):
        for j in range(i):
            env.assume(env.any_([xs[i] - xs[j] >= 0.01, xs[j] - xs[i] >= 0.01, xs[i] == xs[j]]))
    form = env.pick('form', ['array', 'list', 'tuple'])
    X = {'array': env.np.array(xs), 'list': list(xs), 'tuple': tuple(xs)}[form]
    out = env.call(u.min_max_scale, X)
    if env.expect_ok(out, 'succeeds'):
        env.expect_vector(out.val, scale_oracle(env, xs), 'scaled')
    for i in range(n):
        env.expect_close(X[i], xs[i], 'input unmodified')


@R.add(wits=2)
def scaling_integers(env):
    """Integers too."""
    u = env.mod('utils')
    xs = [env.int('x_%d' % i, -100, 100) for i in range(3)]
    out = env.call(u.min_max_scale, list(xs) if env.pick('f', [0, 1]) else env.np.array(xs))
    if env.expect_ok(out, 'succeeds'):
        env.expect_vector(out.val, scale_oracle(env, [x * env.const(1) for x in xs]), 'scaled')


def expect_alignment(env, v, K, y, label):
    n = len(y)
    CA, CB = hkh(K), hkh([[a * b for b in y] for a in y])
    env.expect_close(v * env.sqrt(fro(CA, CA)) * env.sqrt(fro(CB, CB)), fro(CA, CB), label)


@R.add(variants=[dict(n=n, k=k) for n, k in ((2, 2), (3, 1))], wits=4)
def align_values(env, n, k):
    """One target alignment per kernel, in the order of the bucket; the bucket is left as it was."""
    rk = env.mod('ranking')
    ids = list(range(n))
    tabs = [sym_table(env, ids, name='K%d' % t) for t in range(k)]
    kb = bucket(env, tabs)
    S = id_sample(env, ids)
    kb.attach_to(S)
    members = list(kb)
    y = [env.real('y_%d' % i, lo=-2, hi=2) for i in ids]
    env.assume(y[0] - y[1] >= 0.5)
    mats = [linear_of(env, S)] + [Oracle(env, T, ids).raw() for T in tabs]
    for M in mats[1:]:
        env.assume(fro(hkh(M), hkh(M)) >= 0.01)
    m = env.pick('m', ['align/corr', 'Align/Corr', 'ALIGN/CORR'])
    form = env.pick('form', ['array', 'list'])
    out = env.call(rk.rank_kernels, kb, env.np.array(y) if form == 'array' else list(y), method=m)
    if env.expect_ok(out, 'succeeds'):
        env.prove(len(out.val) == k + 1, 'one metric per kernel')
        for t in range(k + 1):
            expect_alignment(env, out.val[t], mats[t], y, 'kernel %d' % t)
    env.prove(len(kb) == k + 1 and all(a is b for a, b in zip(kb, members)), 'the same members')
    for t in range(k + 1):
        env.expect_matrix(kb[t].full, mats[t], 'member %d unchanged' % t)


@R.add(wits=4)
def align_degenerate(env):
    """Constant labels, or a constant kernel matrix, give an alignment of zero, not an error."""
    rk = env.mod('ranking')
    ids = [0, 1, 2]
    c = env.real('c', lo=1, hi=5)
    what = env.pick('what', ['labels', 'kernel'])
    T = {(i, j): c for i in ids for j in ids}
    kb = bucket(env, [T])
    S = id_sample(env, ids)
    kb.attach_to(S)
    y = [c, c, c] if what == 'labels' else [1.0, 2.0, -1.0]
    out = env.call(rk.rank_kernels, kb, env.np.array(y), method='align/corr')
    if env.expect_ok(out, 'succeeds'):
        env.expect_close(out.val[1], env.const(0), 'zero')
        if what == 'labels':
            env.expect_close(out.val[0], env.const(0), 'zero')
        else:
            env.prove(env.isfinite(out.val[0]), 'linear')


@R.add(variants=[dict(k=k) for k in (1, 2, 3)], wits=5)
def best_aligned(env, k):
    """The kernel selected is a member whose alignment no other exceeds; it is attached to the sample given."""
    rk = env.mod('ranking')
    ids = [0, 1]
    tabs = [sym_table(env, ids + [2, 3], name='K%d' % t) for t in range(k)]
    kb = bucket(env, tabs)
    if env.pick('before', [False, True]):
        kb.attach_to(id_sample(env, [3, 2]))
    S = id_sample(env, ids)
    y = env.pick('y', [[1.0, -1.0], [0.0, 1.0], [2.0, 5.0]])
    # with two samples an alignment is +1 or -1, by the sign of K00+K11-2*K01
    good = [True]
    for T in tabs:
        d = T[0, 0] + T[1, 1] - 2 * T[0, 1]
        env.assume(env.any_([d >= 0.01, d <= -0.01]))
        good.append(env.is_true(d > 0))
    out = env.call(rk.find_optimal_kernel, kb, S, env.np.array(y), method=env.pick('m', ['align/corr', 'ALIGN/corr']))
    if env.expect_ok(out, 'succeeds'):
        pos = [i for i, m in enumerate(kb) if m is out.val]
        env.prove(len(pos) == 1, 'a member of the bucket')
        env.prove(good[pos[0]], 'highest metric')
        env.prove(out.val.num_samples == 2, 'attached')
        W = linear_of(env, S) if pos[0] == 0 else Oracle(env, tabs[pos[0] - 1], ids).raw()
        env.expect_matrix(out.val.full, W, 'attached to the sample')


@R.add(wits=5)
def best_graded(env):
    """Graded alignments: kernels a*yy' + b*noise, more noise aligns less."""
    rk, base, sm = env.mod('ranking'), env.mod('base'), env.mod('sampling')
    ids = [0, 1, 2]
    y = [1.0, -1.0, 0.0]
    noise = [1.0, 1.0, -2.0]
    bs = [env.real('b_%d' % t, lo=0, hi=4) for t in range(3)]
    for i in range(3):
        for j in range(i):
            env.assume(env.any_([bs[i] - bs[j] >= 0.05, bs[j] - bs[i] >= 0.05]))
    tabs = [{(i, j): env.const(y[i] * y[j]) + b * (noise[i] * noise[j]) for i in ids for j in ids} for b in bs]
    kb = bucket(env, tabs)
    S = env.np.array([[0.0, 1.0], [1.0, 1.0], [2.0, 1.0]])
    out = env.call(rk.rank_kernels, _attached(kb, S), env.np.array(y), method='align/corr')
    if env.expect_ok(out, 'ranking'):
        for i in range(3):
            for j in range(3):
                if i != j and env.is_true(bs[i] < bs[j]):
                    env.prove(out.val[1 + i] > out.val[1 + j], 'less noise ranks higher')
    o2 = env.call(rk.find_optimal_kernel, kb, S, env.np.array(y), method='align/corr')
    if env.expect_ok(o2, 'selection'):
        pos = [i for i, m in enumerate(kb) if m is o2.val][0]
        for i in range(3):
            if pos != 1 + i:
                env.prove(out.val[pos] >= out.val[1 + i], 'no other exceeds it')


def _attached(kb, S):
    kb.attach_to(S)
    return kb


@R.add(wits=5)
def undefined(env):
    """A kernel whose metric is undefined is never selected while another is defined."""
    rk = env.mod('ranking')
    ids = [0, 1]
    bad = env.pick('bad', [env.nan, env.inf])
    where = env.pick('where', [(0, 1), (0, 0), (1, 1)])
    tabs = []
    nb = env.pick('nb', [1, 2, 3])
    for t in range(3):
        T = sym_table(env, ids, name='K%d' % t)
        if t != 1 and (nb >> (0 if t == 0 else 1)) & 1:
            T[where] = bad
        else:
            env.assume(T[0, 0] + T[1, 1] - 2 * T[0, 1] >= 0.01)
        tabs.append(T)
    kb = bucket(env, tabs)
    S = id_sample(env, ids)
    out = env.call(rk.find_optimal_kernel, kb, S, env.np.array([1.0, -1.0]), method='align/corr')
    if env.expect_ok(out, 'succeeds'):
        pos = [i for i, m in enumerate(kb) if m is out.val][0]
        env.prove(pos in (0, 2) or not (nb >> (0 if pos == 1 else 1)) & 1, 'a defined one')


CV_X = [[1.0, 0.0], [2.0, 1.0], [1.5, 0.5], [-1.0, 0.25], [-2.0, -1.0], [-1.5, 1.0]]


def cv_bucket(env, s):
    base, sm, nk = env.mod('base'), env.mod('sampling'), env.mod('numeric_kernels')
    kb = sm.make_kernel_bucket('linear_only', normalize_kernels=False)
    kb.append(base.KernelMatrix(nk.PolyKernel(degree=2), normalized=False))
    kb.append(base.KernelMatrix(nk.LaplacianKernel(gamma=0.5), normalized=False))
    X = env.np.array([[s * a, env.const(b)] for a, b in CV_X])
    return kb, X


def cv_checks(env, log, kb, y, who, folds):
    gs = [e for e in log if e['op'] == 'gs']
    env.prove(len(gs) == len(kb), 'one cross-validation per kernel')
    for t, e in enumerate(gs):
        M = kb[t].full
        env.expect_matrix(e['X'], [[M[i, j] for j in range(6)] for i in range(6)], 'matrix of kernel %d' % t)
        env.prove(e['kernel'] == 'precomputed', 'as a precomputed kernel')
        env.prove(e['who'] == who, 'estimator')
        env.prove(e['cv'] == folds, 'number of folds')
        env.expect_vector(e['y'], [env.const(v) for v in y], 'labels')
    return [e['score'] for e in gs]


@R.add(variants=[dict(est=e) for e in (None, 'SVM', 'svc', 'SVR')], wits=2)
def cv_values(env, est):
    """Cross-validation: the scaled score of each kernel matrix, in order."""
    rk = env.mod('ranking')
    s = env.real('s', lo=0.5, hi=2)
    kb, X = cv_bucket(env, s)
    kb.attach_to(X)
    y = [1.0, 1.0, 1.0, 0.0, 0.0, 0.0] if est != 'SVR' else [1.0, 1.5, 2.0, -1.0, 0.25, 0.75]
    folds = env.pick('folds', [None, 2])
    kw = {}
    if est is not None:
        kw['estimator_name'] = est
    if folds is not None:
        kw['num_folds'] = folds
    out = env.call(rk.rank_kernels, kb, env.np.array(y), method=env.pick('m', ['cv_risk', 'CV_Risk']), **kw)
    if env.expect_ok(out, 'succeeds'):
        sc = cv_checks(env, env.svm_log, kb, y, 'SVR' if est == 'SVR' else 'SVC', folds or 3)
        for i in range(3):
            for j in range(i):
                env.assume(env.any_([sc[i] - sc[j] >= 1e-6, sc[j] - sc[i] >= 1e-6, sc[i] == sc[j]]))
        W = scale_oracle(env, [v * env.const(1) for v in sc])
        env.expect_vector(out.val, [100 * w for w in W], 'scaled scores')


@R.add(variants=[dict(est=e) for e in (None, 'SVR')], wits=2)
def cv_best(env, est):
    """The best by cross-validation."""
    rk = env.mod('ranking')
    s = env.real('s', lo=0.5, hi=2)
    kb, X = cv_bucket(env, s)
    y = [1.0, 1.0, 1.0, 0.0, 0.0, 0.0] if est != 'SVR' else [1.0, 1.5, 2.0, -1.0, 0.25, 0.75]
    kw = {} if est is None else dict(estimator_name=est)
    out = env.call(rk.find_optimal_kernel, kb, X, env.np.array(y), **kw)
    if env.expect_ok(out, 'succeeds'):
        sc = cv_checks(env, env.svm_log, kb, y, 'SVR' if est == 'SVR' else 'SVC', 3)
        pos = [i for i, m in enumerate(kb) if m is out.val]
        env.prove(len(pos) == 1, 'a member')
        for i in range(3):
            for j in range(i):
                env.assume(env.any_([sc[i] - sc[j] >= 1e-6, sc[j] - sc[i] >= 1e-6, sc[i] == sc[j]]))
        for i in range(3):
            env.prove(sc[pos[0]] >= sc[i], 'no other exceeds it')


@R.add(wits=4)
def refused(env):
    """Unknown methods and things that are no bucket are refused."""
    rk, base = env.mod('ranking'), env.mod('base')
    ids = [0, 1]
    T = sym_table(env, ids)
    kb = bucket(env, [T])
    S = id_sample(env, ids)
    y = env.np.array([1.0, -1.0])
    what = env.pick('what', ['method', 'rank method', 'set', 'list', 'str', 'none', 'estimator'])
    if what == 'method':
        out = env.call(rk.find_optimal_kernel, kb, S, y, method=env.pick('m', ['xyz', '', 'align', 'cv_risk_', 'corr']))
        env.prove(out.raised(NotImplementedError), 'refused', soft=out)
        env.prove(kb.num_samples is None, 'not attached')
    elif what == 'rank method':
        kb.attach_to(S)
        out = env.call(rk.rank_kernels, kb, y, method=env.pick('m', ['xyz', '', 'align', 'corr', 'svm']))
        env.prove(out.raised(NotImplementedError), 'refused', soft=out)
    elif what == 'estimator':
        kb.attach_to(S)
        out = env.call(rk.rank_kernels, kb, y, method='cv_risk', estimator_name='tree')
        env.prove(out.raised(NotImplementedError), 'refused', soft=out)
    else:
        x = {'set': base.KernelSet(), 'list': [kb[0]], 'str': 'light', 'none': None}[what]
        out = env.call(rk.find_optimal_kernel, x, S, y, method='align/corr')
        env.prove(out.raised(TypeError), 'refused', soft=out)


@R.add(wits=2)
def estimators(env):
    """The learners on offer work on precomputed kernels, over a grid of penalties."""
    rk = env.mod('ranking')
    nm = env.pick('nm', ['SVM', 'svm', 'SVC', 'Svc', 'SVR', 'svr'])
    e, g = rk.get_estimator(nm)
    env.prove(e.kernel == 'precomputed', 'precomputed kernel')
    env.prove(('SVR' if nm.lower() == 'svr' else 'SVC') == type(e).__name__, 'kind')
    env.expect_close(e.C, env.const(10), 'C')
    env.prove(list(g) == ['C'], 'grid over C')
    v = list(g['C'])
    env.prove(len(v) == 12, 'twelve values')
    for i in range(12):
        env.expect_close(v[i] * (10 ** 6), env.const(10 ** i), 'powers of ten')
    e2, _ = rk.get_estimator(nm)
    env.prove(e2 is not e, 'a new one each time')


@R.add(variants=lambda t: [dict(k=k) for k in sizes(t, quick_limit=60)], wits=1)
def many(env, k):
    """Buckets of any size: the best at any position."""
    rk = env.mod('ranking')
    ids = [0, 1]
    s = env.real('s', lo=0.5, hi=2)
    best = env.pick('best', sorted({0, k // 2, k - 1}))
    tabs = []
    for t in range(k):
        # alignment +1 or -1
        off = s if t == best else 3 * s
        tabs.append({(0, 0): 2 * s, (1, 1): 2 * s, (0, 1): off})
    kb = bucket(env, tabs)
    S = id_sample(env, ids)
    y = env.np.array([1.0, -1.0])
    kb.attach_to(S)
    out = env.call(rk.rank_kernels, kb, y)
    if env.expect_ok(out, 'ranking'):
        env.prove(len(out.val) == k + 1, 'one metric per kernel')
        for t in range(k):
            env.expect_close(out.val[t + 1], env.const(1 if t == best else -1), 'metric %d' % t)


@R.add(variants=lambda t: [dict(n=n) for n in sizes(t, quick_limit=60)], wits=1)
def scaling_sweep(env, n):
    """Scaling arrays of any length."""
    u = env.mod('utils')
    s = env.real('s', lo=0.5, hi=2)
    xs = [s * ((i * 7) % (n + 1)) for i in range(n)]
    ks = [(i * 7) % (n + 1) for i in range(n)]
    lo, hi = min(ks), max(ks)
    out = env.call(u.min_max_scale, env.np.array(xs))
    if env.expect_ok(out, 'succeeds'):
        env.expect_vector(out.val, [env.const(k - lo) / (hi - lo) if hi > lo else env.const(0) for k in ks], 'scaled')


@R.add(variants=[dict(est=e) for e in ('SVC', 'SVR')], wits=2)
def cv_targets(env, est):
    """Cross-validation is on the very targets given, whatever their values and types."""
    rk = env.mod('ranking')
    s = env.real('s', lo=0.5, hi=2)
    kb, X = cv_bucket(env, s)
    kb.attach_to(X)
    y = env.pick('y', [[5, 7, 5, 7, 5, 7], [7, 7, 7, -3, -3, -3], [0, 1, 0, 1, 0, 1], [1000, 2, 2, 1000, 1000, 2]] +
                 ([[-1, 2, 2, 4, 5, 9], [0.5, -2.25, 3.0, 100.0, 1e-3, 7.0]] if est == 'SVR' else [[2.0, 3.0, 2.0, 3.0, 2.0, 3.0]]))
    form = env.pick('form', ['array', 'list', 'tuple'])
    arg = env.np.array(y) if form == 'array' else list(y) if form == 'list' else tuple(y)
    if env.pick('how', ['rank', 'find']) == 'rank':
        out = env.call(rk.rank_kernels, kb, arg, method='cv_risk', estimator_name=est)
    else:
        out = env.call(rk.find_optimal_kernel, kb, X, arg, method='cv_risk', estimator_name=est)
    if env.expect_ok(out, 'succeeds'):
        cv_checks(env, env.svm_log, kb, y, est, 3)
    for i in range(6):
        env.prove(arg[i] == y[i], 'targets unmodified')


@R.add(variants=[dict(gap=g) for g in (0.1, 1e-2, 1e-3, 1e-4, 1e-6)], wits=4)
def best_close(env, gap):
    """Metrics that differ by little: the highest still is the one selected."""
    rk = env.mod('ranking')
    ids = [0, 1, 2]
    y = [1.0, -1.0, 0.0]
    noise = [1.0, 1.0, -2.0]
    b = env.pick('b', [0.5, 2.0])
    order = env.pick('order', [(0, 1, 2), (1, 0, 2), (2, 1, 0), (1, 2, 0)])
    tabs = [{(i, j): y[i] * y[j] + (b + gap * o) * (noise[i] * noise[j]) for i in ids for j in ids} for o in order]
    kb = bucket(env, tabs)
    S = env.np.array([[0.0, 10.0], [1.0, 10.0], [2.0, -20.0]])
    out = env.call(rk.find_optimal_kernel, kb, S, env.np.array(y), method='align/corr')
    if env.expect_ok(out, 'selection'):
        pos = [i for i, m in enumerate(kb) if m is out.val][0]
        env.prove(pos == 1 + order.index(0), 'the least noisy one is selected')


@R.add(wits=5)
def cv_folds(env):
    """Cross-validation is over as many folds as asked for."""
    rk = env.mod('ranking')
    s = env.real('s', lo=0.5, hi=2)
    kb, X = cv_bucket(env, s)
    kb.attach_to(X)
    y = [1.0, 1.5, 2.0, -1.0, 0.25, 0.75]
    folds = 2 + env.choice('folds', 5)
    out = env.call(rk.CV_ranking, kb, env.np.array(y), num_folds=folds, estimator_name='SVR')
    env.expect_ok(out, 'succeeds')
    cv_checks(env, env.svm_log, kb, y, 'SVR', folds)
