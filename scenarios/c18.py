"""C18: the optimal-kernel estimators."""
from symk.scen import Registry
from .lib import *
from .c16 import bucket, linear_of, CV_X, cv_bucket
from .c17 import predicted, expect_fit, expect_predict, oracle_predict

R = Registry()
lookup = R.lookup

CLS = {False: 'OptimalKernelSVC', True: 'OptimalKernelSVR'}
BOTH = [dict(reg=r) for r in (False, True)]


def machine(env, reg, **kw):
    return getattr(env.mod('algorithms'), CLS[reg])(**kw)


def oracle(env, reg, M, ys, w=None, **kw):
    svm = env.sk('sklearn.svm')
    m = svm.SVR(kernel='precomputed', **kw) if reg else svm.SVC(kernel='precomputed', **kw)
    n = len(env.svm_log)
    m.fit(env.np.array([[v * env.const(1) for v in r] for r in M]), env.np.array(ys), sample_weight=w)
    del env.svm_log[n:]
    return m


def good_at(env, T, a, b):
    """Whether the alignment of T with distinct labels on samples a, b is +1 (else it is -1)."""
    d = T[a, a] + T[b, b] - 2 * T[min(a, b), max(a, b)]
    env.assume(env.any_([d >= 0.01, d <= -0.01]))
    return env.is_true(d > 0)


def cross_linear(env, Z, X):
    return [[z.dot(x) for x in X] for z in Z]


def tables(env, k, ids):
    return [sym_table(env, ids, name='K%d' % t) for t in range(k)]


def run(env, m, reg, tabs, tr, tes, ys, tag, w=None, params=None):
    """Fit on two samples (alignments are +1 or -1), predict on each of tes; check all."""
    S = id_sample(env, tr)
    env.svm_log.clear()
    kw = {} if w is None else dict(sample_weight=env.np.array(w))
    out = env.call(m.fit, S, env.np.array(ys), **kw)
    if not env.expect_ok(out, tag + ': fit'):
        return
    env.prove(out.val is m, tag + ': fit returns the estimator itself')
    good = [True] + [good_at(env, T, *tr) for T in tabs]
    fits = [e for e in env.svm_log if e['op'] == 'fit']
    env.prove(len(fits) == 1, tag + ': trained once')
    if len(fits) != 1:
        return
    mats = [linear_of(env, S)] + [Oracle(env, T, tr).raw() for T in tabs]
    name = str(m.opt_kernel_.kernel)
    pos = 0 if not name.startswith('t') else 1 + int(name[1])
    env.prove(good[pos], tag + ': no kernel aligns better')
    M = mats[pos]
    expect_fit(env, env.svm_log, M, ys, reg, tag, w)
    orc = oracle(env, reg, M, ys, None if w is None else env.np.array(w), **(params or {}))
    for t, te in enumerate(tes):
        env.svm_log.clear()
        Z = id_sample(env, te)
        out = env.call(m.predict, Z)
        C = cross_linear(env, Z, S) if pos == 0 else Oracle(env, tabs[pos - 1], te, tr).raw()
        expect_predict(env, out, list(env.svm_log), C, oracle_predict(env, orc, C), reg, '%s: predict %d' % (tag, t + 1))
    if not reg:
        cl = env.call(getattr, m, 'classes_')
        if env.expect_ok(cl, tag + ': classes are recorded'):
            env.prove(list(cl.val) == list(orc.classes_), tag + ': classes')


@R.add(variants=[dict(reg=r, k=k) for r in (False, True) for k in (1, 2)], wits=4)
def once(env, reg, k):
    """Fit and predict once, with buckets of user kernels, ranked by alignment."""
    tr = [0, 1]
    te = env.pick('te', [[2], [0, 2], [2, 3, 1]])
    tabs = tables(env, k, tr + te)
    m = machine(env, reg, k_bucket=bucket(env, tabs), method='align/corr')
    ys = [env.real('y_%d' % i, lo=-4, hi=4) for i in range(2)] if reg else env.pick('y', [[0, 1], [5, 3]])
    if reg:
        env.assume(ys[0] - ys[1] >= 0.1)
    run(env, m, reg, tabs, tr, [te], ys, 'first')


@R.add(variants=BOTH, wits=5)
def best_of_graded(env, reg):
    """The best of kernels aligned to different degrees is the one trained on."""
    ids = [0, 1, 2]
    y = [1.0, -1.0, 0.0] if reg else [1.0, 0.0, 0.0]
    yc = [1.0, -1.0, 0.0] if reg else [2.0, -1.0, -1.0]
    noise = [1.0, 1.0, -2.0] if reg else [0.0, 1.0, -1.0]
    bs = [env.real('b_%d' % t, lo=0, hi=4) for t in range(3)]
    for i in range(3):
        for j in range(i):
            env.assume(env.any_([bs[i] - bs[j] >= 0.05, bs[j] - bs[i] >= 0.05]))
    tabs = []
    for b in bs:
        T = {(i, j): env.const(yc[i] * yc[j]) + b * (noise[i] * noise[j]) for i in ids for j in ids}
        for i in ids + [3]:
            T[i, 3] = env.const(1 + i) + b
        tabs.append(T)
    S = env.np.array([[0.0, 1.0], [1.0, 1.0], [2.0, 1.0]])
    m = machine(env, reg, k_bucket=bucket(env, tabs), method='align/corr')
    out = env.call(m.fit, S, env.np.array(y))
    if not env.expect_ok(out, 'fit'):
        return
    best = 0
    for t in (1, 2):
        if env.is_true(bs[t] < bs[best]):
            best = t
    fits = [e for e in env.svm_log if e['op'] == 'fit']
    env.prove(len(fits) == 1, 'trained once')
    name = str(m.opt_kernel_.kernel)
    if not name.startswith('t'):
        # the linear kernel may be better still: only if its alignment is
        K = linear_of(env, S)
        from .c16 import expect_alignment
        from .c07 import hkh
        from .c08 import fro
        CA, CY, CT = hkh(K), hkh([[env.const(a * b) for b in y] for a in y]), hkh(Oracle(env, tabs[best], ids).raw())
        env.prove(fro(CA, CY) * env.sqrt(fro(CT, CT)) >= fro(CT, CY) * env.sqrt(fro(CA, CA)) * env.const(0.999999), 'linear is as good')
        return
    env.prove(int(name[1]) == best, 'the best one')
    env.expect_matrix(fits[0]['X'], Oracle(env, tabs[best], ids).raw(), 'trained on the best')
    env.svm_log.clear()
    out = env.call(m.predict, id_sample(env, [3, 1]))
    if env.expect_ok(out, 'predict'):
        env.expect_matrix(predicted(env, env.svm_log), Oracle(env, tabs[best], [3, 1], ids).raw(), 'kernel with the training samples')


@R.add(variants=BOTH, wits=4)
def again(env, reg):
    """Refitting forgets the former data; predicting repeatedly gives each time the right matrix."""
    tabs = tables(env, 1, range(5))
    kb = bucket(env, tabs)
    m = machine(env, reg, k_bucket=kb, method='align/corr')
    pool = [[0, 1], [2, 3], [1, 4]]
    for t in range(2):
        tr = env.pick('tr%d' % t, pool if reg else pool[t:2 + t])
        te = env.pick('te%d' % t, [[4], [1, 2]]) if reg or t else [2]
        run(env, m, reg, tabs, tr, [te, [2]] if reg else [te], ([0.5, 2.0] if t else [3.0, 1.0]) if reg else ([0, 1] if t else [7, 5]), 'fit%d' % t)
    env.prove(m.k_bucket is kb, 'bucket kept')
    env.prove(kb.num_samples is None, 'the bucket of the user is left as it was')


@R.add(variants=BOTH, wits=3)
def weights(env, reg):
    """Weights are passed on."""
    tabs = tables(env, 1, [0, 1, 2])
    m = machine(env, reg, k_bucket=bucket(env, tabs), method='align/corr')
    w = [env.real('w_%d' % i, lo=0.5, hi=2) for i in range(2)]
    run(env, m, reg, tabs, [0, 1], [[2]], [1.5, 0.5] if reg else [0, 1], 'fit', w=w)


@R.add(variants=BOTH, wits=3)
def penalty(env, reg):
    """The parameters of the machine are those given."""
    tabs = tables(env, 1, [0, 1, 2])
    C = env.pick('C', [0.25, 1.0, 30.0])
    tol = env.pick('tol', [1e-3, 1e-5])
    kw = dict(C=C, tol=tol, shrinking=env.pick('sh', [True, False]))
    if reg:
        kw['epsilon'] = env.pick('eps', [0.1, 0.5])
    m = machine(env, reg, k_bucket=bucket(env, tabs), method='align/corr', **kw)
    run(env, m, reg, tabs, [0, 1], [[2]], [4.5, 0.5] if reg else [0, 1], 'fit', params=kw)


@R.add(wits=3)
def text_labels(env):
    """Text labels are predicted as such."""
    tabs = tables(env, 1, range(4))
    m = machine(env, False, k_bucket=bucket(env, tabs), method='cv_risk')
    s = env.real('s', lo=0.5, hi=2)
    kb, X = cv_bucket(env, s)
    m = machine(env, False, k_bucket=kb)
    a, b = env.pick('names', [('no', 'yes'), ('left', 'l'), ('z', 'a')])
    ys = [a] * 3 + [b] * 3
    cv_run(env, m, False, kb, X, ys, s)


MATS = [lambda env, a, b: a.dot(b), lambda env, a, b: (1 + a.dot(b)) ** 2,
        lambda env, a, b: env.exp(env.const(-0.5) * (env.abs(a[0] - b[0]) + env.abs(a[1] - b[1])))]


def cv_run(env, m, reg, kb, X, ys, s):
    env.svm_log.clear()
    out = env.call(m.fit, X, env.np.array(ys))
    if not env.expect_ok(out, 'fit'):
        return
    gs = [e for e in env.svm_log if e['op'] == 'gs']
    env.prove(len(gs) == 3, 'each kernel is ranked')
    fns = MATS
    mats = [[[fns[t](env, X[i], X[j]) for j in range(6)] for i in range(6)] for t in range(3)]
    for t, e in enumerate(gs):
        env.prove(e['who'] == ('SVR' if reg else 'SVC'), 'ranked for the task')
        env.expect_matrix(e['X'], mats[t], 'ranked on matrix %d' % t)
    sc = [e['score'] for e in gs]
    for i in range(3):
        for j in range(i):
            env.assume(env.any_([sc[i] - sc[j] >= 1e-6, sc[j] - sc[i] >= 1e-6, sc[i] == sc[j]]))
    name = str(m.opt_kernel_.kernel)
    pos = 0 if name.startswith('linear') else 1 if name.startswith('poly') else 2
    for i in range(3):
        env.prove(sc[pos] >= sc[i], 'no kernel scores better')
    log = [e for e in env.svm_log if e['op'] != 'gs']
    # fits within the cross-validation are the business of the learner
    fits = [e for e in log if e['op'] == 'fit' and len(e['y']) == 6]
    expect_fit(env, fits[-1:], mats[pos], ys, reg, 'fit')
    orc = oracle(env, reg, mats[pos], ys)
    te = [[0.5 * s, 0.25], [-2 * s, 1.0]]
    te = env.np.array([[a * env.const(1), env.const(b)] for a, b in te][:env.pick('nt', [1, 2])])
    env.svm_log.clear()
    out = env.call(m.predict, te)
    C = [[fns[pos](env, te[i], X[j]) for j in range(6)] for i in range(len(te))]
    expect_predict(env, out, list(env.svm_log), C, oracle_predict(env, orc, C), reg, 'predict')


@R.add(variants=[dict(reg=r, m=m) for r in (False, True) for m in ('default', 'cv_risk', 'CV_risk')], wits=3)
def cross_validated(env, reg, m):
    """Ranking by cross-validation: of the task at hand, on each kernel matrix."""
    s = env.real('s', lo=0.5, hi=2)
    kb, X = cv_bucket(env, s)
    mm = machine(env, reg, k_bucket=kb, **({} if m == 'default' else dict(method=m)))
    cv_run(env, mm, reg, kb, X, [1.0, 1.5, 2.0, -1.0, 0.25, 0.75] if reg else [1, 1, 1, 0, 0, 0], s)


@R.add(variants=BOTH, wits=3)
def by_strategy(env, reg):
    """The bucket may be named by its strategy."""
    st = 'linear_only'
    m = machine(env, reg, k_bucket=st, method='align/corr')
    X = [[env.real('x', lo=0.5, hi=3), env.const(2.0)], [env.const(-1.0), env.real('z', lo=0.5, hi=3)]]
    S = env.np.array(X)
    y = env.np.array([1.0, 0.0])
    out = env.call(m.fit, S, y)
    if env.expect_ok(out, 'fit'):
        env.prove(m.k_bucket == st, 'parameter kept')
        fits = [e for e in env.svm_log if e['op'] == 'fit']
        env.prove(len(fits) == 1, 'trained once')
        k = m.opt_kernel_.kernel
        # buckets made by name are normalised
        nrm = lambda u, v: k(u, v) / (env.sqrt(k(u, u)) * env.sqrt(k(v, v)))
        env.expect_matrix(fits[0]['X'], [[nrm(S[i], S[j]) for j in range(2)] for i in range(2)], 'on the selected kernel')
        env.svm_log.clear()
        Z = env.np.array([[0.25, env.const(1.0)]])
        out = env.call(m.predict, Z)
        if env.expect_ok(out, 'predict'):
            env.expect_matrix(predicted(env, env.svm_log), [[nrm(Z[0], S[j]) for j in range(2)]], 'kernel with training samples')


@R.add(variants=BOTH, wits=5)
def refused(env, reg):
    """Predicting before fitting, wrong buckets, methods and data; afterwards a proper fit works."""
    base = env.mod('base')
    tabs = tables(env, 1, [0, 1, 2])
    kb = bucket(env, tabs)
    nf = env.sk('sklearn.exceptions').NotFittedError
    what = env.pick('what', ['unfitted', 'strategy', 'none', 'set', 'list', 'method', 'len', 'nan', '1d', 'wide'])
    S, y = id_sample(env, [0, 1]), env.np.array([1.0, 0.0])
    kw = dict(k_bucket=kb, method='align/corr')
    if what == 'strategy':
        kw['k_bucket'] = env.pick('st', ['tiny', '', 'Light2'])
    elif what in ('none', 'set', 'list'):
        kw['k_bucket'] = {'none': None, 'set': base.KernelSet(), 'list': [kb[0]]}[what]
    elif what == 'method':
        kw['method'] = env.pick('me', ['xyz', '', 'cv'])
    m = machine(env, reg, **kw)
    if what == 'unfitted':
        out = env.call(m.predict, S)
        env.prove(out.raised(nf), 'refused', soft=out)
    elif what == 'wide':
        m.fit(S, y)
        out = env.call(m.predict, env.np.array([[1.0, 2.0, 3.0]]))
        env.prove(out.raised(ValueError), 'refused', soft=out)
    else:
        args = {'len': (S, env.np.array([1.0, 0.0, 1.0])), 'nan': (env.np.array([[1.0, env.nan], [0.0, 1.0]]), y),
                '1d': (S[0], env.np.array([1.0, 0.0]))}.get(what, (S, y))
        out = env.call(m.fit, *args)
        env.prove(out.raised(NotImplementedError if what == 'method' else ValueError), 'refused', soft=out)
        out = env.call(m.predict, S)
        env.prove(not out.ok, 'still not fitted', soft=out)
    m.set_params(k_bucket=kb, method='align/corr')
    run(env, m, reg, tabs, [0, 1], [[2]], [1.0, 0.0], 'afterwards')


@R.add(variants=BOTH, wits=3)
def normalised(env, reg):
    """A bucket of normalised kernels trains on normalised matrices."""
    ids = [1, 2]
    a = env.real('a', lo=1, hi=9)
    b = env.real('b', lo=1, hi=9)
    c = env.real('c', lo=1, hi=9)
    T = {(1, 1): a * a, (2, 2): b * b, (1, 2): -0.5 * a * b, (1, 3): 0.5 * a * c, (3, 1): 0.5 * a * c, (2, 1): -0.5 * a * b, (3, 2): 0.25 * b * c, (2, 3): 0.25 * b * c, (3, 3): c * c}
    base, sm = env.mod('base'), env.mod('sampling')
    kb = sm.make_kernel_bucket('linear_only', normalize_kernels=True)
    kb.append(base.KernelMatrix(table_kernel(env, base, T, name='t0'), normalized=True))
    m = machine(env, reg, k_bucket=kb, method='align/corr')
    S = id_sample(env, ids)
    out = env.call(m.fit, S, env.np.array([1.0, 0.0]))
    if not env.expect_ok(out, 'fit'):
        return
    fits = [e for e in env.svm_log if e['op'] == 'fit']
    name = str(m.opt_kernel_.kernel)
    lin = not name.startswith('t')
    O = Oracle(env, T, ids)
    te = env.pick('te', [[3], [3, 1], [3, 2, 3]])
    Z = id_sample(env, te)
    if lin:
        nrm = lambda u, v: u.dot(v) / (env.sqrt(u.dot(u)) * env.sqrt(v.dot(v)))
        W = [[nrm(S[i], S[j]) for j in range(2)] for i in range(2)]
        C = [[nrm(Z[i], S[j]) for j in range(2)] for i in range(len(te))]
    else:
        W, C = O.normed(), Oracle(env, T, te, ids).normed()
    env.expect_matrix(fits[0]['X'], W, 'normalised training matrix')
    env.svm_log.clear()
    out = env.call(m.predict, Z)
    if env.expect_ok(out, 'predict'):
        env.expect_matrix(predicted(env, env.svm_log), C, 'normalised cross matrix')


@R.add(variants=BOTH, wits=4)
def mixed_types(env, reg):
    """Training and new samples of different number types."""
    types = ['int64', 'int8', 'float64']
    dtr, dte = env.pick('dtr', types), env.pick('dte', types)
    kb = env.mod('sampling').make_kernel_bucket('linear_only', normalize_kernels=False)
    m = machine(env, reg, k_bucket=kb, method='align/corr')

    def data(nm, rows, dt):
        if dt[0] == 'i':
            v = [[env.int('%s%d' % (nm, i), 1 + 9 * i, 9 + 9 * i), 2 + i] for i in range(rows)]
        else:
            v = [[env.real('%s%d' % (nm, i), lo=0.25 + 3 * i, hi=3 + 3 * i), 1.5 - i * 0.25] for i in range(rows)]
        return [[e * env.const(1) for e in r] for r in v], env.typed(v, dt)
    X, XA = data('x', 2, dtr)
    Z, ZA = data('z', 2, dte)
    ys = [1.0, 3.0] if env.pick('ty', [0, 1]) else [1, 3]
    out = env.call(m.fit, XA, env.np.array(ys))
    if not env.expect_ok(out, 'fit'):
        return
    dot = lambda a, b: a[0] * b[0] + a[1] * b[1]
    expect_fit(env, [e for e in env.svm_log], [[dot(a, b) for b in X] for a in X], ys, reg, 'fit')
    env.svm_log.clear()
    out = env.call(m.predict, ZA)
    if env.expect_ok(out, 'predict'):
        env.expect_matrix(predicted(env, env.svm_log), [[dot(a, b) for b in X] for a in Z], 'matrix between new and training samples')


@R.add(variants=BOTH, wits=4)
def best_changes(env, reg):
    """Refitting on data for which another kernel is best: that one is trained on and predicted with."""
    y = [1.0, -1.0, 0.0] if reg else [1.0, 0.0, 0.0]
    yc = [1.0, -1.0, 0.0] if reg else [2.0, -1.0, -1.0]
    noise = [1.0, 1.0, -2.0] if reg else [0.0, 1.0, -1.0]
    A, B = [0, 1, 2], [3, 4, 5]
    s = env.real('s', lo=0.0, hi=0.25)
    tabs = []
    for good, bad in ((A, B), (B, A)):
        T = {}
        for i in range(3):
            for j in range(3):
                T[good[i], good[j]] = env.const(yc[i] * yc[j]) + s * (noise[i] * noise[j])
                T[bad[i], bad[j]] = env.const(noise[i] * noise[j]) + s * (yc[i] * yc[j])
        for i in range(7):
            for j in range(7):
                if (i, j) not in T:
                    T[i, j] = env.const(1 + abs(i - j)) + s * (len(tabs) + 1)
        tabs.append(T)
    m = machine(env, reg, k_bucket=bucket(env, tabs), method='align/corr')
    for t in range(2 if env.tier == 'quick' else 3):
        ids = env.pick('ids%d' % t, [A, B])
        X = id_sample(env, ids)
        env.svm_log.clear()
        out = env.call(m.fit, X, env.np.array(y))
        if not env.expect_ok(out, 'fit'):
            return
        best = tabs[0 if ids is A else 1]
        fits = [e for e in env.svm_log if e['op'] == 'fit']
        env.prove(len(fits) == 1, 'trained once')
        env.expect_matrix(fits[0]['X'], Oracle(env, best, ids).raw(), 'fit %d: trained on the best' % (t + 1))
        for te in ([6, ids[1]], [ids[2]]):
            env.svm_log.clear()
            out = env.call(m.predict, id_sample(env, te))
            if env.expect_ok(out, 'predict'):
                env.expect_matrix(predicted(env, env.svm_log), Oracle(env, best, te, ids).raw(), 'fit %d: kernel with the training samples' % (t + 1))


@R.add(variants=[dict(reg=True, kind=k) for k in ('two', 'two whole', 'whole', 'three', 'negative', 'integers')] +
                [dict(reg=False, kind=k) for k in ('floats', 'negative', 'far')], wits=2)
def target_kinds(env, reg, kind):
    """The task is that of the estimator, whatever the values of the targets."""
    s = env.real('s', lo=0.5, hi=2)
    kb, X = cv_bucket(env, s)
    ys = {'two': [0.5, 1.5, 0.5, 1.5, 0.5, 1.5], 'two whole': [0.0, 1.0, 0.0, 1.0, 1.0, 0.0], 'whole': [3.0, 1.0, 4.0, 1.0, 5.0, 9.0],
          'three': [1.0, 2.0, 3.0, 1.0, 2.0, 3.0] if reg else [1, 2, 3, 1, 2, 3], 'negative': [-1.0, -2.5, -1.0, -2.5, -3.0, -0.5] if reg else [-1, 1, -1, 1, 1, -1],
          'integers': [1, 2, 3, 4, 5, 6], 'floats': [0.0, 1.0, 0.0, 1.0, 1.0, 0.0], 'far': [-100, 700, 700, -100, 700, -100]}[kind]
    cv_run(env, machine(env, reg, k_bucket=kb), reg, kb, X, ys, s)
