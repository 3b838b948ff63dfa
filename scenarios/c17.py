"""C17: kernel machines."""
from symk.scen import Registry
from .lib import *
from .c11 import f_gaussian

R = Registry()
lookup = R.lookup

CLS = {False: 'KernelMachine', True: 'KernelMachineRegressor'}


def machine(env, reg, k=None, **kw):
    return getattr(env.mod('algorithms'), CLS[reg])(k, **kw)


def table(env, ids, name='K'):
    return sym_table(env, ids, name=name)


def kern(env, T, name='tab'):
    return table_kernel(env, env.mod('base'), T, name=name)


def labels(env, n, reg, name='y', kind='int'):
    """Symbolic labels, at least two classes."""
    if reg:
        return [env.real('%s_%d' % (name, i), lo=-4, hi=4) for i in range(n)]
    if kind == 'text':
        return [['no', 'yes', 'maybe'][env.choice('%s_%d' % (name, i), 2)] if i > 1 else ['no', 'yes'][i] for i in range(n)]
    ys = [env.int('%s_%d' % (name, i), 0, 1) for i in range(n)]
    env.assume(ys[0] != ys[1])
    return ys


def yarr(env, ys, reg, kind='int'):
    if kind == 'list':
        return list(ys)
    return env.np.array(ys)


def mat(env, O, norm):
    return O.normed() if norm else O.raw()


def expect_fit(env, log, M, ys, reg, tag, w=None):
    fits = [e for e in log if e['op'] == 'fit']
    env.prove(len(fits) == 1, tag + ': trained once')
    if len(fits) != 1:
        return
    e = fits[0]
    env.prove(e['kernel'] == 'precomputed', tag + ': on a precomputed kernel')
    env.prove(e['who'] == ('SVR' if reg else 'SVC'), tag + ': kind of machine')
    env.expect_matrix(e['X'], M, tag + ': training matrix')
    env.prove(tuple(env.shape_of(e['y'])) == (len(ys),), tag + ': number of labels')
    for i, y in enumerate(ys):
        if isinstance(y, str):
            env.prove(e['y'][i] == y, tag + ': label %d' % i)
        else:
            env.expect_close(e['y'][i], y * env.const(1), tag + ': label %d' % i)
    if w is None:
        env.prove(e['w'] is None, tag + ': no weights')
    else:
        env.expect_vector(e['w'], w, tag + ': weights')


def oracle(env, reg, M, ys, w=None):
    svm = env.sk('sklearn.svm')
    m = svm.SVR(kernel='precomputed', C=10) if reg else svm.SVC(kernel='precomputed', C=10)
    A = env.np.array([[v * env.const(1) for v in r] for r in M])
    n = len(env.svm_log)
    m.fit(A, env.np.array(ys), sample_weight=w)
    del env.svm_log[n:]
    return m


def oracle_predict(env, m, M):
    n = len(env.svm_log)
    p = m.predict(env.np.array(M))
    del env.svm_log[n:]
    return p


def predicted(env, log):
    """The matrix the machine predicted from; it may do so in several parts."""
    Xs = [e['X'] for e in log if e['op'] == 'predict']
    return None if not Xs else Xs[0] if len(Xs) == 1 else env.np.vstack(Xs)


def expect_predict(env, out, log, M, want, reg, tag):
    if not env.expect_ok(out, tag + ' succeeds'):
        return
    P = predicted(env, log)
    env.prove(P is not None, tag + ': predicted by the machine')
    if P is not None:
        env.expect_matrix(P, M, tag + ': matrix between new and training samples')
    env.prove(tuple(env.shape_of(out.val)) == (len(M),), tag + ': one prediction per sample')
    for i in range(len(M)):
        if isinstance(want[i], str):
            env.prove(out.val[i] == want[i], tag + ': prediction %d' % i)
        else:
            env.expect_close(out.val[i], want[i], tag + ': prediction %d' % i)


def fit_predict(env, m, reg, T, norm, tr, te, tag, kind='int', ys=None, w=None):
    """Fit on samples tr, predict on each of te, check all."""
    ys = labels(env, len(tr), reg, tag, kind) if ys is None else ys
    env.svm_log.clear()
    X, Y = id_sample(env, tr), yarr(env, ys, reg)
    out = env.call(m.fit, X, Y, **({} if w is None else dict(sample_weight=env.np.array(w))))
    if not env.expect_ok(out, tag + ': fit succeeds'):
        return
    env.prove(out.val is m, tag + ': fit returns the machine itself')
    M = mat(env, Oracle(env, T, tr), norm)
    expect_fit(env, env.svm_log, M, ys, reg, tag, w)
    env.expect_matrix(X, [[id_sample(env, tr)[i, j] for j in range(2)] for i in range(len(tr))], tag + ': sample unmodified')
    orc = oracle(env, reg, M, ys, None if w is None else env.np.array(w))
    for t, ids in enumerate(te):
        env.svm_log.clear()
        Z = id_sample(env, ids)
        out = env.call(m.predict, Z)
        C = mat(env, Oracle(env, T, ids, tr), norm)
        want = oracle_predict(env, orc, C)
        expect_predict(env, out, list(env.svm_log), C, want, reg, '%s: predict %d' % (tag, t + 1))
    if not reg:
        cl = env.call(getattr, m, 'classes_')
        if env.expect_ok(cl, tag + ': classes are recorded'):
            env.prove(len(cl.val) == len(orc.classes_), tag + ': classes')
            for a, b in zip(cl.val, orc.classes_):
                env.prove(a == b, tag + ': classes')
    return ys


TE = [[3], [0, 3], [4, 3, 4], [0, 1, 2], [2, 1, 0], [5, 0]]


@R.add(variants=[dict(reg=r, norm=n) for r in (False, True) for n in (False, True)], wits=3)
def once(env, reg, norm):
    """Fit and predict, once."""
    tr = [0, 1, 2]
    te = env.pick('te', TE)
    T = table(env, tr + te)
    m = machine(env, reg, kern(env, T), normalized=norm)
    fit_predict(env, m, reg, T, norm, tr, [te], 'y')


@R.add(variants=[dict(reg=r, norm=n) for r in (False, True) for n in (False, True)], wits=4)
def again(env, reg, norm):
    """Fitting and predicting repeatedly, on samples of the same and of other sizes."""
    T = table(env, range(5))
    m = machine(env, reg, kern(env, T), normalized=norm)
    pool = [[0, 1], [2, 3], [3, 1, 0], [4, 0]]
    for t in range(2):
        tr = env.pick('tr%d' % t, pool if reg else pool[1 - t::2])
        te = env.pick('te%d' % t, [[4], [1, 2], [0, 1]] if reg else [[4], [1, 2]])
        fit_predict(env, m, reg, T, norm, tr, [te, [2]] if reg else [te], 'y%d' % t,
                    ys=None if reg else ([0, 1, 1] if t == 0 else [5, 7, 5])[:len(tr)])


@R.add(variants=[dict(reg=r) for r in (False, True)], wits=3)
def weights(env, reg):
    """Sample weights are passed on."""
    tr = [0, 1, 2]
    T = table(env, tr + [3])
    m = machine(env, reg, kern(env, T))
    w = [env.real('w_%d' % i, lo=0.5, hi=2) for i in range(3)]
    fit_predict(env, m, reg, T, False, tr, [[3]], 'y', ys=None if reg else [0, 1, 1], w=w)


@R.add(wits=3)
def text_labels(env):
    """Classes may be text."""
    tr = [0, 1, 2]
    T = table(env, tr + [3, 4])
    m = machine(env, False, kern(env, T))
    fit_predict(env, m, False, T, False, tr, [[3, 4], [0]], 'y', kind='text')


@R.add(wits=3)
def integer_targets(env):
    """A regressor trained on integers predicts real numbers."""
    tr = [0, 1, 2]
    te = env.pick('te', [[3], [3, 0], [2]])
    T = {(a, b): env.real('K_%d_%d' % (a, b), lo=1 if a == b else 0.1, hi=2 if a == b else 0.3)
         for a in range(4) for b in range(a, 4)}
    m = machine(env, True, kern(env, T))
    ys = env.pick('y', [[0, 1, 3], [-2, 5, 1], [3, 2, 0]])
    fit_predict(env, m, True, T, False, tr, [te], 'y', ys=ys)


@R.add(variants=[dict(reg=r) for r in (False, True)], wits=3)
def labels_as_list(env, reg):
    """Labels and samples as lists."""
    T = table(env, range(4))
    m = machine(env, reg, kern(env, T))
    tr = [0, 1, 2]
    ys = [env.real('y_%d' % i, lo=-4, hi=4) for i in range(3)] if reg else [1, 3, 3]
    S = id_sample(env, tr)
    rows = [[float(S[i, j]) for j in range(2)] for i in range(3)]
    out = env.call(m.fit, rows, ys)
    if env.expect_ok(out, 'fit'):
        M = Oracle(env, T, tr).raw()
        expect_fit(env, list(env.svm_log), M, ys, reg, 'fit')
        orc = oracle(env, reg, M, ys)
        env.svm_log.clear()
        Z = id_sample(env, [3])
        out = env.call(m.predict, [[float(Z[0, 0]), float(Z[0, 1])]])
        C = Oracle(env, T, [3], tr).raw()
        want = oracle_predict(env, orc, C)
        expect_predict(env, out, list(env.svm_log), C, want, reg, 'predict')


@R.add(variants=[dict(reg=r) for r in (False, True)], wits=4)
def two_machines(env, reg):
    """Machines do not share anything."""
    T1, T2 = table(env, range(4), 'A'), table(env, range(4), 'B')
    a, b = machine(env, reg, kern(env, T1)), machine(env, reg, kern(env, T2, 'other'))
    Xa, Xb = [0, 1], [1, 2, 3]
    ya = [1, 2] if not reg else [env.real('u_%d' % i, lo=-1, hi=1) for i in range(2)]
    yb = [2, 1, 1] if not reg else [env.real('v_%d' % i, lo=-1, hi=1) for i in range(3)]
    a.fit(id_sample(env, Xa), env.np.array(ya))
    b.fit(id_sample(env, Xb), env.np.array(yb))
    oa, ob = oracle(env, reg, Oracle(env, T1, Xa).raw(), ya), oracle(env, reg, Oracle(env, T2, Xb).raw(), yb)
    for t in range(2):
        env.svm_log.clear()
        te = env.pick('te%d' % t, [[3], [0, 2]])
        if env.pick('w%d' % t, [0, 1]):
            out = env.call(b.predict, id_sample(env, te))
            C = Oracle(env, T2, te, Xb).raw()
            expect_predict(env, out, list(env.svm_log), C, oracle_predict(env, ob, C), reg, 'second')
        else:
            out = env.call(a.predict, id_sample(env, te))
            C = Oracle(env, T1, te, Xa).raw()
            expect_predict(env, out, list(env.svm_log), C, oracle_predict(env, oa, C), reg, 'first')


@R.add(variants=[dict(reg=r) for r in (False, True)], wits=4)
def refused(env, reg):
    """Predicting before fitting, and malformed data, are refused; afterwards the machine works."""
    T = table(env, range(5))
    m = machine(env, reg, kern(env, T))
    nf = env.sk('sklearn.exceptions').NotFittedError
    what = env.pick('what', ['unfitted', 'len', '1d', 'nan', 'inf', 'none', 'predict cols', 'predict 1d', 'predict nan'])
    S = id_sample(env, [0, 1, 2])
    y = env.np.array([0.0, 1.0, 1.0])
    early = not what.startswith('predict')
    if not early:
        m.fit(S, y)
    X = env.np.array([[0.0, env.nan], [1.0, 1.0], [2.0, 1.0]])
    XI = env.np.array([[0.0, env.inf], [1.0, 1.0], [2.0, 1.0]])
    if what == 'unfitted':
        out = env.call(m.predict, S)
        env.prove(out.raised(nf), 'refused', soft=out)
    else:
        out = {'len': lambda: env.call(m.fit, S, env.np.array([0.0, 1.0])),
               '1d': lambda: env.call(m.fit, S[0], y), 'nan': lambda: env.call(m.fit, X, y),
               'inf': lambda: env.call(m.fit, XI, y),
               'none': lambda: env.call(m.fit, S, None),
               'predict cols': lambda: env.call(m.predict, id_sample(env, [3], ncol=3)),
               'predict 1d': lambda: env.call(m.predict, S[0]),
               'predict nan': lambda: env.call(m.predict, X)}[what]()
        env.prove(out.raised(ValueError), 'refused', soft=out)
        if early:
            out = env.call(m.predict, S)
            env.prove(not out.ok, 'still not fitted', soft=out)
    tr = [0, 1, 2]
    ys = [0.0, 1.0, 1.0]
    if early:
        fit_predict(env, m, reg, T, False, tr, [[3]], 'z', ys=ys)
    else:
        orc = oracle(env, reg, Oracle(env, T, tr).raw(), ys)
        env.svm_log.clear()
        out = env.call(m.predict, id_sample(env, [3, 4]))
        C = Oracle(env, T, [3, 4], tr).raw()
        expect_predict(env, out, list(env.svm_log), C, oracle_predict(env, orc, C), reg, 'afterwards')


@R.add(variants=[dict(reg=r) for r in (False, True)], wits=3)
def defaults(env, reg):
    """By default: a Gaussian kernel of bandwidth 2, not normalised."""
    m = machine(env, reg)
    X = [[env.real('x_%d_%d' % (i, j), lo=-2, hi=2) for j in range(2)] for i in range(2)]
    Z = [[env.real('z_%d' % j, lo=-2, hi=2) for j in range(2)]]
    ys = [1, 2] if not reg else [env.real('y_%d' % i, lo=-1, hi=1) for i in range(2)]
    out = env.call(m.fit, env.np.array(X), env.np.array(ys))
    if not env.expect_ok(out, 'fit'):
        return
    g = lambda a, b: f_gaussian(env, a, b, dict(sigma=2.0))
    M = [[g(a, b) for b in X] for a in X]
    expect_fit(env, list(env.svm_log), M, ys, reg, 'fit')
    env.svm_log.clear()
    out = env.call(m.predict, env.np.array(Z))
    if env.expect_ok(out, 'predict'):
        env.expect_matrix(predicted(env, env.svm_log), [[g(a, b) for b in X] for a in Z], 'matrix')


@R.add(variants=[dict(reg=r) for r in (False, True)], wits=3)
def unknown_learner(env, reg):
    """Only learners on offer."""
    T = table(env, range(3))
    l = env.pick('l', ['tree', '', 'svm1'])
    m = machine(env, reg, kern(env, T), learner_id=l)
    out = env.call(m.fit, id_sample(env, [0, 1]), env.np.array([0.0, 1.0]))
    env.prove(out.raised(NotImplementedError), 'refused', soft=out)


@R.add(variants=lambda t: [dict(reg=r, n=n) for r in (False, True) for n in sizes(t, quick_limit=34, thorough_limit=70, new_limit=130)], wits=1)
def size_sweep(env, reg, n):
    """Any number of training and new samples."""
    n = max(n, 2)
    tr = list(range(n))
    te = [n - 1, 0, n // 2]
    T = scaled_table(env, tr)
    m = machine(env, reg, kern(env, T))
    ys = [i % 2 for i in range(n)] if not reg else [float(i % 5) for i in range(n)]
    env.svm_log.clear()
    out = env.call(m.fit, id_sample(env, tr), env.np.array(ys))
    if env.expect_ok(out, 'fit'):
        expect_fit(env, list(env.svm_log), Oracle(env, T, tr).raw(), ys, reg, 'fit')
        for te in ([n - 1, 0], tr[::-1])[:1 + reg]:
            env.svm_log.clear()
            out = env.call(m.predict, id_sample(env, te))
            if env.expect_ok(out, 'predict'):
                env.expect_matrix(predicted(env, env.svm_log), Oracle(env, T, te, tr).raw(), 'matrix')
                env.prove(len(out.val) == len(te), 'one per sample')


@R.add(variants=[dict(reg=r, norm=n) for r in (False, True) for n in (False, True)], wits=4)
def mixed_types(env, reg, norm):
    """Training and new samples of different number types; labels of various types."""
    nk = env.mod('numeric_kernels')
    m = machine(env, reg, nk.LinearKernel(), normalized=norm)
    types = ['int64', 'int8', 'float64', 'float32']
    dtr, dte = env.pick('dtr', types), env.pick('dte', types)

    def data(nm, rows, dt):
        if dt[0] == 'i':
            v = [[env.int('%s%d' % (nm, i), 1, 9), 2 + i] for i in range(rows)]
        else:
            v = [[env.real('%s%d' % (nm, i), lo=0.25, hi=3) if dt == 'float64' else 0.75 + 0.5 * i, 1.5 - i * 0.25]
                 for i in range(rows)]
        return [[e * env.const(1) for e in r] for r in v], env.typed(v, dt)
    X, XA = data('x', 2, dtr)
    Z, ZA = data('z', 2, dte)
    ty = env.pick('ty', ['float64', 'int64'] if reg else ['int64', 'float64', 'int8'])
    ys = [1.0, 3.0] if ty == 'float64' else [1, 3]
    out = env.call(m.fit, XA, env.np.array(ys, dtype=ty))
    if not env.expect_ok(out, 'fit'):
        return
    dot = lambda a, b: a[0] * b[0] + a[1] * b[1]
    if norm:
        nd = lambda a, b: dot(a, b) / (env.sqrt(dot(a, a)) * env.sqrt(dot(b, b)))
    else:
        nd = dot
    M = [[nd(a, b) for b in X] for a in X]
    expect_fit(env, list(env.svm_log), M, ys, reg, 'fit')
    env.svm_log.clear()
    out = env.call(m.predict, ZA)
    if env.expect_ok(out, 'predict'):
        env.expect_matrix(predicted(env, env.svm_log), [[nd(a, b) for b in X] for a in Z], 'matrix between new and training samples')


@R.add(variants=[dict(reg=r, norm=n) for r in (False, True) for n in (False, True)], wits=3)
def predictions(env, reg, norm):
    """Any succession of predictions after one training: few and many new samples, the same again."""
    T = table(env, range(5))
    m = machine(env, reg, kern(env, T), normalized=norm)
    pool = [[3, 4, 0, 1], [4], [1, 0], [3, 3, 3], [0, 1]]
    te = [pool[env.choice('te%d' % t, len(pool))] for t in range(3 if env.tier == 'thorough' else 2)]
    fit_predict(env, m, reg, T, norm, [0, 1], te + [[2, 0]], 'y', ys=[1.0, 3.5] if reg else [1, 0])


@R.add(variants=[dict(norm=n) for n in (False, True)], wits=3)
def one_sample(env, norm):
    """A regressor trained on one sample."""
    T = table(env, range(3))
    m = machine(env, True, kern(env, T), normalized=norm)
    fit_predict(env, m, True, T, norm, [0], [[1, 2], [0]], 'y', ys=[2.5])
    fit_predict(env, m, True, T, norm, [1, 2], [[0]], 'z', ys=[2.5, 1.0])
