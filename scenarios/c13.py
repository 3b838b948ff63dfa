"""C13: malformed inputs are refused."""
from symk.scen import Registry
from .lib import *
from .c11 import KERNELS, DEFAULTS, make, vec

R = Registry()
lookup = R.lookup


def shaped(env, v, form):
    if form == 'list':
        return list(v)
    if form == 'tuple':
        return tuple(v)
    a = env.np.array(v)
    return {'array': lambda: a, 'column': lambda: a.reshape(-1, 1), 'column3': lambda: a.reshape(-1, 1, 1)}[form]()


def usable(env, kern, k, tag='afterwards'):
    """The kernel still computes after a refusal."""
    x, y = vec(env, kern, 'ux', 1), vec(env, kern, 'uy', 1)
    out = env.call(k, env.np.array(x), env.np.array(y))
    if env.expect_ok(out, tag + ': succeeds'):
        env.expect_close(out.val, KERNELS[kern][1](env, x, y, DEFAULTS[kern]), tag + ': value')


@R.add(variants=[dict(kern=k) for k in KERNELS], wits=6)
def lengths(env, kern):
    """Vectors of different lengths are refused, whatever the lengths (a length of one included)."""
    k = make(env, kern, {})
    n, m = env.int('n', 1, 4), env.int('m', 1, 4)
    nn, mm = int(n), int(m)
    env.assume(nn != mm)
    x, y = vec(env, kern, 'x', nn), vec(env, kern, 'y', mm)
    fx, fy = env.pick('fx', ['array', 'list', 'column']), env.pick('fy', ['array', 'tuple', 'column'])
    out = env.call(k, shaped(env, x, fx), shaped(env, y, fy))
    env.prove(out.raised(ValueError), 'different lengths refused', soft=out)
    usable(env, kern, k)


@R.add(variants=[dict(kern=k) for k in KERNELS], wits=4)
def same_length(env, kern):
    """Vectors of the same length are accepted in every form, single features included."""
    k = make(env, kern, {})
    n = int(env.int('n', 1, 2))
    x, y = vec(env, kern, 'x', n), vec(env, kern, 'y', n)
    fx = env.pick('fx', ['array', 'list', 'tuple', 'column', 'column3'])
    fy = env.pick('fy', ['array', 'list', 'column'])
    out = env.call(k, shaped(env, x, fx), shaped(env, y, fy))
    if env.expect_ok(out, 'accepted'):
        env.prove(env.shape_of(out.val) == (), 'a single number')
        env.expect_close(out.val, KERNELS[kern][1](env, x, y, DEFAULTS[kern]), 'value')


@R.add(variants=[dict(kern=k) for k in KERNELS], wits=4)
def dims(env, kern):
    """Matrices and scalars are refused in either position."""
    k = make(env, kern, {})
    v = vec(env, kern, 'x', 4)
    what = env.pick('what', ['2x2', '1x2', '1x4', 'scalar', '1x2x1', '2x1x2', 'nested'])
    bad = {'2x2': lambda: env.np.array(v).reshape(2, 2), '1x2': lambda: env.np.array(v[:2]).reshape(1, 2),
           '1x4': lambda: env.np.array(v).reshape(1, 4),
           'scalar': lambda: v[0], '1x2x1': lambda: env.np.array(v[:2]).reshape(1, 2, 1),
           '2x1x2': lambda: env.np.array(v).reshape(2, 1, 2),
           'nested': lambda: [v[:2], v[2:]]}[what]()
    size = {'scalar': 1, '1x2': 2, '1x2x1': 2}.get(what, 4)
    good = env.np.array(vec(env, kern, 'y', size))
    pos = env.pick('pos', ['first', 'second', 'both'])
    a, b = {'first': (bad, good), 'second': (good, bad), 'both': (bad, bad)}[pos]
    out = env.call(k, a, b)
    env.prove(out.raised(ValueError), 'not one-dimensional: refused', soft=out)
    usable(env, kern, k)


@R.add(variants=[dict(kern=k) for k in KERNELS], wits=5)
def not_numbers(env, kern):
    """Text and objects that are no numbers are refused in either position."""
    k = make(env, kern, {})
    bad = env.pick('bad', [['a', 'b'], ['1.0', 'x'], [{}, {}], ['', '2']])
    good = env.np.array(vec(env, kern, 'y', 2))
    arr = env.pick('arr', [False, True])
    b = env.np.array(bad) if arr else bad
    out = env.call(k, b, good) if env.pick('pos', [0, 1]) == 0 else env.call(k, good, b)
    env.prove(out.raised(ValueError), 'refused', soft=out)
    usable(env, kern, k)


@R.add(variants=[dict(kern=k) for k in KERNELS], wits=3)
def numbers_as_text(env, kern):
    """Text that denotes numbers is used as those numbers."""
    k = make(env, kern, {})
    x = env.pick('x', [['1.5', '2'], ['0', '0.25'], ['3', '1e0']])
    y = vec(env, kern, 'y', 2)
    out = env.call(k, x, env.np.array(y))
    if env.expect_ok(out, 'accepted'):
        env.expect_close(out.val, KERNELS[kern][1](env, [env.const(float(v)) for v in x], y, DEFAULTS[kern]), 'value')


@R.add(variants=lambda t: [dict(n=n) for n in ((1, 2, 3) if t == 'quick' else (1, 2, 3, 4))], wits=5)
def chi2_negative(env, n):
    """Chi-squared: a negative feature anywhere is refused; zeros and positive ones are not."""
    nk, cfg = env.mod('numeric_kernels'), env.mod('config')
    skip = env.pick('skip', [False, True])
    k = nk.Chi2Kernel(skip_input_checks=skip)
    x = [env.real('x_%d' % i, lo=-3, hi=3) for i in range(n)]
    y = [env.real('y_%d' % i, lo=-3, hi=3) for i in range(n)]
    out = env.call(k, env.np.array(x), env.np.array(y))
    if env.is_true(env.any_([v < 0 for v in x + y])):
        env.prove(out.raised(cfg.Chi2NegativeValuesException), 'negative features refused', soft=out)
    else:
        env.expect_ok(out, 'non-negative features accepted')


@R.add(wits=5)
def chi2_negative_integers(env):
    """The same for integer features of narrow types."""
    nk, cfg = env.mod('numeric_kernels'), env.mod('config')
    dt = env.pick('dt', ['int8', 'int64'])
    a, b = env.int('a', -100, 100), env.int('b', -100, 100)
    out = env.call(nk.Chi2Kernel(), env.typed([1, a], dt), env.typed([b, 1], dt))
    if env.is_true(env.any_([a < 0, b < 0])):
        env.prove(out.raised(cfg.Chi2NegativeValuesException), 'negative features refused', soft=out)
    else:
        env.expect_ok(out, 'non-negative features accepted')


@R.add(wits=4)
def chi2_negative_among_missing(env):
    """A negative feature is refused also where other features are missing or infinite."""
    nk, cfg = env.mod('numeric_kernels'), env.mod('config')
    k = nk.Chi2Kernel(skip_input_checks=env.pick('skip', [False, True]))
    neg = env.real('neg', lo=-3, hi=-0.001)
    other = env.pick('other', [float('nan'), float('inf'), 0.0])
    pos = env.choice('pos', 3)
    v = [other] * 3
    v[pos] = neg
    w = [env.real('w_%d' % i, lo=0, hi=3) for i in range(3)]
    a, b = (v, w) if env.pick('first', [True, False]) else (w, v)
    out = env.call(k, env.np.array(a), env.np.array(b))
    env.prove(out.raised(cfg.Chi2NegativeValuesException), 'negative features refused', soft=out)


@R.add(wits=4)
def chi2_through_matrix(env):
    """A negative feature in any row surfaces when the matrix is computed."""
    base, nk = env.mod('base'), env.mod('numeric_kernels')
    km = base.KernelMatrix(nk.Chi2Kernel(), normalized=False)
    X = [[env.real('x_%d_%d' % (i, j), lo=-2, hi=2) for j in range(2)] for i in range(2)]
    km.attach_to(env.np.array(X))
    view = env.pick('view', ['full', 'all', 'sparse'])
    out = env.call(lambda: {'full': lambda: km.full, 'all': lambda: km[:, :], 'sparse': lambda: km.full_sparse}[view]())
    if env.is_true(env.any_([v < 0 for r in X for v in r])):
        env.prove(not out.ok, 'negative features refused', soft=out)
    else:
        env.expect_ok(out, 'accepted')


@R.add(wits=5)
def km_types(env):
    """Kernel matrices are made from kernel functions and a yes/no flag only."""
    base, nk = env.mod('base'), env.mod('numeric_kernels')
    good = nk.LinearKernel()
    k = env.pick('k', ['kernel', 'class', 'function', 'str', 'none', 'int', 'km'])
    n = env.pick('n', [True, False, 1, 0, 'True', None, 1.0])
    kern = {'kernel': good, 'class': nk.LinearKernel, 'function': lambda x, y: 0.0, 'str': 'linear', 'none': None,
            'int': 3, 'km': base.KernelMatrix(good)}[k]
    out = env.call(base.KernelMatrix, kern, normalized=n)
    if k == 'kernel' and isinstance(n, bool):
        if env.expect_ok(out, 'accepted'):
            env.prove(out.val.num_samples is None, 'not attached')
    else:
        env.prove(out.raised(TypeError), 'refused', soft=out)


@R.add(wits=6)
def samples(env):
    """Samples must be two-dimensional, and of the same number of features; other ones are refused, changing nothing."""
    base = env.mod('base')
    T = sym_table(env, range(5))
    km = base.KernelMatrix(table_kernel(env, base, T), normalized=False)
    O = None
    if env.pick('before', [False, True]):
        km.attach_to(id_sample(env, [3, 4]))
        O = Oracle(env, T, [3, 4])
        if env.pick('read', [False, True]):
            OP['full'](env, km, O, False, 'before')
    S = id_sample(env, [0, 1, 2])
    what = env.pick('what', ['1d', '3d', '0d', 'list', 'none', 'cols', '1d two', '3d two', 'list two', 'swapped cols'])
    W = id_sample(env, [0, 1], ncol=3)
    bad = {'1d': (S[0], None), '3d': (S.reshape(3, 1, 2), None), '0d': (env.np.array(1.0), None),
           'list': ([[0.0, 1.0], [1.0, 1.0]], None), 'none': (None, None), 'cols': (S, W), '1d two': (S, S[0]),
           '3d two': (S, S.reshape(1, 3, 2)), 'list two': (S, [[0.0, 1.0]]), 'swapped cols': (W, S)}[what]
    out = env.call(km.attach_to, bad[0], sample_two=bad[1])
    env.prove(not out.ok, 'refused', soft=out)
    if O is None:
        out = env.call(lambda: km.full)
        env.prove(out.raised(ValueError), 'still not attached', soft=out)
        env.prove(km.num_samples is None, 'still no samples')
    else:
        for v in ('full', 'elem', 'diag', 'frob', 'centered'):
            OP[v](env, km, O, False, 'afterwards')
    # trailing dimensions of size one are fine
    km.attach_to(S.reshape(3, 2, 1))
    OP['full'](env, km, Oracle(env, T, [0, 1, 2]), False, 'next')


@R.add(wits=3)
def not_attached(env):
    """Nothing is served before a sample is attached."""
    base = env.mod('base')
    km = base.KernelMatrix(env.mod('numeric_kernels').LinearKernel(), normalized=env.pick('norm', [False, True]))
    view = env.pick('view', ['full', 'sparse', 'elem', 'diag', 'normed', 'centered', 'frob', 'all'])
    out = env.call({'full': lambda: km.full, 'sparse': lambda: km.full_sparse, 'elem': lambda: km[0, 0],
                    'diag': km.diagonal, 'normed': lambda: km.normed_km, 'centered': lambda: km.centered,
                    'frob': lambda: km.frob_norm, 'all': lambda: km[:, :]}[view])
    env.prove(not out.ok, 'refused', soft=out)
    km.attach_to(env.np.array([[1.0, 2.0], [env.real('a', lo=1, hi=2), 1.0]]))
    env.expect_ok(env.call(lambda: km.full), 'works once attached')


@R.add(wits=4)
def set_samples(env):
    """Sets refuse samples that are not two-dimensional or not numbers, changing no member."""
    base = env.mod('base')
    T = sym_table(env, range(5))
    kms = [base.KernelMatrix(table_kernel(env, base, T, name='t%d' % i), normalized=False) for i in range(2)]
    ks = base.KernelSet(kms)
    ks.attach_to(id_sample(env, [3, 4]))
    S = id_sample(env, [0, 1])
    what = env.pick('what', ['1d', '3d', 'text', 'more', 'fewer'])
    bad = {'1d': lambda: S[0], '3d': lambda: S.reshape(2, 1, 2), 'text': lambda: env.np.array([['a', 'b'], ['c', 'd']]),
           'more': lambda: id_sample(env, [0, 1, 2]), 'fewer': lambda: id_sample(env, [0])}[what]()
    out = env.call(ks.attach_to, bad)
    env.prove(out.raised(ValueError), 'refused', soft=out)
    for m in kms:
        OP['full'](env, m, Oracle(env, T, [3, 4]), False, 'member')
    env.prove(ks.num_samples == 2, 'number of samples')


@R.add(variants=lambda t: [dict(n=n) for n in sizes(t, quick_limit=110)], wits=1)
def length_sweep(env, n):
    """One feature more or fewer is noticed at any length."""
    nk = env.mod('numeric_kernels')
    s = env.real('s', lo=1, hi=2)
    kern = env.pick('kern', ['linear', 'laplacian', 'chi2'])
    k = make(env, kern, {})
    x = env.np.array([s] * n)
    for m in (n - 1, n + 1):
        if m > 0:
            out = env.call(k, x, env.np.array([s] * m))
            env.prove(out.raised(ValueError), 'refused', soft=out)
            out = env.call(k, env.np.array([s] * m), x)
            env.prove(out.raised(ValueError), 'refused', soft=out)
