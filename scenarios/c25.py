"""C25: parameters of the estimators, cloning, refitting."""
from symk.scen import Registry
from .lib import *
from .c16 import bucket
from .c17 import expect_fit

R = Registry()
lookup = R.lookup

PARAMS = {'KernelMachine': ['k_func', 'learner_id', 'normalized'],
          'KernelMachineRegressor': ['k_func', 'learner_id', 'normalized'],
          'OptimalKernelSVC': ['k_bucket', 'method', 'C', 'shrinking', 'tol'],
          'OptimalKernelSVR': ['k_bucket', 'method', 'C', 'epsilon', 'shrinking', 'tol']}
DEFAULT = {'learner_id': None, 'normalized': False, 'k_bucket': 'exhaustive', 'method': 'cv_risk', 'C': 1.0,
           'epsilon': 0.1, 'shrinking': True, 'tol': 1e-3}
ALL = [dict(cls=c) for c in PARAMS]


def default(cls, p):
    if p == 'learner_id':
        return 'SVR' if cls.endswith('Regressor') else 'SVC'
    return DEFAULT[p]


def vals(env, p, tag=''):
    """A value for a parameter: symbolic where it is a number."""
    base = env.mod('base')
    if p == 'k_func':
        T = sym_table(env, range(3), name='K' + tag)
        return table_kernel(env, base, T, name='kern' + tag)
    if p == 'k_bucket':
        return env.pick('kb' + tag, ['light', 'linear_only', 'nosuch']) if env.pick('kbk' + tag, [0, 1]) else bucket(env, [])
    if p == 'method':
        return env.pick('m' + tag, ['align/corr', 'cv_risk', 'bogus'])
    if p == 'learner_id':
        return env.pick('l' + tag, ['SVC', 'SVR', 'other'])
    if p in ('normalized', 'shrinking'):
        return env.pick(p + tag, [True, False])
    return env.real(p + tag, lo=1e-4, hi=50)


def same(env, a, b):
    if isinstance(b, (bool, str)) or b is None:
        return type(a) is type(b) and a == b
    if isinstance(b, (int, float)) or env.is_number(b):
        return a == b
    return a is b


def expect_params(env, m, want, tag):
    for deep in (True, False):
        out = env.call(m.get_params, deep=deep)
        if not env.expect_ok(out, tag + ': get_params'):
            return
        env.prove(sorted(out.val) == sorted(want), tag + ': names')
        for p, v in want.items():
            if p in out.val:
                env.prove(same(env, out.val[p], v), '%s: %s' % (tag, p))
    for p, v in want.items():
        env.prove(same(env, getattr(m, p), v), '%s: attribute %s' % (tag, p))


def build(env, cls, given):
    return getattr(env.mod('algorithms'), cls)(**given)


@R.add(variants=ALL, wits=2)
def defaults(env, cls):
    """Default parameters."""
    m = build(env, cls, {})
    want = {p: default(cls, p) for p in PARAMS[cls] if p != 'k_func'}
    if 'k_func' in PARAMS[cls]:
        G = env.mod('numeric_kernels').GaussianKernel
        env.prove(isinstance(m.k_func, G), 'Gaussian kernel')
        env.expect_close(m.k_func.sigma, env.const(2), 'its width')
        want['k_func'] = m.k_func
    expect_params(env, m, want, 'made')


@R.add(variants=ALL, wits=4)
def made(env, cls):
    """Any subset of the parameters given."""
    given = {}
    for p in PARAMS[cls]:
        if env.pick('give_' + p, [True, False]):
            given[p] = vals(env, p)
    m = build(env, cls, given)
    want = {p: given.get(p, default(cls, p) if p != 'k_func' else m.k_func) for p in PARAMS[cls]}
    expect_params(env, m, want, 'made')


@R.add(variants=ALL, wits=4)
def positional(env, cls):
    """Parameters in their documented order."""
    order = {'OptimalKernelSVR': ['k_bucket', 'method', 'C', 'epsilon', 'shrinking', 'tol'],
             'OptimalKernelSVC': ['k_bucket', 'method', 'C', 'shrinking', 'tol']}.get(cls, PARAMS[cls])
    vs = [vals(env, p) for p in order]
    m = getattr(env.mod('algorithms'), cls)(*vs)
    expect_params(env, m, dict(zip(order, vs)), 'made')


@R.add(variants=ALL, wits=4)
def setting(env, cls):
    """Setting parameters one after the other, or together."""
    first = {p: vals(env, p, '0') for p in PARAMS[cls] if p not in ('k_bucket', 'method', 'learner_id')}
    m = build(env, cls, first)
    want = {p: first.get(p, default(cls, p) if p != 'k_func' else None) for p in PARAMS[cls]}
    for t in (1, 2):
        which = env.pick('which%d' % t, PARAMS[cls] + ['all', 'none'])
        if which == 'none':
            new = {}
        elif which == 'all':
            new = {p: vals(env, p, str(t)) for p in PARAMS[cls] if t == 1 or p not in ('k_bucket', 'method', 'learner_id')}
        else:
            new = {which: vals(env, which, str(t))}
        out = env.call(m.set_params, **new)
        if env.expect_ok(out, 'set'):
            env.prove(out.val is m, 'returns the estimator itself')
        want.update(new)
        expect_params(env, m, want, 'after %d' % t)


@R.add(variants=ALL, wits=4)
def cloning(env, cls):
    """A clone has equal parameters; what happens to one does not show on the other."""
    clone = env.sk('sklearn.base').clone
    given = {p: vals(env, p) for p in PARAMS[cls]}
    m = build(env, cls, given)
    out = env.call(clone, m)
    if not env.expect_ok(out, 'cloned'):
        return
    c = out.val
    env.prove(type(c) is type(m) and c is not m, 'of the same class')
    got = c.get_params()
    env.prove(sorted(got) == sorted(given), 'names')
    for p, v in given.items():
        if p == 'k_bucket' and not isinstance(v, str):
            env.prove(len(got[p]) == len(v) and type(got[p]) is type(v), 'bucket alike')
            env.prove(got[p] is not v, 'bucket not shared')
        elif p == 'k_func':
            env.prove(str(got[p]) == str(v), 'kernel alike')
        else:
            env.prove(same(env, got[p], v), p)
    q = env.pick('q', PARAMS[cls])
    new = vals(env, q, 'n')
    c.set_params(**{q: new})
    expect_params(env, m, given, 'original')


@R.add(variants=[dict(cls=c) for c in ('KernelMachine', 'KernelMachineRegressor')], wits=4)
def machines_alike(env, cls):
    """The same parameters by any route, the same training matrix; parameters survive fitting and predicting."""
    base = env.mod('base')
    clone = env.sk('sklearn.base').clone
    T = sym_table(env, range(3), name='K')
    k = table_kernel(env, base, T)
    norm = env.pick('norm', [False, True])
    reg = cls.endswith('Regressor')
    how = env.pick('how', ['made', 'set', 'cloned', 'refitted'])
    given = dict(k_func=k, normalized=norm)
    if how in ('made', 'cloned'):
        m = build(env, cls, given)
        if how == 'cloned':
            m = clone(m)
    else:
        other = table_kernel(env, base, sym_table(env, range(3), name='L'))
        m = build(env, cls, dict(k_func=other, normalized=not norm))
        if how == 'refitted':
            m.fit(id_sample(env, [1, 2]), env.np.array([1.0, 0.0]))
        m.set_params(**given)
    env.svm_log.clear()
    ys = [0.5, 2.5] if reg else [3, 1]
    out = env.call(m.fit, id_sample(env, [0, 1]), env.np.array(ys))
    if env.expect_ok(out, 'fit'):
        env.prove(out.val is m, 'returns itself')
        O = Oracle(env, T, [0, 1])
        expect_fit(env, list(env.svm_log), O.normed() if norm else O.raw(), ys, reg, 'fit')
    want = dict(given, learner_id='SVR' if reg else 'SVC')
    expect_params(env, m, want, 'after fitting')
    m.predict(id_sample(env, [2]))
    expect_params(env, m, want, 'after predicting')


@R.add(variants=[dict(cls=c) for c in ('OptimalKernelSVC', 'OptimalKernelSVR')], wits=4)
def optimal_alike(env, cls):
    """The same for the optimal-kernel estimators; the parameters reach the learner."""
    clone = env.sk('sklearn.base').clone
    T = sym_table(env, range(3), name='K')
    d = T[0, 0] + T[1, 1] - 2 * T[0, 1]
    env.assume(d >= 0.5)
    reg = cls.endswith('SVR')
    kb = bucket(env, [T])
    C = env.pick('C', [0.5, 4.0])
    given = dict(k_bucket=kb, method='align/corr', C=C)
    how = env.pick('how', ['made', 'set', 'cloned', 'refitted'])
    if how in ('made', 'cloned'):
        m = build(env, cls, given)
        if how == 'cloned':
            m = clone(m)
    else:
        m = build(env, cls, dict(k_bucket=bucket(env, []), method='align/corr', C=9.0))
        if how == 'refitted':
            m.fit(id_sample(env, [1, 2]), env.np.array([1.0, 0.0]))
        m.set_params(**given)
    env.svm_log.clear()
    ys = [0.5, 2.5] if reg else [3, 1]
    out = env.call(m.fit, id_sample(env, [0, 1]), env.np.array(ys))
    if env.expect_ok(out, 'fit'):
        env.prove(out.val is m, 'returns itself')
        f = [e for e in env.svm_log if e['op'] == 'fit']
        env.prove(len(f) == 1, 'trained once')
        env.expect_close(f[0]['C'], env.const(C), 'penalty')
    want = {p: default(cls, p) for p in PARAMS[cls]}
    want.update(given)
    if how == 'cloned':
        want['k_bucket'] = m.k_bucket
    expect_params(env, m, want, 'after fitting')
    m.predict(id_sample(env, [2]))
    expect_params(env, m, want, 'after predicting')
    env.prove(kb.num_samples is None and len(kb) == 2, 'the bucket given is untouched')


@R.add(wits=2)
def kinds(env):
    """Classifiers and regressors are recognised as what they are."""
    b = env.sk('sklearn.base')
    cls = env.pick('cls', list(PARAMS))
    m = build(env, cls, {})
    reg = cls in ('KernelMachineRegressor', 'OptimalKernelSVR')
    env.prove(b.is_regressor(m) == reg and b.is_classifier(m) == (not reg), 'kind')


@R.add(variants=[dict(cls=c) for c in ('KernelMachine', 'KernelMachineRegressor')], wits=2)
def separate_defaults(env, cls):
    """Changing the default kernel of one machine changes no other one."""
    a = build(env, cls, {})
    early = env.pick('early', [True, False])
    b = build(env, cls, {}) if early else None
    v = env.real('v', lo=0.5, hi=9)
    if env.pick('which', [True, False]):
        a.k_func.gamma = v
    else:
        a.get_params()['k_func'].gamma = v
    b = build(env, cls, {}) if b is None else b
    k = b.k_func
    x, y = env.real('x', lo=-2, hi=2), env.real('y', lo=-2, hi=2)
    env.expect_close(k(env.np.array([x]), env.np.array([y])), env.exp(-((x - y) * (x - y) / 8)), 'the default kernel')


ODD = [None, 0, 1, -1, -2.5, '', 'Other', 1e9, 1e-12, 2, True, False, (), 'Light', 10 ** 30]


@R.add(variants=ALL, wits=4)
def odd_values(env, cls):
    """Any value is kept as it was given, whether sensible or not: checks are for fit."""
    p = env.pick('p', [q for q in PARAMS[cls] if q != 'k_func'])
    v = ODD[env.choice('v', len(ODD))]
    w = ODD[env.choice('w', len(ODD))]
    how = env.pick('how', ['made', 'set', 'both', 'cloned'])
    m = build(env, cls, {} if how == 'set' else {p: v})
    if how in ('set', 'both'):
        m.set_params(**{p: w})
        v = w
    elif how == 'cloned':
        out = env.call(env.sk('sklearn.base').clone, m)
        if not env.expect_ok(out, 'cloned'):
            return
        m = out.val
    for deep in (True, False):
        got = m.get_params(deep=deep)
        env.prove(got[p] is v or (how == 'cloned' and type(got[p]) is type(v) and got[p] == v), 'the value given')
    env.prove(getattr(m, p) is v or how == 'cloned', 'the attribute')
    for q in PARAMS[cls]:
        if q not in (p, 'k_func'):
            env.prove(same(env, getattr(m, q), default(cls, q)), 'the others')


@R.add(variants=ALL, wits=4)
def unchanged(env, cls):
    """Fitting and predicting, on few or many samples, and failing to, leave the parameters as they were given."""
    base = env.mod('base')
    reg = cls in ('KernelMachineRegressor', 'OptimalKernelSVR')
    T = sym_table(env, range(4), name='K')
    if cls.startswith('Kernel'):
        given = dict(k_func=table_kernel(env, base, T), normalized=env.pick('norm', [False, True]))
        full = dict(given, learner_id='SVR' if reg else 'SVC')
    else:
        env.assume(T[0, 0] + T[1, 1] - 2 * T[0, 1] >= 0.5)
        given = dict(k_bucket=bucket(env, [T]), method='align/corr', C=4.0, tol=env.pick('tol', [1e-4, 0.25]),
                     shrinking=env.pick('shrinking', [True, False]))
        if reg:
            given['epsilon'] = env.pick('eps', [0.5, 0.01])
        full = dict(given)
    m = build(env, cls, given)
    for t in range(2):
        n = env.pick('n%d' % t, ([1, 2, 3] if reg else [2, 3]) if cls.startswith('Kernel') else [2])
        kind = env.pick('kind%d' % t, ['fit', 'fail', 'short', 'predict'])
        X = id_sample(env, list(range(n)))
        y = env.np.array([1.0, 2.0, 1.0][:n])
        if kind == 'fit':
            env.expect_ok(env.call(m.fit, X, y), 'fit')
            env.expect_ok(env.call(m.predict, id_sample(env, [3, 0, 1])), 'predict')
        elif kind == 'fail':
            env.prove(not env.call(m.fit, X[0], y).ok, 'refused')
        elif kind == 'short':
            env.prove(not env.call(m.fit, X, env.np.array([1.0] * (n + 1))).ok, 'refused')
        else:
            env.call(m.predict, X)
        expect_params(env, m, full, 'after %s' % kind)
