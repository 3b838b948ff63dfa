"""C22: which kernels a bucket contains."""
from symk.scen import Registry
from .lib import *
from .c11 import KERNELS, DEFAULTS

R = Registry()
lookup = R.lookup

FAMILIES = [('poly_degree_values', 'poly', 'degree'), ('rbf_sigma_values', 'gaussian', 'sigma'),
            ('laplace_gamma_values', 'laplacian', 'gamma'), ('sigmoid_gamma_values', 'sigmoid', 'gamma'),
            ('sigmoid_offset_values', 'sigmoid', 'offset')]
NONE = {f[0]: None for f in FAMILIES}



STRATEGIES = {
    'exhaustive': [[2, 3, 4], [2.0 ** e for e in (-5, -3, -1, 1, 3, 5)], [2.0 ** e for e in (-5, -3, -1, 1, 3, 5)],
                   [2.0 ** e for e in (-5, -3, -1, 1, 3, 5)], [-2.0, 1.0, 2.0]],
    'light': [[2, 3], [2.0 ** e for e in (-3, -1, 1)], [2.0 ** e for e in (-3, -1, 1)],
              [2.0 ** e for e in (-3, -1, 1, 3, 5)], [1.0]],
    'linear_only': [None] * 5}


def family_values(env, kern, par, n, name):
    """Symbolic parameter values (degrees are picked)."""
    if par == 'degree':
        return [env.pick('%s%d' % (name, i), [2, 3, 1, 5][:2 + i]) for i in range(n)]
    lo, hi = (0.05, 30) if kern in ('gaussian', 'laplacian') else (-3, 3)
    return [env.real('%s%d' % (name, i), lo=lo, hi=hi) for i in range(n)]


def expect_kernel(env, km, kern, given, tag, values=True):
    cls = getattr(env.mod('numeric_kernels'), KERNELS[kern][0])
    env.prove(isinstance(km.kernel, cls), tag + ': family')
    if not isinstance(km.kernel, cls):
        return
    ps = dict(DEFAULTS[kern])
    ps.update(given)
    for p, v in ps.items():
        env.expect_close(getattr(km.kernel, p), v * env.const(1), tag + ': ' + p)
    if values:
        x, y = [env.const(0.5), env.const(0.25)], [env.const(1.0), env.const(0.75)]
        out = env.call(km.kernel, env.np.array(x), env.np.array(y))
        if env.expect_ok(out, tag + ' works'):
            env.expect_close(out.val, KERNELS[kern][1](env, x, y, ps), tag + ': value')


def expect_members(env, kb, want, tag=''):
    env.prove(len(kb) == len(want) and kb.size == len(want), tag + 'number of kernels')
    if len(kb) != len(want):
        return
    for t, (kern, given) in enumerate(want):
        expect_kernel(env, kb[t], kern, given, '%smember %d' % (tag, t))
    env.prove(kb.num_samples is None, tag + 'not attached')


def members(vals):
    want = [('linear', {})]
    for (arg, kern, par), vs in zip(FAMILIES, vals):
        for v in vs or []:
            want.append((kern, {par: v}))
    return want


def form_of(env, vs, form):
    return {'list': list(vs), 'tuple': tuple(vs), 'array': env.np.array(vs)}[form]


@R.add(variants=[dict(fam=i, n=n) for i in range(5) for n in (1, 2, 3)], wits=3)
def one_family(env, fam, n):
    """One kernel per value, in order, whatever the container."""
    sm = env.mod('sampling')
    arg, kern, par = FAMILIES[fam]
    vs = family_values(env, kern, par, n, 'v')
    kb = sm.KernelBucket(**dict(NONE, **{arg: form_of(env, vs, env.pick('form', ['list', 'tuple', 'array']))}))
    expect_members(env, kb, members([vs if i == fam else None for i in range(5)]))


@R.add(wits=4)
def all_families(env):
    """All families together, each with its own number of values."""
    sm = env.mod('sampling')
    kw, vals = {}, []
    for i, (arg, kern, par) in enumerate(FAMILIES):
        n = env.pick('n%d' % i, [0, 1, 2] if i in (0, 3) else [0, 1] if i != 4 else [0, 2])
        vs = family_values(env, kern, par, n, 'v%d_' % i) if n else None
        if par == 'degree' and vs:
            vs = [2, 3][:n]
        kw[arg] = vs
        vals.append(vs)
    kb = sm.KernelBucket(**kw)
    expect_members(env, kb, members(vals))


@R.add(wits=2)
def repeated_values(env):
    """Values given twice give two kernels."""
    sm = env.mod('sampling')
    v = env.real('v', lo=0.05, hi=5)
    kb = sm.KernelBucket(**dict(NONE, rbf_sigma_values=[v, v], laplace_gamma_values=[v, v]))
    expect_members(env, kb, [('linear', {})] + [('gaussian', dict(sigma=v))] * 2 + [('laplacian', dict(gamma=v))] * 2)
    ms = list(kb)
    env.prove(len({id(m) for m in ms}) == len(ms), 'distinct members')


@R.add(variants=[dict(st=s) for s in STRATEGIES] + [dict(st=None), dict(st='ctor')], wits=1)
def strategies(env, st):
    """The named strategies."""
    sm = env.mod('sampling')
    if st is None:
        kb = sm.make_kernel_bucket()
        st = 'exhaustive'
    elif st == 'ctor':
        kb = sm.KernelBucket()
        st = 'exhaustive'
    else:
        up = env.pick('case', [0, 1, 2])
        kb = sm.make_kernel_bucket([st, st.upper(), st.capitalize()][up])
    env.prove(isinstance(kb, sm.KernelBucket), 'a bucket')
    want = members(STRATEGIES[st])
    env.prove(len(kb) == len(want), 'number of kernels')
    if len(kb) == len(want):
        for t, (kern, given) in enumerate(want):
            expect_kernel(env, kb[t], kern, given, 'member %d' % t, values=False)


@R.add(wits=4)
def separate(env):
    """Buckets share no members; the defaults stay as they are."""
    sm = env.mod('sampling')
    a = sm.make_kernel_bucket('light')
    v = env.real('v', lo=0.05, hi=5)
    a.add_parametrized_kernels(env.mod('numeric_kernels').LaplacianKernel, 'gamma', [v])
    b = sm.make_kernel_bucket(env.pick('st', ['light', 'linear_only']))
    env.prove(not ({id(m) for m in a} & {id(m) for m in b}), 'nothing shared')
    c = sm.make_kernel_bucket('light')
    env.prove(len(c) == len(members(STRATEGIES['light'])), 'unaffected')
    env.prove(len(a) == len(c) + 1, 'one added')
    expect_kernel(env, a[len(c)], 'laplacian', dict(gamma=v), 'added')


@R.add(variants=[dict(how=h, norm=b) for h in ('ctor', 'make', 'default') for b in (False, True)], wits=3)
def normalisation(env, how, norm):
    """All members are normalised, or none, as asked; by default they are."""
    sm, nk = env.mod('sampling'), env.mod('numeric_kernels')
    kw = {} if how == 'default' else dict(normalize_kernels=norm)
    if how == 'make':
        kb = sm.make_kernel_bucket('linear_only', **kw)
        kb.add_parametrized_kernels(nk.PolyKernel, 'degree', [2])
    else:
        kb = sm.KernelBucket(**dict(NONE, poly_degree_values=[2], **kw))
        norm = norm or how == 'default'
    a, b = env.real('a', lo=0.5, hi=4), env.real('b', lo=0.5, hi=4)
    X = [[a, env.const(1)], [env.const(-2), b]]
    kb.attach_to(env.np.array(X))
    for t, (kern, ps) in enumerate([('linear', {}), ('poly', dict(degree=2, gamma=1.0, b=1.0))]):
        K = [[KERNELS[kern][1](env, x, y, ps) for y in X] for x in X]
        if norm:
            r = [env.sqrt(K[i][i]) for i in range(2)]
            K = [[K[i][j] / (r[i] * r[j]) for j in range(2)] for i in range(2)]
        env.expect_matrix(kb[t].full, K, 'member %d' % t)


@R.add(variants=[dict(how=h, skip=b) for h in ('ctor', 'make', 'default') for b in (False, True)], wits=2)
def input_checks(env, how, skip):
    """The option on input checks reaches the parametrised kernels."""
    sm, nk = env.mod('sampling'), env.mod('numeric_kernels')
    kw = {} if how == 'default' else dict(skip_input_checks=skip)
    skip = skip and how != 'default'
    kb = sm.make_kernel_bucket('light', **kw) if how == 'make' else sm.KernelBucket(**dict(
        {f[0]: [2.0] for f in FAMILIES}, **kw))
    kb.add_parametrized_kernels(nk.Chi2Kernel, 'gamma', [env.real('g', lo=1, hi=2)])
    for t in range(1, len(kb)):
        env.prove(bool(kb[t].kernel.skip_input_checks) == skip, 'option of member %d' % t)


@R.add(wits=4)
def unacceptable(env):
    """Values a kernel does not accept are skipped with a warning, the others kept in order."""
    sm, nk = env.mod('sampling'), env.mod('numeric_kernels')
    v = [env.real('v%d' % i, lo=0.5, hi=5) for i in range(2)]
    kern, par = env.pick('k', [('gaussian', 'sigma'), ('hadamard', 'alpha')])
    bads = {'gaussian': ['a', None, {}], 'hadamard': [0, 0.0, None]}[kern]
    bad = env.pick('bad', [0, 1, 2])
    at = env.pick('at', [0, 1, 2])
    vs = [v[0], v[1]] if kern == 'gaussian' else [2, 3]
    vals = vs[:at] + [bads[bad]] + vs[at:]
    kb = sm.make_kernel_bucket('linear_only')
    cls = getattr(nk, KERNELS[kern][0])
    out = env.call(kb.add_parametrized_kernels, cls, par, vals)
    if env.expect_ok(out, 'goes on'):
        env.prove(len(out.warns) >= 1, 'with a warning')
    expect_members(env, kb, [('linear', {})] + [(kern, {par: x}) for x in vs])
    out = env.call(kb.add_parametrized_kernels, cls, 'nosuch', [v[0], 1])
    env.prove(out.ok and len(out.warns) >= 2, 'unknown parameter: each value skipped', soft=out)
    expect_members(env, kb, [('linear', {})] + [(kern, {par: x}) for x in vs])


@R.add(variants=[dict(kern=k, par=p) for k, p in (('poly', 'gamma'), ('poly', 'b'), ('poly', 'degree'), ('gaussian', 'sigma'),
                                                  ('laplacian', 'gamma'), ('chi2', 'gamma'), ('sigmoid', 'gamma'),
                                                  ('sigmoid', 'offset'), ('hadamard', 'alpha'))], wits=3)
def added_later(env, kern, par):
    """Any kernel and parameter may be added afterwards, repeatedly."""
    sm, nk = env.mod('sampling'), env.mod('numeric_kernels')
    kb = sm.make_kernel_bucket('linear_only')
    want = [('linear', {})]
    for t in range(2):
        n = env.pick('n%d' % t, [1, 2])
        if par in ('degree', 'alpha'):
            vs = [2, 4][:n]
        else:
            vs = [env.real('v%d_%d' % (t, i), lo=0.05, hi=5) for i in range(n)]
        out = env.call(kb.add_parametrized_kernels, getattr(nk, KERNELS[kern][0]), par,
                       form_of(env, vs, env.pick('form%d' % t, ['list', 'tuple'])))
        if env.expect_ok(out, 'added'):
            env.prove(not out.warns, 'no warning')
        want += [(kern, {par: v}) for v in vs]
        expect_members(env, kb, want, 'after %d: ' % t)


@R.add(wits=4)
def refused(env):
    """Wrong names and types."""
    sm, base, nk = env.mod('sampling'), env.mod('base'), env.mod('numeric_kernels')
    what = env.pick('what', ['strategy', 'norm', 'skip', 'values', 'func', 'empty', 'make norm', 'make skip'])
    junk = env.pick('junk', [0, 1, 2, 3])
    nb = [None, 1, 'yes', 0][junk]
    if what == 'strategy':
        out = env.call(sm.make_kernel_bucket, ['tiny', '', 'lights', 'linear'][junk])
        env.prove(out.raised(ValueError), 'refused', soft=out)
    elif what in ('norm', 'skip'):
        out = env.call(sm.KernelBucket, **{'normalize_kernels' if what == 'norm' else 'skip_input_checks': nb})
        env.prove(out.raised(TypeError), 'refused', soft=out)
    elif what in ('make norm', 'make skip'):
        out = env.call(sm.make_kernel_bucket, 'light', **{'normalize_kernels' if what == 'make norm' else 'skip_input_checks': nb})
        env.prove(out.raised(TypeError), 'refused', soft=out)
    elif what in ('values', 'empty'):
        arg = env.pick('arg', [f[0] for f in FAMILIES])
        v = ['abc', 2, 3.5, '2'][junk] if what == 'values' else [[], (), '', {}][junk]
        out = env.call(sm.KernelBucket, **dict(NONE, **{arg: v}))
        env.prove(out.raised(ValueError), 'refused', soft=out)
    else:
        kb = sm.make_kernel_bucket('linear_only')
        f = [nk.PolyKernel(), 'PolyKernel', int, base.KernelMatrix][junk]
        out = env.call(kb.add_parametrized_kernels, f, 'degree', [2])
        env.prove(out.raised(env.mod('config').KernelMethodsException), 'refused', soft=out)
        env.prove(len(kb) == 1, 'nothing added')


@R.add(wits=2)
def nothing_added(env):
    """No values, nothing added; a bucket given is returned itself."""
    sm, base, nk = env.mod('sampling'), env.mod('base'), env.mod('numeric_kernels')
    kb = sm.make_kernel_bucket('linear_only')
    out = env.call(kb.add_parametrized_kernels, nk.PolyKernel, 'degree', None)
    env.prove(out.ok and len(kb) == 1, 'nothing added', soft=out)
    x = kb if env.pick('set', [0, 1]) else base.KernelSet()
    out = env.call(sm.make_kernel_bucket, x)
    env.prove(out.ok and out.val is x, 'the same', soft=out)


@R.add(variants=lambda t: [dict(n=n) for n in sizes(t, quick_limit=34)], wits=1)
def many(env, n):
    """Any number of values."""
    sm = env.mod('sampling')
    s = env.real('s', lo=0.5, hi=2)
    vs = [s * (i + 1) for i in range(n)]
    kb = sm.KernelBucket(**dict(NONE, rbf_sigma_values=vs, sigmoid_offset_values=vs[::-1]))
    want = [('linear', {})] + [('gaussian', dict(sigma=v)) for v in vs] + [('sigmoid', dict(offset=v)) for v in vs[::-1]]
    env.prove(len(kb) == len(want), 'number of kernels')
    if len(kb) == len(want):
        for t, (kern, given) in enumerate(want):
            expect_kernel(env, kb[t], kern, given, 'member %d' % t, values=False)


@R.add(variants=lambda t: [dict(n=n, norm=b) for n in sizes(t, quick_limit=34) for b in (False, True)], wits=1)
def many_normalised(env, n, norm):
    """All of any number of members are normalised, or none."""
    sm, nk = env.mod('sampling'), env.mod('numeric_kernels')
    s = env.real('s', lo=0.5, hi=2)
    kb = sm.KernelBucket(**dict(NONE, normalize_kernels=norm))
    vs = [float(i + 1) for i in range(n)]
    if n > 1:
        kb.add_parametrized_kernels(nk.PolyKernel, 'b', vs[:n // 2])
    kb.add_parametrized_kernels(nk.PolyKernel, 'b', vs[n // 2:])
    X = env.np.array([[s], [2.0]])
    kb.attach_to(X)
    for t in {0, 1, n // 2, n - 1, n}:
        M = kb[t].full
        if t == 0:
            env.expect_close(M[0, 0], env.const(1) if norm else s * s, 'member %d' % t)
        else:
            w = KERNELS['poly'][1](env, [s], [s], dict(DEFAULTS['poly'], b=vs[t - 1]))
            env.expect_close(M[0, 0], env.const(1) if norm else w, 'member %d' % t)


@R.add(variants=[dict(form=f) for f in ('list', 'tuple', 'array')], wits=3)
def shared_values(env, form):
    """One and the same container given for several families counts for each of them."""
    sm = env.mod('sampling')
    ints = env.pick('ints', [True, False])
    vs = [2, 3] if ints else [env.real('v%d' % i, lo=0.5, hi=3) for i in range(2)]
    c = form_of(env, vs, form)
    kw, vals = dict(NONE), []
    for i, (arg, kern, par) in enumerate(FAMILIES):
        use = env.pick('use%d' % i, [False, True]) and (ints or par != 'degree')
        if use:
            kw[arg] = c
        vals.append(vs if use else None)
    expect_members(env, sm.KernelBucket(**kw), members(vals))
    for i, v in enumerate(vs):
        env.prove(c[i] == v, 'the values given are kept')
