"""C26: kernels made from functions, and text forms."""
from symk.scen import Registry
from .lib import *
from .c11 import KERNELS, DEFAULTS, make

R = Registry()
lookup = R.lookup


def texts(env, o, tag):
    """All text forms: each must succeed; returns them."""
    out = []
    for nm, f in (('str', lambda: str(o)), ('repr', lambda: repr(o)), ('format', lambda: '{}'.format(o)),
                  ('f-string', lambda: f'{o}'), ('format with width', lambda: '{:>3}'.format(o)),
                  ('percent', lambda: '%s %r' % (o, o))):
        r = env.call(f)
        if env.expect_ok(r, '%s: %s' % (tag, nm)):
            env.prove(isinstance(r.val, str), '%s: %s is text' % (tag, nm))
            out.append(r.val)
    return out


def mentions(env, o, words, tag):
    for s in texts(env, o, tag):
        for w in words:
            env.prove(w in s, '%s mentions %r' % (tag, w))


# --- kernels from callables


def poly_like(env, log):
    def f(x, y, a=2, b=0):
        log.append((x, y, a, b))
        return a * (x[0] * y[0] + x[1] * y[1]) + b
    return f


@R.add(wits=4)
def calls(env):
    """The function gets the two inputs, in order, and the parameters; its value is returned."""
    base = env.mod('base')
    log = []
    f = poly_like(env, log)
    ps = {}
    if env.pick('ga', [0, 1]):
        ps['a'] = env.real('a', lo=-5, hi=5)
    if env.pick('gb', [0, 1]):
        ps['b'] = env.real('b', lo=-5, hi=5)
    k = base.KernelFromCallable(f, **ps)
    x = env.np.array([env.real('x%d' % i, lo=-5, hi=5) for i in range(2)])
    y = env.np.array([env.real('y%d' % i, lo=-5, hi=5) for i in range(2)])
    for t, (u, v) in enumerate([(x, y), (y, x), (x, x)]):
        out = env.call(k, u, v)
        if env.expect_ok(out, 'call'):
            a, b = ps.get('a', 2), ps.get('b', 0)
            env.expect_close(out.val, a * (u[0] * v[0] + u[1] * v[1]) + b, 'value')
            env.prove(len(log) == t + 1, 'one evaluation')
            env.prove(log[t][0] is u and log[t][1] is v, 'the inputs themselves')
            env.expect_close(log[t][2], a * env.const(1), 'first parameter')
            env.expect_close(log[t][3], b * env.const(1), 'second parameter')


@R.add(wits=3)
def order_kept(env):
    """Functions that are not symmetric are not made so."""
    base = env.mod('base')
    k = base.KernelFromCallable(lambda x, y: x[0] - 2 * y[0])
    x, y = env.real('x', lo=-5, hi=5), env.real('y', lo=-5, hi=5)
    env.expect_close(k([x], [y]), x - 2 * y, 'value')
    env.expect_close(k([y], [x]), y - 2 * x, 'swapped')


@R.add(wits=4)
def in_matrix(env):
    """In a kernel matrix: all its values, one or two samples."""
    base = env.mod('base')
    c = env.real('c', lo=0.5, hi=5)
    T = sym_table(env, range(4))
    look = lambda x, y, scale=1: T[min(int(x[0]), int(y[0])), max(int(x[0]), int(y[0]))] * scale
    k = base.KernelFromCallable(look, name='mine', scale=c)
    km = base.KernelMatrix(k, normalized=False)
    S = {key: v * c for key, v in T.items()}
    if env.pick('two', [0, 1]):
        km.attach_to(id_sample(env, [0, 1]), sample_two=id_sample(env, [2, 3, 0]))
        O = Oracle(env, S, [0, 1], [2, 3, 0])
    else:
        km.attach_to(id_sample(env, [0, 1, 3]))
        O = Oracle(env, S, [0, 1, 3])
    nm = env.pick('op', ['full', 'elem', 'slices', '[:,:]'])
    OP[nm](env, km, O, False, nm)
    OP['full'](env, km, O, False, 'full')


@R.add(wits=4)
def forms(env):
    """Functions, methods, lambdas and callable objects are all taken; the rest is refused."""
    base = env.mod('base')
    v = env.real('v', lo=-5, hi=5)

    class Obj:
        def __call__(self, x, y):
            return x * y

        def meth(self, x, y, z=1):
            return x * y * z

        def one(self, x):
            return x

    def three(x, y, z):
        return x * y * z

    def bare():
        return 0

    def defaulted(x, y=3):
        return x * y

    def both_defaulted(x=1, y=3, *, w=1):
        return x * y * w

    def variadic(x, y, *more, **kw):
        return x * y * kw.get('w', 1)

    class Cls:
        @staticmethod
        def stat(x, y):
            return x * y

        @classmethod
        def clsm(cls, x, y):
            return x * y

        @classmethod
        def clsone(cls, x):
            return x

    what = env.pick('what', ['lambda', 'object', 'method', 'three', 'partial', 'default', 'defaults', 'variadic', 'static',
                             'classmethod', 'class one', 'one', 'none', 'text', 'number', 'bare', 'list', 'one method'])
    from functools import partial
    f = {'lambda': lambda x, y: x * y, 'object': Obj(), 'method': Obj().meth, 'three': three,
         'partial': partial(lambda x, y, z=1: x * y * z, z=3), 'one': lambda x: x, 'none': None, 'text': 'dot',
         'default': defaulted, 'defaults': both_defaulted, 'variadic': variadic, 'static': Cls.stat, 'classmethod': Cls.clsm,
         'class one': Cls.clsone,
         'number': 3, 'bare': bare, 'list': [1, 2], 'one method': Obj().one}[what]
    ps = {'z': 2} if what in ('method', 'three') else {'w': 2} if what in ('defaults', 'variadic') else {}
    out = env.call(base.KernelFromCallable, f, **ps)
    if what in ('one', 'none', 'text', 'number', 'bare', 'list', 'one method', 'class one'):
        env.prove(out.raised(TypeError), 'refused', soft=out)
    elif env.expect_ok(out, 'taken'):
        w = {'method': 2, 'three': 2, 'partial': 3, 'defaults': 2, 'variadic': 2}.get(what, 1)
        env.expect_close(out.val(v, 2), 2 * w * v, 'value')
        texts(env, out.val, 'kernel')


@R.add(wits=3)
def names(env):
    """The name given, or that of the function."""
    base = env.mod('base')

    def myfunc(x, y, p=1):
        return x * y * p
    own = env.pick('own', ['myfunc', '_f_', '__f', 'f__', 'F', '<lambda>', 'fé', 'a' * 80, 'kernel', 'f1'])
    myfunc.__name__ = own
    nm = env.pick('nm', [None, 'given', '', 'with space', ' padded ', '_g_', '<g>', 'G' * 90, 7])
    p = env.pick('p', [None, 3])
    kw = {} if p is None else {'p': p}
    k = base.KernelFromCallable(myfunc, name=nm, **kw) if nm is not None else base.KernelFromCallable(myfunc, **kw)
    want = own if nm is None else str(nm)
    env.prove(k.name == want, 'name')
    mentions(env, k, [want] + ([] if p is None else ['p', '3']), 'text')


# --- text forms of everything else


@R.add(variants=[dict(kern=k) for k in KERNELS], wits=3)
def numeric_kernels(env, kern):
    """Kernels show their names and parameters."""
    ps = dict(DEFAULTS[kern])
    for i, p in enumerate(sorted(ps)):
        ps[p] = env.pick(p, [2, 4] if p in ('degree', 'alpha') else [0.5, 1.25, 3.0])
    k = make(env, kern, ps)
    words = [k.name]
    for p, v in ps.items():
        words += [p, str(v)]
    mentions(env, k, words, 'kernel')
    k2 = make(env, kern, {})
    mentions(env, k2, [k2.name] + list(ps), 'default kernel')


@R.add(wits=3)
def categorical(env):
    """The match-count kernel."""
    ca = env.mod('categorical')
    k = ca.MatchCountKernel(return_perc=env.pick('perc', [True, False]))
    mentions(env, k, [k.name], 'kernel')


STATES = ['new', 'one', 'two', 'filled', 'normed', 'named']


@R.add(variants=[dict(norm=b) for b in (False, True)], wits=4)
def matrices(env, norm):
    """Kernel matrices in every state; nothing is evaluated, nothing changes."""
    base = env.mod('base')
    T = sym_table(env, range(4))
    log = []
    nm = env.pick('nm', ['K', 'my matrix', ''])
    km = base.KernelMatrix(table_kernel(env, base, T, log, name='tabk'), normalized=norm, name=nm)
    st = env.pick('st', STATES)
    O = Oracle(env, T, [0, 1, 2])
    words = [nm, 'tabk']
    if st == 'two':
        km.attach_to(id_sample(env, [0, 1]), name_one='left', sample_two=id_sample(env, [2, 3]), name_two='right')
        O = Oracle(env, T, [0, 1], [2, 3])
        words += ['left', 'right', str(norm)]
    elif st != 'new':
        km.attach_to(id_sample(env, [0, 1, 2]), **({'name_one': 'mysample'} if st == 'named' else {}))
        words += [str(norm)] + (['mysample'] if st == 'named' else [])
    if st == 'filled':
        km.full
    elif st == 'normed':
        km.normed_km
    n = len(log)
    mentions(env, km, words, 'matrix')
    env.prove(len(log) == n, 'nothing evaluated')
    if st != 'new':
        OP['full'](env, km, O, norm, 'afterwards')


@R.add(wits=4)
def collections(env):
    """Sets, buckets and composites mention their members."""
    base, sm = env.mod('base'), env.mod('sampling')
    log = []
    TA, TB = sym_table(env, range(2), name='A'), sym_table(env, range(2), name='B')
    kms = [base.KernelMatrix(table_kernel(env, base, TA, log, name='alpha'), normalized=False, name='one'),
           base.KernelMatrix(table_kernel(env, base, TB, log, name='beta'), normalized=False, name='two')]
    what = env.pick('what', ['set', 'empty', 'attached', 'bucket', 'composite', 'fitted', 'weighted'])
    comp = env.pick('comp', ['SumKernel', 'ProductKernel', 'AverageKernel'])
    nm = env.pick('nm', ['Mine', 'my set'])
    if what == 'empty':
        mentions(env, base.KernelSet(name=nm), [nm], 'empty set')
    elif what == 'bucket':
        kb = sm.make_kernel_bucket('light')
        mentions(env, kb, ['linear', 'polynomial', 'gaussian', 'laplacian', 'sigmoid'], 'bucket')
    else:
        ks = base.KernelSet(kms, name=nm)
        if what != 'set':
            ks.attach_to(id_sample(env, [0, 1]))
        if what in ('composite', 'fitted'):
            c = getattr(base, comp)(ks, name='Comp')
            if what == 'fitted':
                c.fit()
            n = len(log)
            mentions(env, c, ['Comp', nm, 'alpha', 'beta'], 'composite')
        elif what == 'weighted':
            c = base.WeightedAverageKernel(ks, weights=[0.5, 0.5], name='Wei')
            n = len(log)
            mentions(env, c, ['Wei', nm, 'alpha', 'beta'], 'composite')
        else:
            n = len(log)
            mentions(env, ks, [nm, 'alpha', 'beta', 'one', 'two'], 'set')
        env.prove(len(log) == n, 'nothing evaluated')


@R.add(wits=4)
def special(env):
    """Precomputed and constant ones."""
    base = env.mod('base')
    nm = env.pick('nm', [None, 'mine'])
    n = env.pick('n', [1, 2])
    if env.pick('what', [0, 1]):
        km = base.KernelMatrixPrecomputed([[1.0] * n] * n, **({} if nm is None else dict(name=nm)))
        mentions(env, km, [nm or 'Precomputed', str(n)], 'precomputed')
    else:
        km = base.ConstantKernelMatrix(n, 4.5, **({} if nm is None else dict(name=nm)))
        mentions(env, km, [nm or 'Constant', '4.5', str(n)], 'constant')


@R.add(wits=4)
def any_parameters(env):
    """Parameters of any kind reach the function as they were given, at every call."""
    base = env.mod('base')
    seen = []

    def f(x, y, p=None, q=None):
        seen.append((p, q))
        return x[0] * y[0]
    fun = lambda v: v
    kinds = [None, 0, '', 'text', [], [1, 2], {'a': 1}, fun, float, (), (1,), True, False, f, object()]
    p, q = env.pick('p', kinds), env.pick('q', [None, fun, [3]])
    k = base.KernelFromCallable(f, p=p, q=q)
    km = base.KernelMatrix(k, normalized=False)
    x, y = env.real('x', lo=-5, hi=5), env.real('y', lo=-5, hi=5)
    for t in range(2):
        out = env.call(k, [x], [y])
        if env.expect_ok(out, 'call'):
            env.expect_close(out.val, x * y, 'value')
    km.attach_to(env.np.array([[x], [y]]))
    env.expect_matrix(km.full, [[x * x, x * y], [x * y, y * y]], 'matrix')
    texts(env, k, 'text')
    for a, b in seen:
        env.prove(a is p and b is q, 'the very parameters given')


@R.add(wits=4)
def returned(env):
    """Whatever the function returns is returned, the very object."""
    base = env.mod('base')
    vals = [2 ** 53 + 1, 3 + 4j, None, 'text', [1], True, 0, env.nan, env.inf, {}, env.real('r', lo=-5, hi=5), -1, 10 ** 400]
    v = vals[env.choice('v', len(vals))]
    ps = env.pick('ps', [{}, {'p': 0}, {'p': None}])
    k = base.KernelFromCallable(lambda x, y, p=1: v, **ps)
    for t in range(2):
        out = env.call(k, 1, 2)
        if env.expect_ok(out, 'call'):
            env.prove(out.val is v, 'the value itself')
    out = env.call(lambda: (_ for _ in ()).throw(KeyError('x')))
    bad = base.KernelFromCallable(lambda x, y: {}['nosuch'])
    env.prove(env.call(bad, 1, 2).raised(KeyError), 'errors of the function are passed on')


@R.add(wits=3)
def empty_parameters(env):
    """Parameters are shown whatever their values."""
    base = env.mod('base')
    v, w = (env.pick(n, [0, 0.0, False, None, '', 1, 'x', ()]) for n in 'vw')
    k = base.KernelFromCallable(lambda x, y, gamma=1, offset=2: 1, name='mine', gamma=v, offset=w)
    mentions(env, k, ['mine', 'gamma', 'offset'] + [str(z) for z in (v, w) if str(z)], 'text')
    k = base.KernelFromCallable(lambda x, y, gamma=1, offset=2: 1, name='mine', gamma=v)
    mentions(env, k, ['mine', 'gamma', str(v)], 'text')


@R.add(wits=6)
def unrelated_calls(env):
    """Every call is with its own samples, however alike those of the calls before."""
    base = env.mod('base')
    k = base.KernelFromCallable(lambda x, y: 10 * len(x) + len(y) + x[0] * y[0])
    pool = [env.typed([0, 0], 'int32'), env.typed([0], 'int64'), env.np.array([0.0]), env.typed([0, 0, 0, 0], 'int16'),
            env.np.array([env.real('a')]), env.np.array([env.real('b'), env.const(0)])]
    for t in range(2):
        x, y = pool[env.choice('x%d' % t, len(pool))], pool[[1, 2, 4][env.choice('y%d' % t, 3)]]
        out = env.call(k, x, y)
        if env.expect_ok(out, 'call'):
            env.expect_close(out.val * env.const(1), 10 * len(x) + len(y) + x[0] * y[0] * env.const(1), 'value of call %d' % (t + 1))
