"""C11: what the numeric kernel functions compute."""
from symk.scen import Registry
from .lib import *

R = Registry()
lookup = R.lookup


def total(xs):
    s = xs[0]
    for x in xs[1:]:
        s = s + x
    return s


def dotp(x, y):
    return total([a * b for a, b in zip(x, y)])


def ipow(v, p):
    r = v
    for _ in range(p - 1):
        r = r * v
    return r


def f_linear(env, x, y, p):
    return dotp(x, y)


def f_poly(env, x, y, p):
    return ipow(p['b'] + p['gamma'] * dotp(x, y), p['degree'])


def f_gaussian(env, x, y, p):
    s = p['sigma']
    return env.exp(-(total([(a - b) * (a - b) for a, b in zip(x, y)]) / (2 * s * s)))


def f_laplacian(env, x, y, p):
    return env.exp(-(p['gamma'] * total([abs(a - b) for a, b in zip(x, y)])))


def f_chi2(env, x, y, p):
    ts = []
    for a, b in zip(x, y):
        if env.is_true(a + b > 0):
            ts.append((a - b) * (a - b) / (a + b))
    return env.exp(-(p['gamma'] * total(ts))) if ts else env.const(1)


def f_sigmoid(env, x, y, p):
    return env.tanh(p['offset'] + p['gamma'] * dotp(x, y))


def f_hadamard(env, x, y, p):
    ts = [env.const(0)]
    for a, b in zip(x, y):
        u, v = ipow(abs(a), p['alpha']), ipow(abs(b), p['alpha'])
        if env.is_true(u + v > 0):
            ts.append(u * v / (2 * (u + v)))
    return total(ts)


KERNELS = {'linear': ('LinearKernel', f_linear), 'poly': ('PolyKernel', f_poly),
           'gaussian': ('GaussianKernel', f_gaussian), 'laplacian': ('LaplacianKernel', f_laplacian),
           'chi2': ('Chi2Kernel', f_chi2), 'sigmoid': ('SigmoidKernel', f_sigmoid),
           'hadamard': ('HadamardKernel', f_hadamard)}
DEFAULTS = {'linear': {}, 'poly': dict(degree=3, gamma=1.0, b=1.0), 'gaussian': dict(sigma=2.0),
            'laplacian': dict(gamma=1.0), 'chi2': dict(gamma=1.0), 'sigmoid': dict(gamma=1.0, offset=1.0),
            'hadamard': dict(alpha=3)}


def params(env, kern, degree=2):
    """Symbolic parameters."""
    if kern == 'poly':
        return dict(degree=degree, gamma=env.real('gamma', lo=-3, hi=3), b=env.real('b', lo=-3, hi=3))
    if kern == 'gaussian':
        return dict(sigma=env.real('sigma', lo=0.05, hi=50))
    if kern == 'sigmoid':
        return dict(gamma=env.real('gamma', lo=-3, hi=3), offset=env.real('offset', lo=-3, hi=3))
    if kern in ('laplacian', 'chi2'):
        return dict(gamma=env.real('gamma', lo=0.05, hi=30))
    if kern == 'hadamard':
        return dict(alpha=degree)
    return {}


def vec(env, kern, name, n):
    hi = span(5)
    return [env.real('%s_%d' % (name, i), lo=0 if kern == 'chi2' else -hi, hi=hi) for i in range(n)]


def make(env, kern, ps, **kw):
    return getattr(env.mod('numeric_kernels'), KERNELS[kern][0])(**ps, **kw)


def check(env, kern, k, x, y, ps, tag, X=None, Y=None):
    want = KERNELS[kern][1](env, x, y, ps)
    X = env.np.array(x) if X is None else X
    Y = env.np.array(y) if Y is None else Y
    out = env.call(k, X, Y)
    if env.expect_ok(out, tag + ' succeeds'):
        env.expect_close(out.val, want, tag)
    rev = env.call(k, Y, X)
    if env.expect_ok(rev, tag + ' swapped succeeds'):
        env.expect_close(rev.val, want, tag + ' is symmetric')
    for i in range(len(x)):
        env.expect_close(A1(X)[i], x[i], 'first input unmodified')
        env.expect_close(A1(Y)[i], y[i], 'second input unmodified')


def A1(v):
    """Flat view of an input."""
    return v.reshape(-1) if hasattr(v, 'reshape') else v


def _fv(t):
    out = []
    for k in KERNELS:
        degs = {'poly': (1, 2, 3, 4), 'hadamard': (1, 2, 3)}.get(k, (2,))
        for d in degs:
            for n in ((1, 2) if t == 'quick' else (1, 2, 3, 4)):
                out.append(dict(kern=k, n=n, deg=d))
    return out


@R.add(variants=_fv, wits=4)
def formula(env, kern, n, deg):
    """The documented formula, for all inputs and parameters; symmetric; inputs unmodified."""
    ps = params(env, kern, deg)
    x, y = vec(env, kern, 'x', n), vec(env, kern, 'y', n)
    skip = env.pick('skip', [False, True])
    check(env, kern, make(env, kern, ps, skip_input_checks=skip), x, y, ps, kern)


@R.add(variants=[dict(kern=k) for k in KERNELS], wits=4)
def three_features(env, kern):
    """Three features, default parameters."""
    ps = DEFAULTS[kern]
    x, y = vec(env, kern, 'x', 3), vec(env, kern, 'y', 3)
    check(env, kern, make(env, kern, {}), x, y, ps, kern)


@R.add(variants=[dict(kern=k) for k in KERNELS], wits=4)
def input_forms(env, kern):
    """Lists, tuples, arrays and single-column arrays are all the same."""
    ps = DEFAULTS[kern]
    k = make(env, kern, {})
    x, y = vec(env, kern, 'x', 2), vec(env, kern, 'y', 2)

    def form(v, f):
        if f == 'list':
            return list(v)
        if f == 'tuple':
            return tuple(v)
        a = env.np.array(v)
        return a.reshape(-1, 1) if f == 'column' else a
    fx = env.pick('fx', ['list', 'tuple', 'array', 'column'])
    fy = env.pick('fy', ['list', 'array', 'column'])
    check(env, kern, k, x, y, ps, kern, form(x, fx), form(y, fy))


@R.add(variants=[dict(kern=k) for k in KERNELS], wits=6)
def special_points(env, kern):
    """Equal inputs, zero vectors, zero in some coordinates only, opposite inputs."""
    ps = params(env, kern)
    k = make(env, kern, ps)
    n = 2
    x = vec(env, kern, 'x', n)
    case = env.pick('case', ['same', 'zero', 'both zero', 'part', 'disjoint', 'opposite', 'identical', 'views'])
    z = env.const(0)
    if case == 'identical':
        if env.choice('unchecked', 2):
            k = make(env, kern, ps, skip_input_checks=True)
            X = env.np.array(x)
            check(env, kern, k, x, x, ps, '%s (%s, unchecked)' % (kern, case), X, X)
            return
        X = [env.np.array(x), list(x), env.np.array(x).reshape(-1, 1)][env.choice('form', 3)]
        check(env, kern, k, x, x, ps, '%s (%s)' % (kern, case), X, X)
        return
    if case == 'views':
        y = vec(env, kern, 'y', 1)
        A_ = env.np.array(x + y)
        check(env, kern, k, x, [x[1], y[0]], ps, '%s (%s)' % (kern, case), A_[:2], A_[1:])
        return
    if case == 'same':
        y = list(x)
    elif case == 'zero':
        y = [z, z]
    elif case == 'both zero':
        x, y = [z, z], [z, z]
    elif case == 'part':
        y = [x[0], z]
    elif case == 'disjoint':
        x, y = [x[0], z], [z, x[1]]
    else:
        y = [-v for v in x] if kern != 'chi2' else [x[1], x[0]]
    check(env, kern, k, x, y, ps, '%s (%s)' % (kern, case))


@R.add(variants=[dict(kern=k) for k in ('gaussian', 'laplacian', 'chi2', 'sigmoid', 'hadamard')], wits=4)
def ranges(env, kern):
    """Ranges: (0,1] with 1 at equal inputs for the exponential kernels, [-1,1] for sigmoid, >= 0 for Hadamard."""
    ps = params(env, kern)
    k = make(env, kern, ps)
    x, y = vec(env, kern, 'x', 2), vec(env, kern, 'y', 2)
    v = k(env.np.array(x), env.np.array(y))
    if kern in ('gaussian', 'laplacian', 'chi2'):
        env.prove(v >= 0, 'nonnegative')
        env.prove(v <= 1, 'at most 1')
        env.expect_close(k(env.np.array(x), env.np.array(x)), env.const(1), '1 at equal inputs')
    elif kern == 'sigmoid':
        env.prove(env.all_([v <= 1, v >= -1]), 'within [-1,1]')
    else:
        env.prove(v >= 0, 'nonnegative')


@R.add(variants=[dict(kern=k, two=t) for k in KERNELS for t in (False, True)], wits=2)
def through_matrix(env, kern, two):
    """Kernel matrices of the library's kernels: every entry is the formula on the two rows."""
    base = env.mod('base')
    ps = DEFAULTS[kern] if kern != 'poly' else dict(degree=2, gamma=1.0, b=1.0)
    km = base.KernelMatrix(make(env, kern, ps), normalized=False)
    X = [vec(env, kern, 'x%d' % i, 2) for i in range(2)]
    Y = [vec(env, kern, 'y%d' % i, 2) for i in range(1)] if two else X
    km.attach_to(env.np.array(X), sample_two=env.np.array(Y) if two else None)
    out = env.call(lambda: km.full)
    if env.expect_ok(out, 'succeeds'):
        env.expect_matrix(out.val, [[KERNELS[kern][1](env, a, b, ps) for b in Y] for a in X], kern)


@R.add(wits=4)
def independent_params(env):
    """Kernels with different parameters do not influence one another, and calls leave no trace."""
    nk = env.mod('numeric_kernels')
    kern = env.pick('kern', ['poly', 'gaussian', 'laplacian', 'sigmoid'])
    p1 = params(env, kern)
    p2 = {n: (v + 1 if n != 'degree' else 3) for n, v in p1.items()}
    x, y = vec(env, kern, 'x', 1), vec(env, kern, 'y', 1)
    a = make(env, kern, p1)
    b = make(env, kern, p2)
    for t in range(3):
        if env.pick('which%d' % t, [0, 1]):
            check(env, kern, b, x, y, p2, 'second')
        else:
            check(env, kern, a, x, y, p1, 'first')


@R.add(wits=4)
def hadamard_alpha(env):
    """alpha = 0 is refused; small and large ones are not."""
    nk = env.mod('numeric_kernels')
    case = env.pick('case', ['zero', 'intzero', 'half', 'one'])
    v = {'zero': 0.0, 'intzero': 0, 'half': 0.5, 'one': 1}[case]
    out = env.call(nk.HadamardKernel, alpha=v)
    if case in ('zero', 'intzero'):
        env.prove(out.raised(ValueError), 'refused', soft=out)
    elif env.expect_ok(out, 'accepted'):
        a, b = env.real('a', lo=0.01, hi=9), env.real('b', lo=0.01, hi=9)
        p, q = (env.sqrt(a), env.sqrt(b)) if case == 'half' else (a, b)
        env.expect_close(out.val(env.np.array([a]), env.np.array([-b])), p * q / (2 * (p + q)), 'value')


@R.add(variants=[dict(al=a) for a in (0.5, 1.5, 2.5, 3.25, -1, -2, -0.5)], wits=4)
def hadamard_powers(env, al):
    """Fractional and negative powers."""
    nk = env.mod('numeric_kernels')
    out = env.call(nk.HadamardKernel, alpha=al, skip_input_checks=env.pick('skip', [False, True]))
    if env.expect_ok(out, 'accepted'):
        x = [env.real('x%d' % i, lo=0.1, hi=9) for i in range(2)]
        y = [env.real('y%d' % i, lo=0.1, hi=9) for i in range(2)]
        u, v = [env.power(a, al) for a in x], [env.power(b, al) for b in y]
        want = total([p * q / (2 * (p + q)) for p, q in zip(u, v)])
        X, Y = env.np.array([x[0], -x[1]]), env.np.array([-y[0], y[1]])
        env.expect_close(out.val(X, Y), want, 'value')
        env.expect_close(out.val(Y, X), want, 'value swapped')


@R.add(variants=[dict(d=d) for d in (0, 1, 2.0, 3.0, 0.5, 1.5, 2.5, -1, -0.5, 7)], wits=4)
def poly_degrees(env, d):
    """Any degree, whole or not, on a positive base."""
    nk = env.mod('numeric_kernels')
    g, b = env.real('g', lo=0.1, hi=3), env.real('b', lo=0.1, hi=3)
    k = nk.PolyKernel(degree=d, gamma=g, b=b, skip_input_checks=env.pick('skip', [False, True]))
    x = [env.real('x%d' % i, lo=0, hi=2) for i in range(2)]
    y = [env.real('y%d' % i, lo=0, hi=2) for i in range(2)]
    v = b + g * dotp(x, y)
    want = env.const(1) if d == 0 else ipow(v, int(d)) if d == int(d) and d > 0 else env.power(v, d)
    X, Y = env.np.array(x), env.np.array(y)
    for tag, (p, q) in (('value', (X, Y)), ('value swapped', (Y, X))):
        out = env.call(k, p, q)
        if env.expect_ok(out, tag + ' succeeds'):
            env.expect_close(out.val, want, tag)


@R.add(variants=[dict(kern=k, c=c) for k in KERNELS for c in (1e-5, 1e-3, 1e3)], wits=3)
def scaling_law(env, kern, c):
    """Inputs of any magnitude, the parameters scaled along: the value scales as the formula does."""
    u = [env.real('u%d' % i, lo=0.5, hi=2) for i in range(2)]
    v = [env.real('v%d' % i, lo=0.5, hi=2) for i in range(2)]
    one, scaled, power = {'linear': ({}, {}, 2), 'hadamard': (dict(alpha=3), dict(alpha=3), 3),
                          'poly': (dict(degree=2, gamma=1.0, b=0.0), dict(degree=2, gamma=1.0, b=0.0), 4),
                          'gaussian': (dict(sigma=1.0), dict(sigma=c), 0),
                          'laplacian': (dict(gamma=1.0), dict(gamma=1 / c), 0),
                          'chi2': (dict(gamma=1.0), dict(gamma=1 / c), 0),
                          'sigmoid': (dict(gamma=1.0, offset=0.5), dict(gamma=1 / (c * c), offset=0.5), 0)}[kern]
    if kern in ('gaussian', 'laplacian', 'chi2', 'sigmoid'):
        c = {1e-5: 2.0 ** -17, 1e-3: 2.0 ** -10, 1e3: 2.0 ** 10}[c]      # exact reciprocals
        scaled = {'gaussian': dict(sigma=c), 'laplacian': dict(gamma=1 / c), 'chi2': dict(gamma=1 / c),
                  'sigmoid': dict(gamma=1 / (c * c), offset=0.5)}[kern]
    else:
        c = {1e-5: 2.0 ** -17, 1e-3: 2.0 ** -10, 1e3: 2.0 ** 10}[c]
    k = make(env, kern, scaled)
    out = env.call(k, env.np.array([c * a for a in u]), env.np.array([c * b for b in v]))
    if env.expect_ok(out, 'succeeds'):
        env.expect_close(out.val * (1 / c) ** power, KERNELS[kern][1](env, u, v, one), kern)


WIDE = {'gaussian': [(0.001, 0.1), (20, 300), (300, 1e5)], 'laplacian': [(1e-6, 0.05), (20, 1e4)],
        'chi2': [(1e-6, 0.05), (20, 1e4)], 'sigmoid': [(-1e3, -2), (2, 1e3)], 'poly': [(-1e3, -2), (2, 1e3)],
        'linear': [(0, 1)], 'hadamard': [(0, 1)]}


@R.add(variants=[dict(kern=k, w=w) for k in KERNELS for w in range(len(WIDE[k]))], wits=3)
def wide(env, kern, w):
    """Parameters and inputs far outside the usual range."""
    lo, hi = WIDE[kern][w]
    big = env.pick('big', [1e-3, 1.0, 1e4])
    if kern in ('poly', 'sigmoid'):
        ps = dict(gamma=env.real('g', lo=lo, hi=hi))
        ps['b' if kern == 'poly' else 'offset'] = env.real('o', lo=lo, hi=hi)
        if kern == 'poly':
            ps['degree'] = 2
    elif kern in ('linear', 'hadamard'):
        ps = DEFAULTS[kern]
    else:
        ps = {'sigma' if kern == 'gaussian' else 'gamma': env.real('g', lo=lo, hi=hi)}
    x = [env.real('x', lo=0 if kern == 'chi2' else -big, hi=big)]
    y = [env.real('y', lo=0 if kern == 'chi2' else -big, hi=big)]
    check(env, kern, make(env, kern, ps), x, y, ps, kern)


@R.add(wits=4)
def gaussian_tiny_sigma(env):
    """A vanishing bandwidth does not divide by zero: 1 at equal inputs, 0 otherwise."""
    nk = env.mod('numeric_kernels')
    s = env.pick('s', [0.0, 1e-300, 1e-17, 0])
    k = nk.GaussianKernel(sigma=s)
    x = env.real('x', lo=-3, hi=3)
    env.expect_close(k(env.np.array([x]), env.np.array([x])), env.const(1), 'equal inputs')
    out = env.call(k, env.np.array([x]), env.np.array([x + 1]))
    if env.expect_ok(out, 'succeeds'):
        env.prove(env.isfinite(out.val), 'finite')
        env.prove(env.all_([out.val >= 0, out.val <= 1]), 'in [0,1]')


@R.add(variants=lambda t: [dict(kern=k, n=n) for k in KERNELS for n in sizes(t, quick_limit=110)], wits=1)
def dimension_sweep(env, kern, n):
    """Numbers of features around every integer constant of the source."""
    s = env.real('s', lo=0.1, hi=1)
    ps = {'poly': dict(degree=2, gamma=0.1, b=1.0), 'sigmoid': dict(gamma=0.01, offset=0.1),
          'laplacian': dict(gamma=0.01), 'chi2': dict(gamma=0.01), 'gaussian': dict(sigma=20.0)}.get(kern, DEFAULTS[kern])
    x = [s * ((7 * i) % 5 + 1) for i in range(n)]
    y = [s * ((11 * i) % 7 + 1) for i in range(n)]
    k = make(env, kern, ps)
    out = env.call(k, env.np.array(x), env.np.array(y))
    if env.expect_ok(out, 'succeeds'):
        env.expect_close(out.val, KERNELS[kern][1](env, x, y, ps), kern)


@R.add(variants=[dict(kern=k) for k in KERNELS], wits=8)
def arguments_kept_to_the_bit(env, kern):
    """Evaluating leaves the arguments as they were, to the last bit, whatever their magnitudes."""
    vals = env.pick('vals', [([1e-20, 1.0], [1.0, 1.0]), ([0.1, 3.0, 1e9], [0.7, 1e-9, 0.3]), ([1e-3, 2.0], [7e7, 1e-17])])
    skip = env.pick('skip', [False, True])
    k = make(env, kern, params(env, kern), skip_input_checks=skip)
    X, Y = (env.np.array(v) for v in vals)
    env.call(k, X, Y)
    env.call(k, Y, X)
    for A, v in zip((X, Y), vals):
        for i, w in enumerate(v):
            env.prove(A[i] == w, 'argument kept')


@R.add(variants=[dict(kern=k) for k in ('gaussian', 'laplacian', 'chi2', 'sigmoid')], wits=6)
def tails(env, kern):
    """Values however close to zero are still those of the formula."""
    if kern == 'sigmoid':
        t = env.pick('t', [1e-5, 1e-9, 1e-13, 1e-40])
        env.unit = t
        g = env.real('g', lo=0.5, hi=3)
        k = make(env, kern, dict(gamma=g, offset=0.0))
        x, y, ps = [t, 0.0], [1.0, 1.0], dict(gamma=g, offset=0.0)
    else:
        t = env.pick('t', [10.0, 14.0, 20.0, 30.0, 60.0, 200.0, 500.0])
        env.unit = 2.718281828 ** -t
        g = env.real('g', lo=0.9, hi=1.0)
        ps = {'gaussian': dict(sigma=1.0), 'laplacian': dict(gamma=g), 'chi2': dict(gamma=g)}[kern]
        k = make(env, kern, ps)
        x, y = [0.0, 1.0], [(2 * t) ** 0.5 if kern == 'gaussian' else t, 1.0]
    out = env.call(k, env.np.array(x), env.np.array(y))
    if env.expect_ok(out, 'succeeds'):
        env.expect_close(out.val, KERNELS[kern][1](env, [env.const(v) for v in x], [env.const(v) for v in y], ps), kern)
